"""Copies of two files of the Go standard library whose system calls on files can be intercepted (harness/fs_test.go)."""
import os, re

CALLS = ['openat', 'write', 'pwrite', 'Close', 'Fsync', 'Fdatasync', 'Ftruncate', 'Truncate', 'Renameat', 'unlinkat', 'linkat', 'symlinkat', 'Mkdirat']


def make(goroot, out):
    """Writes the copies to out; returns the entries of the overlay."""
    z = os.path.join(goroot, 'src/syscall/zsyscall_linux_amd64.go')
    s = open(z).read()
    for c in CALLS:
        m = re.search(r'^func %s\((.*)\) \((.*)\) \{$' % c, s, re.M)
        if not m:
            raise RuntimeError('no ' + c)
        names = ', '.join(a.strip().split(' ')[0] for a in m.group(1).split(','))
        up = c[0].upper() + c[1:]
        s = s[:m.start()] + (
            '// Hook%(up)s is called instead of the system call, if set.\n'
            'var Hook%(up)s func(%(params)s) (%(res)s)\n\n'
            'func %(c)s(%(params)s) (%(res)s) {\n\tif h := Hook%(up)s; h != nil {\n\t\treturn h(%(names)s)\n\t}\n\treturn Real%(up)s(%(names)s)\n}\n\n'
            'func Real%(up)s(%(params)s) (%(res)s) {' % dict(up=up, c=c, params=m.group(1), res=m.group(2), names=names)) + s[m.end():]
    d1 = os.path.join(out, 'zsyscall.go')
    open(d1, 'w').write(s)
    u = os.path.join(goroot, 'src/internal/syscall/unix/copy_file_range_unix.go')
    s = open(u).read()
    s = s.replace('flags int) (n int, err error) {\n', 'flags int) (n int, err error) {\n\tif true {\n\t\treturn 0, syscall.ENOSYS\n\t}\n', 1)
    d2 = os.path.join(out, 'copy_file_range.go')
    open(d2, 'w').write(s)
    return {z: d1, u: d2}
