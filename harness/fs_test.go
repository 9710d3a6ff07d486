//go:build fsverif

package verif

import (
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands/reports"
)

type fsys struct {
	mu     sync.Mutex
	lmu    sync.Mutex
	a      *app
	fs     *FS
	dir    string
	files  map[int]*ofile
	nd, nc int
	last   string
	snaps  []snap
	off    bool
}

type ofile struct {
	path string
	lost bool // what was written does not fit
}

type snap struct {
	at    int64
	ex    bool
	files map[string]string
}

func init() {
	fsStart = func(a *app, dir string, cfg *FS) func() {
		s := &fsys{a: a, fs: cfg, dir: dir, files: map[int]*ofile{}}
		s.last = s.content()
		s.hook()
		return func() {
			s.off = true
			s.restarts()
		}
	}
}

func (s *fsys) content() string {
	b, err := os.ReadFile(s.a.path)
	if err != nil {
		return "-" + err.Error()
	}
	return "+" + string(b)
}

// look takes a snapshot if the configuration file has changed.
func (s *fsys) look() {
	s.lmu.Lock()
	defer s.lmu.Unlock()
	if s.off {
		return
	}
	c := s.content()
	if c == s.last {
		return
	}
	s.last = c
	sn := snap{at: time.Since(s.a.tr.t0).Microseconds(), ex: c[0] == '+', files: map[string]string{}}
	l, _ := os.ReadDir(s.dir)
	for _, f := range l {
		b, err := os.ReadFile(filepath.Join(s.dir, f.Name()))
		if err == nil {
			sn.files[f.Name()] = string(b)
		}
	}
	s.snaps = append(s.snaps, sn)
}

func (s *fsys) ours(path string) bool { return strings.HasPrefix(path, s.dir+"/") }

func (s *fsys) file(fd int) *ofile {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.files[fd]
}

func (s *fsys) wait() {
	s.mu.Lock()
	var d int64
	if len(s.fs.Delay) > 0 {
		d = s.fs.Delay[s.nd%len(s.fs.Delay)]
		s.nd++
	}
	s.mu.Unlock()
	s.look()
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
		s.look()
	}
}

// fault finds the fault of this time for an operation.
func (s *fsys) fault(op string, path string) *Fault {
	t := time.Since(s.a.tr.t0).Microseconds()
	for i := range s.fs.Faults {
		f := &s.fs.Faults[i]
		if t < f.From || t >= f.To {
			continue
		}
		if f.Kind == op || (f.Kind == "full" || f.Kind == "late") && op == "write" {
			return f
		}
	}
	return nil
}

func (s *fsys) failed(op string) {
	s.a.tr.log("fault", M{"op": op})
}

func (s *fsys) hook() {
	syscall.HookOpenat = func(dirfd int, path string, flags int, mode uint32) (int, error) {
		if !s.ours(path) || s.off {
			return syscall.RealOpenat(dirfd, path, flags, mode)
		}
		if flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) == 0 {
			return syscall.RealOpenat(dirfd, path, flags, mode)
		}
		s.wait()
		if s.fault("open", path) != nil {
			s.failed("open")
			return -1, syscall.ENOSPC
		}
		fd, err := syscall.RealOpenat(dirfd, path, flags, mode)
		if err == nil {
			s.mu.Lock()
			s.files[fd] = &ofile{path: path}
			s.mu.Unlock()
		}
		s.look()
		return fd, err
	}
	write := func(fd int, p []byte, f *ofile, w func(p []byte, skip int) (int, error)) (int, error) {
		s.wait()
		if x := s.fault("write", f.path); x != nil && x.Kind != "late" {
			s.failed("write")
			n := min(x.Room, len(p))
			x.Room -= n
			if n > 0 {
				n, _ = w(p[:n], 0)
				s.look()
			}
			if n > 0 && n < len(p) {
				return n, nil // Next time it fails
			}
			if n == len(p) {
				return n, nil
			}
			return -1, syscall.ENOSPC
		} else if x != nil && !f.lost {
			if len(p) > x.Room {
				f.lost = true
			}
		}
		n := len(p)
		if len(s.fs.Cuts) > 0 && n > 1 {
			s.mu.Lock()
			c := s.fs.Cuts[s.nc%len(s.fs.Cuts)]
			s.nc++
			s.mu.Unlock()
			n = max(1, min(n-1, n*c/100))
			if k, err := w(p[:n], 0); err != nil || k < n {
				return k, err
			}
			s.wait()
			k, err := w(p[n:], n)
			s.look()
			return n + max(k, 0), err
		}
		n, err := w(p, 0)
		s.look()
		return n, err
	}
	syscall.HookWrite = func(fd int, p []byte) (int, error) {
		f := s.file(fd)
		if f == nil || s.off {
			return syscall.RealWrite(fd, p)
		}
		return write(fd, p, f, func(p []byte, _ int) (int, error) { return syscall.RealWrite(fd, p) })
	}
	syscall.HookPwrite = func(fd int, p []byte, off int64) (int, error) {
		f := s.file(fd)
		if f == nil || s.off {
			return syscall.RealPwrite(fd, p, off)
		}
		return write(fd, p, f, func(p []byte, skip int) (int, error) { return syscall.RealPwrite(fd, p, off+int64(skip)) })
	}
	flush := func(op string, fd int, f *ofile) error {
		s.wait()
		x := s.fault(op, f.path)
		if f.lost || x != nil {
			s.failed(op)
			if f.lost { // The end of the file is gone
				var st syscall.Stat_t
				if syscall.Fstat(fd, &st) == nil {
					syscall.RealFtruncate(fd, st.Size/2)
				}
				s.look()
			}
			f.lost = false
			return syscall.ENOSPC
		}
		return nil
	}
	sync := func(real func(int) error) func(int) error {
		return func(fd int) error {
			f := s.file(fd)
			if f == nil || s.off {
				return real(fd)
			}
			return flush("sync", fd, f) // Nothing to do, the contents are never lost
		}
	}
	syscall.HookFsync = sync(syscall.RealFsync)
	syscall.HookFdatasync = sync(syscall.RealFdatasync)
	syscall.HookClose = func(fd int) error {
		f := s.file(fd)
		if f == nil {
			return syscall.RealClose(fd)
		}
		var err error
		if !s.off {
			err = flush("close", fd, f)
		}
		s.mu.Lock()
		delete(s.files, fd)
		s.mu.Unlock()
		if cerr := syscall.RealClose(fd); err == nil {
			err = cerr
		}
		return err
	}
	syscall.HookFtruncate = func(fd int, l int64) error {
		f := s.file(fd)
		if f == nil || s.off {
			return syscall.RealFtruncate(fd, l)
		}
		s.wait()
		defer s.look()
		return syscall.RealFtruncate(fd, l)
	}
	syscall.HookTruncate = func(path string, l int64) error {
		if !s.ours(path) || s.off {
			return syscall.RealTruncate(path, l)
		}
		s.wait()
		defer s.look()
		return syscall.RealTruncate(path, l)
	}
	two := func(a, b, op string, real func() error) error {
		if !s.ours(a) && !s.ours(b) || s.off {
			return real()
		}
		s.wait()
		if s.fault(op, a) != nil {
			s.failed(op)
			return syscall.ENOSPC
		}
		defer s.look()
		return real()
	}
	syscall.HookRenameat = func(d1 int, a string, d2 int, b string) error {
		return two(a, b, "rename", func() error { return syscall.RealRenameat(d1, a, d2, b) })
	}
	syscall.HookLinkat = func(d1 int, a string, d2 int, b string, flags int) error {
		return two(a, b, "link", func() error { return syscall.RealLinkat(d1, a, d2, b, flags) })
	}
	syscall.HookSymlinkat = func(a string, d2 int, b string) error {
		return two(a, b, "link", func() error { return syscall.RealSymlinkat(a, d2, b) })
	}
	syscall.HookUnlinkat = func(d int, a string, flags int) error {
		return two(a, a, "unlink", func() error { return syscall.RealUnlinkat(d, a, flags) })
	}
}

// restarts starts the library again from what was on the disk at some of the moments.
func (s *fsys) restarts() {
	pick := s.snaps
	if n := s.fs.Crash; len(pick) > n {
		pick = nil
		for i := 0; i < n; i++ {
			pick = append(pick, s.snaps[i*len(s.snaps)/n])
		}
	}
	for _, sn := range pick {
		s.restart(sn)
	}
}

func (s *fsys) restart(sn snap) {
	dir := s.dir + "-crash"
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	for n, c := range sn.files {
		os.WriteFile(filepath.Join(dir, n), []byte(c), 0o644)
	}
	path := filepath.Join(dir, filepath.Base(s.a.path))
	load := func() *gozwave.Controller {
		tr := &tracer{f: s.a.tr.f, id: s.a.sc.ID, t0: s.a.tr.t0, done: true}
		d := &device{tr: tr, sc: &Scenario{}, seen: map[string]int{}}
		var c *gozwave.Controller
		within(20*time.Second, func() {
			if x, err := gozwave.ConnectWithCustomPortOpener("x", path, d); err == nil {
				c = x
			}
		})
		return c
	}
	c := load()
	if c == nil {
		s.a.tr.log("restart", M{"at": sn.at, "ex": b2i(sn.ex), "ok": 0, "nodes": []M{}, "again": []M{}, "saved": 0})
		return
	}
	m := M{"at": sn.at, "ex": b2i(sn.ex), "ok": 1, "nodes": snapAll(c), "again": []M{}, "saved": 0, "node": -1, "v": 0}
	// a change, and a save, must work as ever
	for id, n := range c.Nodes.All() {
		n.RLock()
		v := !n.StateBool["on"]
		n.RUnlock()
		m["node"], m["v"] = id, b2i(v)
		c.DeliverReportToNode(byte(id), &reports.SwitchBinaryV1{CurrentValue: v, Valid: true})
		break
	}
	if c.SaveConfigurationToFile() == nil {
		m["saved"] = 1
	}
	if c2 := load(); c2 != nil {
		m["again"] = snapAll(c2)
	}
	s.a.tr.log("restart", m)
}
