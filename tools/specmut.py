#!/usr/bin/env python3
"""Weakens guards and effects of the specifications and looks which property of the model then fails:
a property that no weakening breaks says nothing.  Not a check; the results are in DESIGN.md."""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
import common

# (model, scripts, file, old, new)
M = [
    ('MCLink', 300, 'ZwLink', '    /\\ ~Occupied(s, t)\n', ''),
    ('MCLink', 300, 'ZwLink', '    /\\ id \\in Pending(s) => Before(s, id) = {}\n', ''),
    ('MCLink', 300, 'ZwLink', '!.cmds[id].can = FALSE,', '!.cmds[id].can = @,'),
    ('MCLink', 300, 'ZwLink', '[] b = CAN -> [s1 EXCEPT !.cmds[id].can = TRUE, !.cmds[id].canAt = t]', '[] b = CAN -> s1'),
    ('MCLink', 300, 'ZwLink', '[] b = NAK -> Finish(s1, id, "refused", t, BadFrame)', '[] b = NAK -> [s1 EXCEPT !.cmds[id].can = TRUE]'),
    ('MCLink', 1200, 'ZwLink', 's.cmds[i].n <= s.cmds[j].n', 's.cmds[i].n >= s.cmds[j].n'),
    ('MCLink', 300, 'ZwLink', 'At(b, 6) = c.d[2]', 'TRUE'),
    ('MCLink', 300, 'ZwLink', 'IF s.cmds[id].req /\\ s.cmds[id].fin = ""\n', 'IF s.cmds[id].req\n'),
    ('MCLink', 300, 'ZwLink', 'IsOpen(c, t) == c.req /\\ c.w > 0 /\\ c.fin = "" /\\ t < Deadline(c)', 'IsOpen(c, t) == c.req /\\ c.w > 0 /\\ t < Deadline(c)'),
    ('MCLink', 300, 'ZwLink', 'Deadline(c) == c.wAt + c.to', 'Deadline(c) == c.last + c.to'),
    ('MCLink', 300, 'ZwLink', 's1 == [s EXCEPT !.owed = @ + 1]', 's1 == s'),
    ('MCFraming', 4000, 'ZwFraming', 'IF Len(buf) < n THEN [k |-> "wait", n |-> 0, f |-> <<>>]\n', 'IF Len(buf) < n THEN [k |-> "skip", n |-> 1, f |-> <<>>]\n'),
    ('MCFraming', 4000, 'ZwFraming', 'ELSE [k |-> "skip", n |-> 1, f |-> <<>>]\n\n', 'ELSE [k |-> "skip", n |-> n, f |-> <<>>]\n\n'),
    ('MCFraming', 4000, 'ZwFraming', ' /\\ buf[n] = Checksum(buf, 2, n - 1)', ''),
    ('MCFraming', 4000, 'ZwFraming', 'IF b \\in Controls THEN', 'IF b = ACK THEN'),
    ('MCFraming', 4000, 'MCFraming', 'Parse((IF fed = sc.gap THEN <<>> ELSE buf)', 'Parse((buf)'),
    ('MCNode', 300, 'MCNode', '[due EXCEPT ![n] = now + Second]', '[due EXCEPT ![n] = IF @ < 0 THEN now + Second ELSE @]'),
    ('MCNode', 300, 'MCNode', '~full /\\ q\' = Append', 'q\' = Append'),
    ('MCNode', 300, 'MCNode', '(full \\/ same) /\\ UNCHANGED q', 'UNCHANGED q'),
    ('MCNode', 300, 'MCNode', 'v\' = [v EXCEPT ![n] = Put(@, as)]', 'v\' = [v EXCEPT ![n] = Put(@, SubSeq(as, 1, 1))]'),
    ('MCNode', 300, 'ZwNodes', 'AlarmEnd == <<Set("b:alarm", <<0>>), Set("f:alarm", <<0, 0>>)>>', 'AlarmEnd == <<Set("b:alarm", <<0>>)>>'),
    ('MCPersist', 1500, 'MCPersist', 'pc[s] = "wait" /\\ lock = "none"', 'pc[s] = "wait"'),
    ('MCPersist', 1500, 'MCPersist', 'IF pc[s] = "close-fail" THEN Go(s, "remove")', 'IF pc[s] = "close-fail" THEN Go(s, "rename")'),
    ('MCPersist', 1500, 'MCPersist', 'IF Fault("write") THEN Fails(s, "close-fail")', 'IF Fault("write") THEN Fails(s, "close")'),
    ('MCPersist', 1500, 'MCPersist', 'IF Fault("sync") \\/ room = -1 THEN Fails(s, "close-fail")', 'IF Fault("sync") \\/ room = -1 THEN Fails(s, "close")'),
    ('MCPersist', 1500, 'MCPersist', 'Go(s, IF file = Whole(mem) THEN "done" ELSE "create")', 'Go(s, "create")'),
    ('MCPersist', 1500, 'MCPersist', '/\\ trig\' = FALSE /\\ due\' = now + Delay', '/\\ trig\' = FALSE /\\ due\' = IF due < 0 THEN now ELSE due'),
    ('MCPersist', 1500, 'MCPersist', '    /\\ lock\' = "none" /\\ Go(s, "idle")', '    /\\ lock\' = (IF pc[s] = "fail" THEN lock ELSE "none") /\\ Go(s, "idle")'),
    ('MCPersist', 1500, 'MCPersist', 'Go(s, "fail") /\\ tmp\' = <<>>', 'Go(s, "fail") /\\ UNCHANGED tmp'),
    ('MCList', 40, 'MCList.cfg', 'Wrong = ""', 'Wrong = "lost"'),
    ('MCList', 40, 'MCList.cfg', 'Wrong = ""', 'Wrong = "stale"'),
    ('MCList', 40, 'MCList', '{y \\in s : y[1] # x[1]} \\cup {x}', 's \\cup {x}'),
    ('MCRecorder', 2, 'MCRecorder.cfg', 'Wrong = ""', 'Wrong = "unlocked"'),
    ('MCRecorder', 2, 'MCRecorder.cfg', 'Wrong = ""', 'Wrong = "dropped"'),
    ('MCRecorder', 2, 'MCRecorder.cfg', 'Wrong = ""', 'Wrong = "late"'),
    ('MCRecorder', 40, 'MCRecorder.cfg', 'Wrong = ""', 'Wrong = "skips"'),
    ('MCConvert', 3000, 'MCConvert.cfg', 'Wrong = ""', 'Wrong = "first"'),
    ('MCConvert', 3000, 'MCConvert.cfg', 'Wrong = ""', 'Wrong = "tail"'),
    ('MCConvert', 3000, 'ZwRecorder', '    /\\ Sorted(lines)\n', ''),
    ('MCConvert', 3000, 'ZwRecorder', 'r.t - acc[n].last < ms', 'r.t - acc[n].last <= ms'),
    ('MCPort', 1000, 'MCPort.cfg', 'Wrong = ""', 'Wrong = "at once"'),
    ('MCPort', 1000, 'MCPort.cfg', 'Wrong = ""', 'Wrong = "persists"'),
    ('MCPort', 1000, 'MCPort.cfg', 'Wrong = ""', 'Wrong = "leftover"'),
    ('MCPort', 1000, 'MCPort.cfg', 'Wrong = ""', 'Wrong = "late"'),
    ('MCPort', 1000, 'MCPort.cfg', 'Wrong = ""', 'Wrong = "writers"'),
    ('MCPort', 1000, 'MCPort.cfg', 'Wrong = ""', 'Wrong = "again"'),
    ('MCPort', 1000, 'MCPort.cfg', 'Wrong = ""', 'Wrong = "left open"'),
    ('MCIdent', 60, 'MCIdent', 'ELSE Sleeps(i) => n[i].wake', 'ELSE TRUE'),
    ('MCIdent', 60, 'MCIdent', 'IF StepOf(i) = "pi" THEN PiFree(i)', 'IF StepOf(i) = "pi" THEN TRUE'),
    ('MCIdent', 60, 'MCIdent', '    /\\ ~n[i].out /\\ n[i].pause <= now', '    /\\ n[i].pause <= now'),
    ('MCIdent', 60, 'MCIdent', '[Advance(n, i, p.s) EXCEPT ![i].wake = w, ![i].woken = w]', '[Advance(n, i, p.s) EXCEPT ![i].step = n[i].step, ![i].wake = w, ![i].woken = w]'),
]


def main(names):
    for i, (model, count, f, old, new) in enumerate(M):
        if names and model not in names and str(i) not in names:
            continue
        d = tempfile.mkdtemp(prefix='specmut-')
        try:
            for x in os.listdir(common.SPEC):
                shutil.copy(os.path.join(common.SPEC, x), d)
            p = os.path.join(d, f if '.' in f else f + '.tla')
            s = open(p).read()
            if old not in s:
                print(i, model, 'does not apply:', old.strip())
                continue
            open(p, 'w').write(s.replace(old, new, 1))
            env = dict(os.environ, SEL_MODEL=str(count), SEL_REPLAY='1', SEL_OFFSET='17', SCRIPTS_OUT=os.path.join(d, 'out.json'))
            r = subprocess.run(['timeout', '300', 'java', '-Xss64m', '-XX:+UseParallelGC', '-cp', common.TLA_CP, 'tlc2.TLC', '-metadir', os.path.join(d, 'm'), '-workers', '6', '-noGenerateSpecTE',
                                '-config', model + '.cfg', model + '.tla'], cwd=d, env=env, capture_output=True, text=True)
            v = re.findall(r'(?:Invariant|Action property|property) (\w+) (?:is|of) ?(?:violated)?', r.stdout)
            err = '' if v or r.returncode == 0 else ' '.join(re.findall(r'Error: (.*)', r.stdout)[:2])
            print(i, model, '%r' % old.strip()[:60], '->', v[0] if v else 'rc %d %s' % (r.returncode, err), flush=True)
        finally:
            shutil.rmtree(d)


main(sys.argv[1:])
