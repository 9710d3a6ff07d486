package rec

import (
	"bytes"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/stampzilla/gozwave/serialrecorder"
	"github.com/tarm/serial"

	"verif/vsched"
)

type M = map[string]interface{}

// Scenario is one recording, in virtual time.
type Scenario struct {
	ID      int           `json:"id"`
	Open    []string      `json:"open"`   // results of the openings: "ok" or "err"; then "ok"
	LogTime []int64       `json:"log"`    // µs the logger takes for a write, in turn
	WrTime  []int64       `json:"wrtime"` // µs the port takes for a write, in turn
	Writes  []int         `json:"writes"` // bytes the port takes of a write, in turn; -1: all, and no error
	Feed    []Feed        `json:"feed"`
	Callers [][]Op        `json:"callers"`
	Sched   vsched.Config `json:"sched"`
	End     int64         `json:"end"`
}

// Feed is something the port receives.
type Feed struct {
	T   int64  `json:"t"`
	B   string `json:"b"`
	Err int    `json:"err"` // the read fails, after these bytes
}

// Op is a call of the application.
type Op struct {
	Op   string `json:"op"` // read, write, open, close
	ID   int    `json:"id"`
	At   int64  `json:"at"`
	B    string `json:"b"`    // to be written
	Cap  int    `json:"cap"`  // size of the buffer of a read
	Loop int    `json:"loop"` // the number of reads
}

type world struct {
	sync.Mutex
	sc    *Scenario
	f     *os.File
	t0    time.Time
	done  bool
	port  *port
	tries int
	wr    int
	lg    int
	reads int // reads of the port in progress
	buf   bytes.Buffer
	rec   interface {
		io.ReadWriteCloser
		Open() (io.ReadWriteCloser, error)
	}
	cur io.ReadWriteCloser
}

func (w *world) log(e string, m M) {
	w.Lock()
	defer w.Unlock()
	w.put(e, m)
}

func (w *world) put(e string, m M) {
	if w.done {
		return
	}
	if m == nil {
		m = M{}
	}
	m["e"] = e
	m["t"] = time.Since(w.t0).Microseconds()
	b, err := json.Marshal(M{"s": w.sc.ID, "ev": m})
	if err != nil {
		panic(err)
	}
	w.f.Write(append(b, '\n'))
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, v := range b {
		r[i] = int(v)
	}
	return r
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func us(n int64) time.Duration { return time.Duration(n) * time.Microsecond }

func (w *world) until(t int64) {
	if d := us(t) - time.Since(w.t0); d > 0 {
		time.Sleep(d)
	}
}

var errPort = errors.New("port failure")

type port struct {
	w    *world
	rd   chan Feed
	dead chan struct{}
	once sync.Once
	rest []byte
	fail bool
}

func (w *world) hook(name string, baud int) (io.ReadWriteCloser, error) {
	w.Lock()
	defer w.Unlock()
	w.tries++
	ok := w.tries > len(w.sc.Open) || w.sc.Open[w.tries-1] == "ok"
	w.put("opened", M{"ok": b2i(ok), "name": name, "baud": baud})
	if !ok {
		return nil, errPort
	}
	p := &port{w: w, rd: make(chan Feed, 1000), dead: make(chan struct{})}
	w.port = p
	return p, nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (p *port) Read(b []byte) (int, error) {
	p.w.reading(1)
	defer p.w.reading(-1)
	if len(p.rest) == 0 && !p.fail {
		select {
		case f := <-p.rd:
			p.rest, p.fail = unhex(f.B), f.Err == 1
		case <-p.dead:
			p.w.log("port", M{"dir": "r", "b": []int{}, "ask": []int{}, "err": 1})
			return 0, errPort
		}
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	var err error
	if len(p.rest) == 0 && p.fail {
		p.fail = false
		err = errPort
	}
	p.w.log("port", M{"dir": "r", "b": ints(b[:n]), "ask": []int{}, "err": b2i(err != nil)})
	return n, err
}

func (w *world) reading(n int) {
	w.Lock()
	defer w.Unlock()
	w.reads += n
}

func (p *port) Write(b []byte) (int, error) {
	select {
	case <-p.dead:
		p.w.log("port", M{"dir": "w", "b": []int{}, "ask": ints(b), "err": 1})
		return 0, errPort
	default:
	}
	w := p.w
	w.Lock()
	k := w.wr
	w.wr++
	n := len(b)
	var err error
	if k < len(w.sc.Writes) && w.sc.Writes[k] >= 0 {
		err = errPort
		if w.sc.Writes[k] < n {
			n = w.sc.Writes[k]
		}
	}
	w.put("port", M{"dir": "w", "b": ints(b[:n]), "ask": ints(b), "err": b2i(err != nil)})
	w.Unlock()
	if l := len(w.sc.WrTime); l > 0 {
		time.Sleep(us(w.sc.WrTime[k%l]))
	}
	return n, err
}

func (p *port) Close() error {
	p.once.Do(func() {
		p.w.log("closed", M{})
		close(p.dead)
	})
	return nil
}

// the log
func (w *world) Write(b []byte) (int, error) {
	w.Lock()
	k := w.lg
	w.lg++
	w.Unlock()
	if l := len(w.sc.LogTime); l > 0 {
		time.Sleep(us(w.sc.LogTime[k%l]))
	}
	w.Lock()
	defer w.Unlock()
	return w.buf.Write(b)
}

func (w *world) op(o Op) {
	var rw io.ReadWriteCloser
	w.Lock()
	rw = w.cur
	w.Unlock()
	switch o.Op {
	case "open":
		w.log("opening", M{"id": o.ID})
		c, err := w.rec.Open()
		w.Lock()
		ok := b2i(err == nil)
		if ok == 1 && c == nil {
			ok = 2
		}
		if ok == 1 {
			w.cur = c
		}
		w.put("open", M{"id": o.ID, "ok": ok})
		w.Unlock()
	case "close":
		if rw != nil {
			w.log("closing", M{"id": o.ID})
			rw.Close()
			w.log("close", M{"id": o.ID})
		}
	case "write":
		if rw == nil {
			return
		}
		b := unhex(o.B)
		w.log("begin", M{"id": o.ID, "dir": "w", "b": ints(b)})
		n, err := rw.Write(b)
		w.log("ret", M{"id": o.ID, "dir": "w", "n": n, "b": ints(b), "err": b2i(err != nil)})
		for i := range b { // The buffer is used for something else
			b[i] ^= 0xa5
		}
	case "read":
		if rw == nil {
			return
		}
		buf := make([]byte, o.Cap) // One buffer for all reads
		for i := 0; i < o.Loop; i++ {
			id := o.ID + i
			w.log("begin", M{"id": id, "dir": "r", "b": []int{}})
			n, err := rw.Read(buf)
			w.log("ret", M{"id": id, "dir": "r", "n": n, "b": ints(buf[:n]), "err": b2i(err != nil)})
			for i := range buf {
				buf[i] ^= 0xa5
			}
			if err != nil {
				time.Sleep(time.Millisecond)
			}
		}
	default:
		panic("unknown op " + o.Op)
	}
}

func run(t *testing.T, f *os.File, sc *Scenario) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if !strings.Contains(s, "deadlock") && !strings.Contains(s, "bubble") {
				panic(r)
			}
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		w := &world{sc: sc, f: f, t0: time.Now()}
		serial.Hook = w.hook
		rec := serialrecorder.New("/dev/recorded", 115200)
		rec.Logger = w
		w.rec = rec
		w.log("start", M{})
		vsched.Start(sc.Sched)
		defer vsched.Stop()
		go func() {
			for _, f := range sc.Feed {
				w.until(f.T)
				w.Lock()
				p := w.port
				w.Unlock()
				if p == nil {
					continue
				}
				select {
				case <-p.dead:
				default:
					p.rd <- f
				}
			}
		}()
		for _, ops := range sc.Callers {
			go func(ops []Op) {
				for _, o := range ops {
					w.until(o.At)
					w.op(o)
				}
			}(ops)
		}
		w.until(sc.End)
		vsched.Stop()
		time.Sleep(time.Second)
		w.Lock()
		defer w.Unlock()
		dec := gob.NewDecoder(bytes.NewReader(w.buf.Bytes()))
		for {
			var r serialrecorder.Row
			err := dec.Decode(&r)
			if err == io.EOF {
				break
			}
			if err != nil {
				w.put("garbled", M{"why": err.Error()})
				break
			}
			d := "r"
			if r.Direction.IsWrite() {
				d = "w"
			}
			w.put("row", M{"dir": d, "b": ints(r.Data), "ts": r.Timestamp.Sub(w.t0.Round(0)).Microseconds()})
		}
		w.put("end", M{"reads": w.reads})
		w.done = true
	})
}

func TestScenarios(t *testing.T) {
	in := os.Getenv("SCEN_IN")
	if in == "" {
		t.Skip()
	}
	log.SetOutput(io.Discard)
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.OpenFile(os.Getenv("SCEN_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	beat := make(chan int, 1000)
	go func() { // watchdog in real time
		cur := -1
		for {
			select {
			case cur = <-beat:
			case <-time.After(40 * time.Second):
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "HANG scenario %d\n%s\n", cur, buf[:n])
				os.Exit(42)
			}
		}
	}()
	for _, line := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		sc := &Scenario{}
		if err := json.Unmarshal([]byte(line), sc); err != nil {
			t.Fatal(err)
		}
		beat <- sc.ID
		t.Run("s", func(t *testing.T) { run(t, f, sc) })
	}
	fmt.Fprintln(f, `{"done":1}`)
	f.Close()
	os.Exit(0)
}

// TestGob writes recordings, for the converter.
func TestGob(t *testing.T) {
	in := os.Getenv("GOB_IN")
	if in == "" {
		t.Skip()
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		var rec struct {
			File string
			Rows []struct {
				T int64 // ns
				W int
				B string
			}
		}
		if err := json.Unmarshal([]byte(line), &rec); err != nil {
			t.Fatal(err)
		}
		var out bytes.Buffer
		enc := gob.NewEncoder(&out)
		for _, r := range rec.Rows {
			row := &serialrecorder.Row{Timestamp: time.Unix(1700000000, 0).UTC().Add(time.Duration(r.T)), Data: unhex(r.B)}
			row.Direction = serialrecorder.DirectionRead
			if r.W == 1 {
				row.Direction = serialrecorder.DirectionWrite
			}
			if err := enc.Encode(row); err != nil {
				t.Fatal(err)
			}
		}
		if err := os.WriteFile(rec.File, out.Bytes(), 0o644); err != nil {
			t.Fatal(err)
		}
	}
}
