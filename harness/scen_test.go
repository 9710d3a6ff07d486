package verif

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/serialapi"
	"github.com/tarm/serial"

	"verif/vsched"
)

// Scenario is one run of the library in virtual time.
type Scenario struct {
	ID       int                `json:"id"`
	File     *string            `json:"file"`     // content of the configuration file, absent: no such file
	UseFile  bool               `json:"use_file"` // run with a configuration file
	Watch    int64              `json:"watch"`    // µs between looks at the configuration file
	Open     []string           `json:"open"`     // results of the openings: "ok" or "err"; then "ok"
	OpenTime int64              `json:"open_time"`
	OnOpen   [][]Ans            `json:"on_open"` // what the device sends when a port is opened, per opened port
	React    map[string][]React `json:"react"`
	Default  *React             `json:"default"`
	Steps    []Step             `json:"steps"`   // the device
	Callers  [][]Op             `json:"callers"` // the application
	Events   string             `json:"events"`  // "eager", "none" or "late:<µs>"
	Snap     bool               `json:"snap"`    // look at the node when an event about it is received
	End      int64              `json:"end"`     // µs
	Sched    vsched.Config      `json:"sched"`
	Log      string             `json:"log"`
	FS       *FS                `json:"fs"`   // needs tag fsverif
	Path     string             `json:"path"` // "dir": the configuration file is a directory, "gone": it is in a directory that does not exist, "link": a link to nowhere
	Tmp      *string            `json:"tmp"`  // content of a file that is left over beside the configuration file
	FileHex  string             `json:"file_hex"`
	Direct   bool               `json:"direct"` // the port is opened by its name
}

// FS is what happens to the file operations in the directory of the configuration file.
type FS struct {
	Delay  []int64 `json:"delay"`  // µs before the operations, in turn
	Cuts   []int   `json:"cuts"`   // writes are done in two parts, the first of this many percent (0: one byte, 100: all but one); in turn
	Faults []Fault `json:"faults"` // when the disk is full
	Crash  int     `json:"crash"`  // restart from at most so many of the contents seen
}

// Fault is a time when things fail.
type Fault struct {
	From int64  `json:"from"`
	To   int64  `json:"to"`
	Room int    `json:"room"` // bytes that can still be written
	Kind string `json:"kind"` // "full", "late" (noticed when the file is synced or closed), or the name of an operation
}

// fsStart intercepts the file operations; its result ends that.
var fsStart func(a *app, dir string, cfg *FS) func()

// React is what the device does when it is sent a frame.
type React struct {
	Ctl string `json:"ctl"` // hex
	CD  int64  `json:"cd"`  // µs
	Ans []Ans  `json:"ans"`
	Rep bool   `json:"rep"` // the last reaction of a list, and every further one
}

// Ans is something the device sends.
type Ans struct {
	D int64  `json:"d"` // µs
	B string `json:"b"` // hex
}

// Step is a spontaneous act of the device.
type Step struct {
	T    int64  `json:"t"`
	B    string `json:"b"`
	Fail string `json:"fail"`
}

// Op is an act of the application.
type Op struct {
	At   int64    `json:"at"`
	Op   string   `json:"op"`
	ID   int      `json:"id"`
	Data []int    `json:"data"`
	To   int64    `json:"to"`
	Er   int      `json:"er"`
	Col  int64    `json:"col"` // -1: never collect, else µs to wait before collecting
	Node int      `json:"node"`
	Ep   int      `json:"ep"`
	M    int64    `json:"m"`
	P    int      `json:"p"`
	Add  *addNode `json:"add"`
}

// addNode describes a node the application adds to the list.
type addNode struct {
	ID    int      `json:"id"`
	Aw    int      `json:"aw"`
	Manu  []string `json:"manu"`
	Names []string `json:"names"`
	CC    []addCC  `json:"cc"`
	CCNil bool     `json:"ccnil"`
	Ep    []addEp  `json:"ep"`
	EpSet int      `json:"epset"`
	B     []addB   `json:"b"`
	F     []addF   `json:"f"`
	BNil  bool     `json:"bnil"`
}

type addCC struct {
	ID                 int
	InNIF, Sec, NonSec bool
	Version            string
}

type addEp struct {
	ID int
	CC []addCC
	B  []addB
	F  []addF
}

type addB struct {
	K string `json:"k"`
	V int    `json:"v"`
}

type addF struct {
	K string  `json:"k"`
	V []int64 `json:"v"`
}

func mkCC(l []addCC) []*database.CommandClass {
	var r []*database.CommandClass
	for _, c := range l {
		r = append(r, &database.CommandClass{ID: commands.ZWaveCommand(c.ID), InNIF: c.InNIF, Secure: c.Sec, NonSecure: c.NonSec, Version: c.Version})
	}
	return r
}

func mkB(l []addB) map[string]bool {
	r := map[string]bool{}
	for _, x := range l {
		r[x.K] = x.V == 1
	}
	return r
}

func mkF(l []addF) map[string]float64 {
	r := map[string]float64{}
	for _, x := range l {
		r[x.K] = float64(x.V[0]) / math.Pow10(int(x.V[1]))
	}
	return r
}

func (a *addNode) node() *nodes.Node {
	n := nodes.New(a.ID)
	n.IsAwake = a.Aw == 1
	if len(a.Manu) == 3 {
		n.ManufacurerSpecific = &reports.ManufacturerSpecific{Manufacturer: a.Manu[0], Type: a.Manu[1], ID: a.Manu[2]}
	}
	n.Brand, n.Product, n.Description = a.Names[0], a.Names[1], a.Names[2]
	n.CommandClasses = mkCC(a.CC)
	if n.CommandClasses == nil && !a.CCNil {
		n.CommandClasses = []*database.CommandClass{}
	}
	if a.EpSet == 1 {
		n.Endpoints = []*nodes.Endpoint{}
	}
	for _, e := range a.Ep {
		n.Endpoints = append(n.Endpoints, &nodes.Endpoint{Id: e.ID, CommandClasses: mkCC(e.CC), StateBool: mkB(e.B), StateFloat: mkF(e.F)})
	}
	if a.BNil && len(a.B) == 0 && len(a.F) == 0 {
		n.StateBool, n.StateFloat = nil, nil
	} else {
		n.StateBool, n.StateFloat = mkB(a.B), mkF(a.F)
	}
	return n
}

// detail describes the command classes and endpoints of a node.
func detail(n *nodes.Node) []string {
	r := []string{}
	ccs := func(p string, l []*database.CommandClass) {
		for _, c := range l {
			if c == nil {
				r = append(r, p+" nil")
				continue
			}
			r = append(r, fmt.Sprintf("%s %d %d %d %d %s", p, int(c.ID), b2i(c.InNIF), b2i(c.Secure), b2i(c.NonSecure), c.Version))
		}
	}
	ccs("cc", n.CommandClasses)
	for _, e := range n.Endpoints {
		if e == nil {
			continue
		}
		p := fmt.Sprintf("ep %d", e.Id)
		r = append(r, p)
		ccs(p+" cc", e.CommandClasses)
		for _, x := range canonBools(e.StateBool) {
			r = append(r, fmt.Sprintf("%s b %s %d", p, x["k"], x["v"]))
		}
		for _, x := range canonFloats(e.StateFloat) {
			v := x["v"].([]int)
			r = append(r, fmt.Sprintf("%s f %s %d/%d", p, x["k"], v[0], v[1]))
		}
	}
	return r
}

type M = map[string]interface{}

type tracer struct {
	mu   sync.Mutex
	f    *os.File
	id   int
	t0   time.Time
	done bool
	n    int
}

func (t *tracer) log(e string, m M) {
	if m == nil {
		m = M{}
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.done {
		return
	}
	t.n++
	if t.n > 150000 { // it does not come to an end
		t.done = true
		fmt.Fprintf(os.Stderr, "HANG scenario %d: endless\n", t.id)
		os.Exit(42)
	}
	m["e"] = e
	m["t"] = time.Since(t.t0).Microseconds()
	b, err := json.Marshal(M{"s": t.id, "ev": m})
	if err != nil {
		panic(err)
	}
	t.f.Write(append(b, '\n'))
	if e == "end" {
		t.done = true
	}
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i := range b {
		r[i] = int(b[i])
	}
	return r
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// ---- the device

type device struct {
	tr    *tracer
	sc    *Scenario
	mu    sync.Mutex
	gen   int
	tries int
	port  *port
	seen  map[string]int
}

type port struct {
	d    *device
	gen  int
	rd   chan []byte
	dead chan struct{}
	rest []byte
	once sync.Once
}

var errPort = errors.New("port failure")

// The ports that can be opened by name, at the speed of the sticks.
var named sync.Map

func init() {
	serial.Hook = func(name string, baud int) (io.ReadWriteCloser, error) {
		if d, ok := named.Load(name); ok && baud == 115200 {
			return d.(*device).Open()
		}
		return nil, errPort
	}
}

func (d *device) Open() (io.ReadWriteCloser, error) {
	if d.sc.OpenTime > 0 {
		time.Sleep(time.Duration(d.sc.OpenTime) * time.Microsecond)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.tries++
	if d.tries <= len(d.sc.Open) && d.sc.Open[d.tries-1] != "ok" {
		d.tr.log("openfail", nil)
		return nil, errPort
	}
	d.gen++
	p := &port{d: d, gen: d.gen, rd: make(chan []byte, 10000), dead: make(chan struct{})}
	d.port = p
	d.tr.log("open", M{"g": d.gen})
	if d.gen <= len(d.sc.OnOpen) {
		for _, a := range d.sc.OnOpen[d.gen-1] {
			if a.D == 0 { // Already waiting
				p.rd <- unhex(a.B)
				continue
			}
			p.send(a.D, unhex(a.B))
		}
	}
	return p, nil
}

func (p *port) Read(b []byte) (int, error) {
	if len(p.rest) == 0 {
		select {
		case <-p.dead:
			p.d.tr.log("readerr", M{"g": p.gen})
			return 0, errPort
		default:
		}
		select {
		case p.rest = <-p.rd:
		case <-p.dead:
			p.d.tr.log("readerr", M{"g": p.gen})
			return 0, errPort
		}
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	if n == 0 { // An empty read
		return 0, nil
	}
	p.d.tr.log("rx", M{"g": p.gen, "b": ints(b[:n])})
	return n, nil
}

func (p *port) fail() { p.once.Do(func() { close(p.dead) }) }

func (p *port) isDead() bool {
	select {
	case <-p.dead:
		return true
	default:
		return false
	}
}

func (p *port) Close() error {
	p.d.tr.log("close", M{"g": p.gen})
	p.fail()
	return nil
}

func (p *port) Write(b []byte) (int, error) {
	c := append([]byte{}, b...)
	if p.isDead() {
		p.d.tr.log("txdead", M{"g": p.gen, "b": ints(c)})
		return 0, errPort
	}
	p.d.tr.log("tx", M{"g": p.gen, "b": ints(c)})
	p.d.react(p, c)
	return len(b), nil
}

func (p *port) send(delay int64, b []byte) {
	if len(b) == 0 {
		return
	}
	go func() {
		time.Sleep(time.Duration(delay) * time.Microsecond)
		if !p.isDead() {
			p.rd <- b
		}
	}()
}

func (d *device) react(p *port, b []byte) {
	if len(b) < 4 || b[0] != 1 {
		return
	}
	d.mu.Lock()
	keys := []string{hex.EncodeToString(b)}
	if len(b) > 8 {
		keys = append(keys, fmt.Sprintf("%02x:%d:%02x:%02x", b[3], b[4], b[6], b[7]))
	}
	if len(b) > 5 {
		keys = append(keys, fmt.Sprintf("%02x:%d", b[3], b[4]))
	}
	r := d.sc.Default
	for _, k := range keys {
		l, ok := d.sc.React[k]
		if !ok {
			continue
		}
		n := d.seen[k]
		d.seen[k]++
		if n < len(l) {
			r = &l[n]
		} else if n > 0 && l[len(l)-1].Rep {
			r = &l[len(l)-1]
		}
		break
	}
	d.mu.Unlock()
	if r == nil {
		return
	}
	p.send(r.CD, unhex(r.Ctl))
	for _, a := range r.Ans {
		p.send(a.D, unhex(a.B))
	}
}

func (d *device) steps() {
	for _, s := range d.sc.Steps {
		sleepUntil(d.tr, s.T)
		d.mu.Lock()
		p := d.port
		d.mu.Unlock()
		if p == nil {
			continue
		}
		if s.Fail != "" {
			d.tr.log("fail", M{"g": p.gen})
			p.fail()
			continue
		}
		if !p.isDead() {
			p.rd <- unhex(s.B)
		}
	}
}

func sleepUntil(tr *tracer, t int64) {
	d := time.Duration(t)*time.Microsecond - time.Since(tr.t0)
	if d > 0 {
		time.Sleep(d)
	}
}

// ---- canonical values

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// decimal gives m, p with v = m / 10^p and p minimal; p = -1 if there is none.
func decimal(v float64) (int, int) {
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return 0, -1
	}
	for p := 0; p <= 9; p++ {
		s := v * math.Pow10(p)
		r := math.Round(s)
		if r > 2147483647 || r < -2147483648 {
			break
		}
		if math.Abs(s-r) <= 1e-12*math.Max(1, math.Abs(s)) {
			return int(r), p
		}
	}
	return 0, -1
}

func dec(v float64) []int { m, p := decimal(v); return []int{m, p} }

func canonReport(r reports.Report) M {
	v, s := []int{}, []string{}
	t := "?"
	switch x := r.(type) {
	case nil:
		t = "nil"
	case *reports.SwitchBinaryV1:
		t, v = "SwitchBinaryV1", []int{b2i(x.CurrentValue), b2i(x.Valid)}
	case *reports.SwitchBinaryV2:
		t, v = "SwitchBinaryV2", []int{b2i(x.CurrentValue), b2i(x.TargetValue), int(x.Duration)}
	case *reports.SwitchMultilevelV1:
		t, v = "SwitchMultilevelV1", append(dec(x.CurrentValue), b2i(x.Valid))
	case *reports.SwitchMultilevelV4:
		t, v = "SwitchMultilevelV4", append(append(dec(x.CurrentValue), dec(x.TargetValue)...), int(x.Duration), b2i(x.Valid), b2i(x.TargetValid))
	case *reports.SensorMultiLevel:
		t, v, s = "SensorMultiLevel", append([]int{int(x.ValueType), int(x.Size), int(x.Scale), int(x.Precision)}, dec(x.Value)...), []string{x.TypeString, x.Unit}
	case *reports.Alarm:
		t, v = "Alarm", []int{int(x.Type), int(x.Level), int(x.SensorSourceID), int(x.SensorType), int(x.Event), int(x.Status)}
	case *reports.ManufacturerSpecific:
		t, s = "ManufacturerSpecific", []string{x.Manufacturer, x.Type, x.ID}
	case *reports.MultiChannelEndpoints:
		t, v = "MultiChannelEndpoints", []int{b2i(x.Dynamic), b2i(x.Identical), x.Endpoints}
	case *reports.WakeUp:
		t = "WakeUp"
	}
	return M{"t": t, "v": v, "s": s}
}

func canonInfo(x *serialapi.FuncGetNodeProtocolInfo) []int {
	if x == nil {
		return []int{}
	}
	return []int{b2i(x.Listening), b2i(x.Routing), b2i(x.Beaming), int(x.Version), b2i(x.Flirs), b2i(x.Security), x.MaxBaud, int(x.Basic), int(x.Generic), int(x.Specific)}
}

func canonData(d interface{}) M {
	switch x := d.(type) {
	case *serialapi.FuncApplicationCommandHandler:
		m := canonReport(x.Report)
		m["cc"] = int(x.Command)
		m["cmd"] = int(x.Class)
		return m
	case *serialapi.DiscoverdNodes:
		v := []int{}
		for i, a := range x.ActiveNodes {
			if a {
				v = append(v, i+1)
			}
		}
		return M{"t": "DiscoverdNodes", "v": v, "s": []string{}}
	case *serialapi.FuncGetNodeProtocolInfo:
		return M{"t": "ProtocolInfo", "v": canonInfo(x), "s": []string{}}
	case nil:
		return M{"t": "nil", "v": []int{}, "s": []string{}}
	}
	return M{"t": fmt.Sprintf("%T", d), "v": []int{}, "s": []string{}}
}

func canonMsg(m *serialapi.Message) M {
	if m == nil {
		return M{"k": "none"}
	}
	return M{"k": "msg", "len": int(m.Length), "mt": int(m.MessageType), "fn": int(m.Function), "node": int(m.NodeID), "data": canonData(m.Data)}
}

// canonNode needs the node's lock to be held (or the node to be private).
func canonNode(n *nodes.Node, pi *serialapi.FuncGetNodeProtocolInfo) M {
	cc, ep := []int{}, []int{}
	for _, c := range n.CommandClasses {
		if c == nil {
			cc = append(cc, -1)
		} else {
			cc = append(cc, int(c.ID))
		}
	}
	for _, e := range n.Endpoints {
		if e == nil {
			ep = append(ep, -1)
		} else {
			ep = append(ep, small(e.Id))
		}
	}
	manu := []string{}
	if n.ManufacurerSpecific != nil {
		manu = []string{n.ManufacurerSpecific.Manufacturer, n.ManufacurerSpecific.Type, n.ManufacurerSpecific.ID}
	}
	return M{"id": small(n.Id), "aw": b2i(n.IsAwake), "pi": canonInfo(pi), "manu": manu,
		"names": []string{n.Brand, n.Product, n.Description}, "cc": cc, "ep": ep,
		"epset": b2i(n.Endpoints != nil), "x": detail(n), "b": canonBools(n.StateBool), "f": canonFloats(n.StateFloat)}
}

// small keeps a number in the range the specification has.
func small(i int) int { return max(-1000000, min(i, 1000000)) }

func canonBools(m map[string]bool) []M {
	r := []M{}
	for k, v := range m {
		r = append(r, M{"k": k, "v": b2i(v)})
	}
	sort.Slice(r, func(i, j int) bool { return r[i]["k"].(string) < r[j]["k"].(string) })
	return r
}

func canonFloats(m map[string]float64) []M {
	r := []M{}
	for k, v := range m {
		r = append(r, M{"k": k, "v": dec(v)})
	}
	sort.Slice(r, func(i, j int) bool { return r[i]["k"].(string) < r[j]["k"].(string) })
	return r
}

func snapNode(n *nodes.Node) M {
	pi, dc := n.ProtocolInfo(), true
	for { // until nothing changes in between
		if pi == nil {
			dc = !n.IsDeviceClass(0, 0) && !n.IsDeviceClass(0x10, 1)
		} else {
			dc = n.IsDeviceClass(pi.Generic, pi.Specific) && !n.IsDeviceClass(pi.Generic, pi.Specific^1) &&
				!n.IsDeviceClass(pi.Generic^1, pi.Specific) && !n.IsDeviceClass(pi.Generic^0x80, pi.Specific^0x80)
		}
		again := n.ProtocolInfo()
		if again == pi {
			break
		}
		pi = again
	}
	n.RLock()
	defer n.RUnlock()
	m := canonNode(n, pi)
	m["dc"] = b2i(dc)
	return m
}

// within runs f and tells whether it returned in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// ---- the application

type app struct {
	tr   *tracer
	sc   *Scenario
	c    *gozwave.Controller
	path string

	lastFile string
	lastSig  string
	ver      int
}

type raw []byte

func (r raw) Encode() []byte { return append([]byte{}, r...) }

func toBytes(i []int) []byte {
	b := make([]byte, len(i))
	for k, v := range i {
		b[k] = byte(v)
	}
	return b
}

func (a *app) caller(ops []Op, ci int) {
	for _, o := range ops {
		sleepUntil(a.tr, o.At)
		a.op(o, ci)
	}
}

func (a *app) op(o Op, ci int) {
	tr := a.tr
	conn := a.c.Connection
	switch o.Op {
	case "write", "wt", "wr":
		tr.log("call", M{"id": o.ID, "c": ci, "k": o.Op, "d": o.Data, "to": o.To, "er": o.Er, "col": o.Col})
		msg := raw(toBytes(o.Data))
		to := time.Duration(o.To) * time.Microsecond
		switch o.Op {
		case "write":
			conn.Write(msg)
			tr.log("ret", M{"id": o.ID})
		case "wt":
			ch, err := conn.WriteWithTimeout(msg, to)
			tr.log("ret", M{"id": o.ID})
			if err == nil && o.Col >= 0 {
				go func() {
					time.Sleep(time.Duration(o.Col) * time.Microsecond)
					if ch == nil {
						return
					}
					for m := range ch {
						r := canonMsg(m)
						r["id"] = o.ID
						tr.log("resp", r)
					}
					tr.log("closed", M{"id": o.ID})
				}()
			}
		case "wr":
			ch, err := conn.WriteAndWaitForReport(msg, to, byte(o.Er))
			tr.log("ret", M{"id": o.ID})
			if err == nil && o.Col >= 0 {
				go func() {
					time.Sleep(time.Duration(o.Col) * time.Microsecond)
					if ch == nil {
						return
					}
					for m := range ch {
						tr.log("resp", M{"id": o.ID, "k": "rep", "data": canonReport(m)})
					}
					tr.log("closed", M{"id": o.ID})
				}()
			}
		}
	case "on", "off", "level", "epon", "epoff", "eplevel":
		n := a.c.Nodes.Get(o.Node)
		val := float64(o.M) / math.Pow10(o.P)
		tr.log("ctl", M{"id": o.ID, "c": ci, "k": o.Op, "node": o.Node, "ep": o.Ep, "m": o.M, "p": o.P, "found": b2i(n != nil)})
		if n != nil {
			switch o.Op {
			case "on":
				n.On()
			case "off":
				n.Off()
			case "level":
				n.Level(val)
			default:
				e := n.Endpoint(o.Ep)
				tr.log("ep", M{"id": o.ID, "node": o.Node, "ep": o.Ep, "got": epID(e)})
				if e == nil {
					break
				}
				switch o.Op {
				case "epon":
					e.On()
				case "epoff":
					e.Off()
				case "eplevel":
					e.Level(val)
				}
			}
		}
		tr.log("ret", M{"id": o.ID})
	case "ep":
		n := a.c.Nodes.Get(o.Node) // Maybe none, which has no endpoints
		tr.log("ep", M{"id": o.ID, "node": o.Node, "ep": o.Ep, "got": epID(n.Endpoint(o.Ep))})
	case "obs":
		a.obs()
	case "conn":
		tr.log("connected", M{"v": b2i(a.connected())})
	case "save":
		tr.log("save", nil)
		err := a.c.SaveConfigurationToFile()
		tr.log("saved", M{"ok": b2i(err == nil)})
	case "file":
		a.look(true)
	case "adopt":
		var l []M
		ok := within(5*time.Second, func() { l = snapAll(a.c) })
		tr.log("adopt", M{"ok": b2i(ok), "nodes": l})
	case "reload", "auto":
		a.reload(o.Op)
	case "add":
		n := o.Add.node()
		tr.log("add", M{"node": canonNode(n, nil)})
		a.c.Nodes.Add(n)
	case "json":
		ok := within(5*time.Second, func() { json.Marshal(a.c.Nodes) })
		tr.log("json", M{"ok": b2i(ok)})
	default:
		panic("unknown op " + o.Op)
	}
}

func epID(e *nodes.Endpoint) int {
	if e == nil {
		return -1
	}
	return e.Id
}

func (a *app) connected() bool {
	return a.c.Connection.Connected
}

func (a *app) obs() {
	var l []M
	at := time.Since(a.tr.t0).Microseconds()
	if !within(5*time.Second, func() { l = snapAll(a.c) }) {
		a.tr.log("obs", M{"ok": 0, "at": at, "nodes": []M{}})
		return
	}
	a.tr.log("obs", M{"ok": 1, "at": at, "nodes": l})
}

func snapAll(c *gozwave.Controller) []M {
	l := []M{}
	all := c.Nodes.All()
	var keys []int
	for k := range all {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		m := snapNode(all[k])
		m["key"] = small(k)
		l = append(l, m)
	}
	return l
}

// look looks at the configuration file, without the library.
func (a *app) look(force bool) {
	sig := "none"
	content := ""
	f, err := os.Open(a.path)
	for err == nil { // what is stable: the same before and after it is read
		var st, st2 os.FileInfo
		var b []byte
		f.Seek(0, io.SeekStart)
		st, err = f.Stat()
		if err == nil {
			b, err = io.ReadAll(f)
		}
		if err == nil {
			st2, err = f.Stat()
		}
		if err == nil && (!st.ModTime().Equal(st2.ModTime()) || st2.Size() != int64(len(b))) {
			continue
		}
		if err == nil {
			content = string(b)
			sig = fmt.Sprint(inode(st), st.ModTime().UnixNano(), len(content))
		}
		break
	}
	if f != nil {
		f.Close()
	}
	if a.lastSig == "" {
		a.lastSig, a.lastFile = sig, content
	} else if sig != a.lastSig || content != a.lastFile {
		a.ver++
		same := content == a.lastFile
		a.lastSig, a.lastFile = sig, content
		a.logFile(content, err == nil, same)
		return
	}
	if force {
		a.logFile(content, err == nil, true)
	}
}

func (a *app) logFile(content string, exists, same bool) {
	var f struct {
		Nodes map[string]*nodeFile
	}
	err := json.Unmarshal([]byte(content), &f)
	l := []M{}
	var keys []string
	for k := range f.Nodes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		n := f.Nodes[k]
		if n == nil {
			continue
		}
		l = append(l, M{"id": n.ID, "b": canonBools(n.StateBool), "f": canonFloats(n.StateFloat)})
	}
	a.tr.log("file", M{"ex": b2i(exists), "ok": b2i(err == nil && exists), "ver": a.ver, "same": b2i(same), "nodes": l})
}

type nodeFile struct {
	ID         int `json:"id"`
	StateBool  map[string]bool
	StateFloat map[string]float64
}

func (a *app) watch() {
	for {
		a.look(false)
		time.Sleep(time.Duration(a.sc.Watch) * time.Microsecond)
	}
}

// reload starts a second controller from a copy of the configuration file and looks at its nodes.
func (a *app) reload(e string) {
	b, err := os.ReadFile(a.path)
	if err != nil {
		a.tr.log(e, M{"ok": 0, "nodes": []M{}})
		return
	}
	cp := a.path + ".copy"
	os.WriteFile(cp, b, 0o644)
	sc := &Scenario{}
	tr := &tracer{f: a.tr.f, id: a.sc.ID, t0: a.tr.t0, done: true}
	d := &device{tr: tr, sc: sc, seen: map[string]int{}}
	c, err := gozwave.ConnectWithCustomPortOpener("x", cp, d)
	if err != nil {
		a.tr.log(e, M{"ok": 0, "nodes": []M{}})
		return
	}
	a.tr.log(e, M{"ok": 1, "nodes": snapAll(c)})
}

func (a *app) events() {
	q := a.c.GetNextEvent()
	if strings.HasPrefix(a.sc.Events, "late:") {
		var d int64
		fmt.Sscanf(a.sc.Events, "late:%d", &d)
		sleepUntil(a.tr, d)
	}
	for e := range q {
		m := M{"k": fmt.Sprintf("%T", e), "node": -1, "snap": []M{}}
		id := -1
		switch x := e.(type) {
		case events.NodeDiscoverd:
			m["k"], id = "discovered", x.Address
		case events.NodeUpdated:
			m["k"], id = "updated", x.Address
		}
		m["node"] = id
		if a.sc.Snap {
			if n := a.c.Nodes.Get(id); n != nil {
				var s M
				if within(5*time.Second, func() { s = snapNode(n) }) {
					m["snap"] = []M{s}
				}
			}
		}
		a.tr.log("event", m)
	}
}

func runScenario(t *testing.T, f *os.File, sc *Scenario, scratch string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if !strings.Contains(s, "deadlock") && !strings.Contains(s, "bubble") {
				panic(r)
			}
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		tr := &tracer{f: f, id: sc.ID, t0: time.Now()}
		a := &app{tr: tr, sc: sc}
		name := ""
		if sc.UseFile {
			dir := filepath.Join(scratch, fmt.Sprint(sc.ID))
			os.MkdirAll(dir, 0o755)
			defer os.RemoveAll(dir)
			name = filepath.Join(dir, "config.json")
			if sc.File != nil {
				os.WriteFile(name, []byte(*sc.File), 0o644)
			}
			if sc.FileHex != "" {
				os.WriteFile(name, unhex(sc.FileHex), 0o644)
			}
			switch sc.Path {
			case "dir":
				os.MkdirAll(name, 0o755)
			case "gone":
				name = filepath.Join(dir, "none", "config.json")
			case "link":
				os.Symlink(filepath.Join(dir, "nowhere"), name)
			}
			if sc.Tmp != nil {
				os.WriteFile(name+".tmp", []byte(*sc.Tmp), 0o644)
			}
		}
		a.path = name
		var fsEnd func()
		if sc.FS != nil {
			fsEnd = fsStart(a, filepath.Dir(name), sc.FS)
		}
		tr.log("begin", nil)
		d := &device{tr: tr, sc: sc, seen: map[string]int{}}
		vsched.Start(sc.Sched)
		defer vsched.Stop()
		if sc.UseFile && sc.Watch > 0 {
			a.look(false)
			go a.watch()
		}
		go d.steps()
		type result struct {
			c   *gozwave.Controller
			err error
		}
		res := make(chan result, 1)
		go func() {
			if sc.Direct {
				port := fmt.Sprintf("/dev/ttyACM%d", sc.ID)
				named.Store(port, d)
				c, err := gozwave.Connect(port, name)
				res <- result{c, err}
				return
			}
			c, err := gozwave.ConnectWithCustomPortOpener("x", name, d)
			res <- result{c, err}
		}()
		go func() {
			r := <-res
			tr.log("connect", M{"ok": b2i(r.err == nil)})
			if r.err != nil {
				return
			}
			a.c = r.c
			if sc.Events != "none" && sc.Events != "" {
				go a.events()
			}
			for i, ops := range sc.Callers {
				go a.caller(ops, i+1)
			}
		}()
		time.Sleep(time.Duration(sc.End) * time.Microsecond)
		vsched.Stop()
		if fsEnd != nil {
			fsEnd()
		}
		tr.log("end", M{"stray": strayFiles(scratch)})
	})
}

// strayFiles counts the files in the working directory that no scenario made.
func strayFiles(dir string) int {
	n := 0
	l, _ := os.ReadDir(".")
	for _, f := range l {
		if _, err := fmt.Sscanf(f.Name(), "%d", new(int)); err != nil {
			n++
		}
	}
	return n
}

func TestScenarios(t *testing.T) {
	in := os.Getenv("SCEN_IN")
	if in == "" {
		t.Skip()
	}
	setLog("")
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.OpenFile(os.Getenv("SCEN_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	beat := make(chan int, 1000)
	go watchdog(beat)
	for _, line := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		sc := &Scenario{}
		if err := json.Unmarshal([]byte(line), sc); err != nil {
			t.Fatal(err)
		}
		beat <- sc.ID
		t.Run("s", func(t *testing.T) { runScenario(t, f, sc, os.Getenv("SCEN_SCRATCH")) })
	}
	fmt.Fprintln(f, `{"done":1}`)
	f.Close()
	os.Exit(0) // do not wait for goroutines of the library
}

func atoi(s string, d int) int {
	var n int
	if _, err := fmt.Sscan(s, &n); err != nil {
		return d
	}
	return n
}

func setLog(s string) {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.InfoLevel)
}

// watchdog ends the process if a scenario takes too long in real time.
func watchdog(beat chan int) {
	cur := -1
	for {
		select {
		case cur = <-beat:
		case <-time.After(time.Duration(atoi(os.Getenv("SCEN_HANG"), 60)) * time.Second):
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "HANG scenario %d\n%s\n", cur, buf[:n])
			os.Exit(42)
		}
	}
}
