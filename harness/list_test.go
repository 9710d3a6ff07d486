package verif

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"

	"verif/vsched"
)

// LScenario is a concurrent history of the node list.
type LScenario struct {
	ID    int               `json:"id"`
	File  map[string]string `json:"file"` // number -> brand of the nodes in the configuration file
	Net   string            `json:"net"`  // hex: answer to the discovery
	NetAt int64             `json:"net_at"`
	Feed  []Step            `json:"feed"`
	Procs [][]LOp           `json:"procs"`
	Par   bool              `json:"par"` // no virtual sleeps between the operations
	End   int64             `json:"end"`
	Quiet bool              `json:"quiet"` // operations are not recorded, so that recording does not order them
	Sched vsched.Config     `json:"sched"`
}

// LOp is an operation on the list.
type LOp struct {
	At   int64  `json:"at"`
	Op   string `json:"op"`   // add, get, all, json, load, report, save
	ID   int    `json:"id"`   // of the operation
	Node int    `json:"node"` // number
	Tok  int    `json:"tok"`
	Keep int64  `json:"keep"` // µs until the list that was returned is looked at again
	Rep  int    `json:"rep"`  // how often
	V    int    `json:"v"`
	Busy bool   `json:"busy"` // add: the node gets reports meanwhile

	par bool
}

// tok tells which of the added nodes this is: 0 none, -2 one that the library made.
func tok(n *nodes.Node) int {
	if n == nil {
		return 0
	}
	n.RLock()
	defer n.RUnlock()
	return brand(n.Brand)
}

func brand(s string) int {
	t := -2
	fmt.Sscanf(s, "T%d", &t)
	return t
}

func toks(m map[int]*nodes.Node) [][2]int {
	r := [][2]int{}
	for k, n := range m {
		r = append(r, [2]int{k, tok(n)})
	}
	return r
}

func lop(tr *tracer, c *gozwave.Controller, o LOp) {
	switch o.Op {
	case "add":
		n := nodes.New(o.Node)
		n.Brand = fmt.Sprintf("T%d", o.Tok)
		n.Endpoints = []*nodes.Endpoint{{Id: 1}, {Id: 2}}
		tr.log("call", M{"id": o.ID, "op": "add", "node": o.Node, "tok": o.Tok})
		n.Setup(c.Connection, func(interface{}) {})
		if o.Busy { // in use before it is in the list
			go func() {
				for i := 0; i < 3; i++ {
					n.ProcessEvent(&reports.SensorMultiLevel{ValueType: 1, TypeString: "a", Value: float64(o.V + i)})
				}
			}()
			runtime.Gosched()
			if !o.par {
				time.Sleep(time.Duration(o.V%7) * time.Microsecond)
			}
		}
		c.Nodes.Add(n)
		tr.log("ret", M{"id": o.ID, "op": "add"})
	case "get":
		tr.log("call", M{"id": o.ID, "op": "get", "node": o.Node})
		n := c.Nodes.Get(o.Node)
		r := [][2]int{}
		if n != nil {
			r = append(r, [2]int{o.Node, tok(n)})
		}
		tr.log("ret", M{"id": o.ID, "op": "get", "l": r})
	case "all":
		tr.log("call", M{"id": o.ID, "op": "all"})
		m := c.Nodes.All()
		r := toks(m)
		tr.log("ret", M{"id": o.ID, "op": "all", "l": r})
		if o.Keep >= 0 {
			time.Sleep(time.Duration(o.Keep) * time.Microsecond)
			tr.log("again", M{"id": o.ID, "l": toks(m)})
		}
	case "json":
		tr.log("call", M{"id": o.ID, "op": "json"})
		b, err := json.Marshal(c.Nodes)
		var m map[string]struct {
			ID         int `json:"id"`
			Brand      string
			StateFloat map[string]float64
			StateBool  map[string]bool
		}
		if err == nil {
			err = json.Unmarshal(b, &m)
		}
		r := [][2]int{}
		var l nodes.List // a list of its own, whose nodes are used, too
		if err == nil {
			err = json.Unmarshal(b, &l)
		}
		if err == nil && len(l.All()) != len(m) {
			err = fmt.Errorf("%d nodes of %d", len(l.All()), len(m))
		}
		for i, n := range l.All() {
			n.ProcessEvent(&reports.SensorMultiLevel{ValueType: 1, TypeString: "c", Value: 5})
			if n.Id != i || n.StateFloat["c_"] != 5 {
				err = fmt.Errorf("node %d", i)
			}
		}
		for k, n := range m {
			i := -1
			fmt.Sscan(k, &i)
			if i != n.ID {
				i = -1
			}
			r = append(r, [2]int{i, brand(n.Brand)})
		}
		tr.log("ret", M{"id": o.ID, "op": "json", "ok": b2i(err == nil), "l": r})
	case "load":
		tr.log("call", M{"id": o.ID, "op": "load"})
		c.LoadConfigurationFromFile()
		tr.log("ret", M{"id": o.ID, "op": "load"})
	case "save":
		tr.log("call", M{"id": o.ID, "op": "save"})
		c.SaveConfigurationToFile()
		tr.log("ret", M{"id": o.ID, "op": "save"})
	case "report":
		tr.log("call", M{"id": o.ID, "op": "report"})
		for i := 0; i < 3; i++ {
			c.DeliverReportToNode(byte(o.Node), &reports.SensorMultiLevel{ValueType: 1, TypeString: fmt.Sprint("k", (o.V+i)%17), Value: float64(o.V)})
			c.DeliverReportToNode(byte(o.Node), &reports.SwitchBinaryV1{CurrentValue: o.V%2 == 0, Valid: true})
		}
		tr.log("ret", M{"id": o.ID, "op": "report"})
	case "control":
		tr.log("call", M{"id": o.ID, "op": "control"})
		if n := c.Nodes.Get(o.Node); n != nil {
			n.Endpoint(o.V % 4)
		}
		tr.log("ret", M{"id": o.ID, "op": "control"})
	default:
		panic(o.Op)
	}
}

func runList(t *testing.T, f *os.File, sc *LScenario, scratch string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if !strings.Contains(s, "deadlock") && !strings.Contains(s, "bubble") {
				panic(r)
			}
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		tr := &tracer{f: f, id: sc.ID, t0: time.Now()}
		dir := filepath.Join(scratch, fmt.Sprint(sc.ID))
		os.MkdirAll(dir, 0o755)
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "config.json")
		m := map[string]M{}
		fl := [][2]int{}
		for k, v := range sc.File {
			i := 0
			fmt.Sscan(k, &i)
			m[k] = M{"id": i, "Brand": v, "Endpoints": []M{{"Id": 1}, {"Id": 2}}}
			fl = append(fl, [2]int{i, brand(v)})
		}
		b, _ := json.Marshal(M{"Nodes": m})
		os.WriteFile(name, b, 0o644)
		tr.log("begin", M{"file": fl})
		d := &device{tr: &tracer{f: f, id: sc.ID, t0: tr.t0, done: true}, seen: map[string]int{}, sc: &Scenario{
			Default: &React{Ctl: "06", CD: 1000},
			React:   map[string][]React{"01030002fe": {{Ctl: "06", CD: 1000, Ans: []Ans{{D: sc.NetAt, B: sc.Net}}}}},
			Steps:   sc.Feed}}
		vsched.Start(sc.Sched)
		defer vsched.Stop()
		c, err := gozwave.ConnectWithCustomPortOpener("x", name, d)
		if err != nil {
			panic(err)
		}
		tr.log("loaded", nil)
		go func() {
			for e := range c.GetNextEvent() {
				if x, ok := e.(events.NodeDiscoverd); ok {
					tr.log("discovered", M{"node": x.Address})
				}
			}
		}()
		go d.steps()
		ops := tr
		if sc.Quiet {
			ops = d.tr
		}
		var wg sync.WaitGroup
		for _, p := range sc.Procs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range p {
					if !sc.Par {
						sleepUntil(tr, o.At)
					}
					for i := 0; i <= o.Rep; i++ {
						x := o
						x.ID += i
						x.par = sc.Par
						if i < o.Rep {
							x.Keep = -1
						}
						if x.Op == "add" && i > 0 {
							x.Tok += i
						}
						lop(ops, c, x)
					}
				}
			}()
		}
		time.Sleep(time.Duration(sc.End) * time.Microsecond)
		vsched.Stop()
		time.Sleep(5 * time.Second)
		go func() {
			lop(ops, c, LOp{Op: "all", ID: 1000000, Keep: -1})
			lop(ops, c, LOp{Op: "json", ID: 1000001})
		}()
		time.Sleep(time.Second)
		tr.log("end", nil)
	})
}

func TestLists(t *testing.T) {
	in := os.Getenv("SCEN_IN")
	if in == "" {
		t.Skip()
	}
	setLog("")
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.OpenFile(os.Getenv("SCEN_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	beat := make(chan int, 1000)
	go watchdog(beat)
	for _, line := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		sc := &LScenario{}
		if err := json.Unmarshal([]byte(line), sc); err != nil {
			t.Fatal(err)
		}
		beat <- sc.ID
		t.Run("s", func(t *testing.T) { runList(t, f, sc, os.Getenv("SCEN_SCRATCH")) })
	}
	fmt.Fprintln(f, `{"done":1}`)
	f.Close()
	os.Exit(0)
}
