package verif

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"testing"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/database"
)

// DataOp is a lookup, or what a caller does with the result of an earlier one.
type DataOp struct {
	Op  string `json:"op"`
	M   string `json:"m"`
	T   string `json:"t"`
	P   string `json:"p"`
	G   int    `json:"g"`
	S   int    `json:"s"`
	I   int    `json:"i"` // which earlier result, counted from the last
	How string `json:"how"`
}

type dataCaller struct {
	devs  []*database.Device
	lists [][]*database.CommandClass
}

func ccTuples(l []*database.CommandClass) [][]interface{} {
	r := [][]interface{}{}
	for _, c := range l {
		if c == nil {
			r = append(r, []interface{}{-1, 0, 0, 0, ""})
			continue
		}
		r = append(r, []interface{}{int(c.ID), b2i(c.InNIF), b2i(c.Secure), b2i(c.NonSecure), c.Version})
	}
	return r
}

func ccIDs(l []*database.CommandClass) []int {
	r := []int{}
	for _, c := range l {
		if c == nil {
			r = append(r, -1)
			continue
		}
		r = append(r, int(c.ID))
	}
	return r
}

func (d *dataCaller) run(o DataOp) (m M) {
	defer func() {
		if r := recover(); r != nil {
			m = M{"e": "panic", "what": fmt.Sprint(r)}
		}
	}()
	switch o.Op {
	case "dev":
		dev := database.New(o.M, o.T, o.P)
		m := M{"e": "dev", "key": o.M + "_" + o.T + "_" + o.P, "res": []M{}}
		if dev != nil {
			d.devs = append(d.devs, dev)
			d.lists = append(d.lists, dev.CommandClasses)
			m["res"] = []M{{"brand": dev.Brand, "product": dev.Product, "descr": dev.Description,
				"iden": []string{dev.ManufacturerID, dev.ProductType, dev.ProductID}, "cc": ccTuples(dev.CommandClasses)}}
		}
		return m
	case "mand":
		l := database.GetMandatoryCommandClasses(byte(o.G), byte(o.S))
		m := M{"e": "mand", "g": o.G, "row": [][]interface{}{}, "from": o.S, "to": o.S}
		if l != nil {
			d.lists = append(d.lists, l)
			m["row"] = [][]interface{}{{o.S, ccIDs(l)}}
		}
		return m
	case "row":
		row := [][]interface{}{}
		for s := 0; s < 256; s++ {
			if l := database.GetMandatoryCommandClasses(byte(o.G), byte(s)); l != nil {
				d.lists = append(d.lists, l)
				row = append(row, []interface{}{s, ccIDs(l)})
			}
		}
		return M{"e": "mand", "g": o.G, "row": row, "from": 0, "to": 255}
	case "mut":
		d.mutate(o)
		return M{"e": "mut", "how": o.How}
	}
	panic("unknown op " + o.Op)
}

// mutate does what callers may do with their results.
func (d *dataCaller) mutate(o DataOp) {
	if o.How == "names" {
		if len(d.devs) > 0 {
			dev := d.devs[len(d.devs)-1-o.I%len(d.devs)]
			dev.Brand, dev.Product, dev.Description = "changed", "changed", "changed"
			dev.ManufacturerID, dev.ProductType, dev.ProductID = "ffff", "ffff", "ffff"
			dev.CommandClasses = append(dev.CommandClasses[:0], &database.CommandClass{ID: 0x26})
		}
		return
	}
	if len(d.lists) == 0 {
		return
	}
	l := d.lists[len(d.lists)-1-o.I%len(d.lists)]
	switch o.How {
	case "append":
		_ = append(l, &database.CommandClass{ID: commands.ZWaveCommand(0xee)}, &database.CommandClass{ID: commands.ZWaveCommand(0xef)})
	case "truncate":
		_ = append(l[:0], &database.CommandClass{ID: commands.ZWaveCommand(0xee)})
	case "nil":
		for i := range l {
			l[i] = nil
		}
	case "field":
		for _, c := range l {
			if c != nil {
				*c = database.CommandClass{ID: 0xed, InNIF: !c.InNIF, Secure: !c.Secure, NonSecure: !c.NonSecure, Version: c.Version + "9"}
			}
		}
	case "swap":
		for i := 0; i < len(l)/2; i++ {
			l[i], l[len(l)-1-i] = l[len(l)-1-i], l[i]
		}
	}
}

func TestData(t *testing.T) {
	in := os.Getenv("DATA_IN")
	if in == "" {
		t.Skip()
	}
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("DATA_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(out)
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<24)
	var traces [][]DataOp
	for s.Scan() {
		var ops []DataOp
		if err := json.Unmarshal(s.Bytes(), &ops); err != nil {
			t.Fatal(err)
		}
		traces = append(traces, ops)
	}
	res := make([][]M, len(traces))
	par := atoi(os.Getenv("DATA_PAR"), 1)
	for i := 0; i < len(traces); i += par {
		var wg sync.WaitGroup
		for k := i; k < i+par && k < len(traces); k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := &dataCaller{}
				for _, o := range traces[k] {
					res[k] = append(res[k], c.run(o))
				}
			}()
		}
		wg.Wait()
	}
	for _, r := range res {
		b, err := json.Marshal(r)
		if err != nil {
			t.Fatal(err)
		}
		w.Write(append(b, '\n'))
	}
	w.Flush()
	out.Close()
}
