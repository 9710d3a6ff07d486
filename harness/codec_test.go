package verif

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/serialapi"
)

// Vector is an input of the codec.
type Vector struct {
	ID   int    `json:"id"`
	Op   string `json:"op"`
	B    []int  `json:"b"`
	Tail []int  `json:"tail"` // bytes in the array behind the slice
	CC   int    `json:"cc"`
	Cmd  int    `json:"cmd"`
	Node int    `json:"node"`
	Ep   int    `json:"ep"`
	M    int64  `json:"m"`
	P    int    `json:"p"`
	On   int    `json:"on"`
	Fn   int    `json:"fn"` // function of the frame, 0: no payload to decode directly
	In   []int  `json:"in"` // the payload inside of the frame
}

// direct decodes a payload without its frame.
func direct(v Vector) M {
	var d interface{}
	var err error
	switch v.Fn {
	case 4:
		d, err = serialapi.NewApplicationCommandHandler(toBytes(v.In))
	case 2:
		d, err = serialapi.NewDiscoverdNodes(toBytes(v.In))
	case 0x41:
		d, err = serialapi.NewGetNodeProtocolInfo(toBytes(v.In))
	default:
		return M{"err": 1, "data": canonData(nil)}
	}
	if err != nil {
		return M{"err": 1, "data": canonData(nil)}
	}
	return M{"err": 0, "data": canonData(d)}
}

func startKind(m *serialapi.Message) int {
	switch {
	case m == nil:
		return -1
	case m.IsACK():
		return 6
	case m.IsNAK():
		return 21
	case m.IsCAN():
		return 24
	}
	return 0
}

// guarded runs f with a copy of b, followed by tail in the same array, and
// tells whether it paniced, changed the array, or returned something that
// changes when the array is reused.
func guarded(v Vector, f func([]byte) func() M) M {
	arr := append(toBytes(v.B), toBytes(v.Tail)...)
	was := append([]byte{}, arr...)
	res := M{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				res = M{"panic": fmt.Sprint(r)}
			}
		}()
		look := f(arr[:len(v.B)])
		res = look()
		same := bytes.Equal(arr, was)
		before, _ := json.Marshal(res)
		for i := range arr {
			arr[i] ^= 0x5a
		}
		after, _ := json.Marshal(look())
		res["same"] = b2i(same)
		res["stable"] = b2i(bytes.Equal(before, after))
		res["panic"] = ""
	}()
	return res
}

func runVector(v Vector) M {
	switch v.Op {
	case "decode":
		return guarded(v, func(b []byte) func() M {
			l, msg, err := serialapi.Decode(b)
			dir := direct(v)
			return func() M {
				return M{"l": l, "err": b2i(err != nil), "start": startKind(msg), "msg": canonMsg(msg), "direct": dir}
			}
		})
	case "newmsg":
		return guarded(v, func(b []byte) func() M {
			msg, err := serialapi.NewMessage(b)
			return func() M { return M{"err": b2i(err != nil), "msg": canonMsg(msg)} }
		})
	case "report":
		return guarded(v, func(b []byte) func() M {
			rep, err := reports.New(commands.ZWaveCommand(v.CC), byte(v.Cmd), b)
			return func() M {
				if err != nil {
					return M{"err": 1, "rep": canonReport(nil)}
				}
				_ = rep.String()
				rep.SetNode(5)
				return M{"err": 0, "rep": canonReport(rep)}
			}
		})
	case "kinds": // the constructors of the single reports, which must not panic
		return guarded(v, func(b []byte) func() M {
			fs := []func([]byte) (reports.Report, error){
				func(b []byte) (reports.Report, error) { return reports.NewAlarm(b) },
				func(b []byte) (reports.Report, error) { return reports.NewManufacturerSpecific(b) },
				func(b []byte) (reports.Report, error) { return reports.NewMultiChannelEndpoints(b) },
				func(b []byte) (reports.Report, error) { return reports.NewSensorMultiLevel(b) },
				func(b []byte) (reports.Report, error) { return reports.NewSwitchBinaryV1(b) },
				func(b []byte) (reports.Report, error) { return reports.NewSwitchBinaryV2(b) },
				func(b []byte) (reports.Report, error) { return reports.NewSwitchMultilevelV1(b) },
				func(b []byte) (reports.Report, error) { return reports.NewSwitchMultilevelV4(b) },
			}
			for _, f := range fs {
				if r, err := f(b); err == nil {
					_ = r.String()
				}
			}
			serialapi.NewApplicationCommandHandler(b)
			serialapi.NewDiscoverdNodes(b)
			serialapi.NewGetNodeProtocolInfo(b)
			return func() M { return M{} }
		})
	case "compile":
		return guarded(v, func(b []byte) func() M {
			f := serialapi.CompileMessage(b)
			return func() M { return M{"out": ints(f)} }
		})
	case "binary":
		return guarded(v, func(b []byte) func() M {
			c := commands.NewSwitchBinary()
			c.SetValue(v.On == 1)
			c.SetNode(v.Node)
			return func() M { return M{"out": ints(c.Encode())} }
		})
	case "level":
		return guarded(v, func(b []byte) func() M {
			c := commands.NewSwitchMultilevel()
			c.SetValue(float64(v.M) / math.Pow10(v.P))
			c.SetNode(v.Node)
			return func() M { return M{"out": ints(c.Encode())} }
		})
	case "raw":
		return guarded(v, func(b []byte) func() M {
			c := commands.NewRaw(append([]byte{}, b...))
			c.SetNode(v.Node)
			return func() M { return M{"out": ints(c.Encode())} }
		})
	case "encap":
		return guarded(v, func(b []byte) func() M {
			c := commands.NewMultiChannelEncap(append([]byte{}, b...), v.Ep)
			return func() M { return M{"out": ints(c.Encode())} }
		})
	case "duration":
		return guarded(v, func(b []byte) func() M {
			d, err := commands.Duration(b[0]).Duration()
			s := commands.Duration(b[0]).String()
			if err != nil {
				return func() M { return M{"sec": -1, "str": s} }
			}
			return func() M { return M{"sec": int(d.Seconds()), "str": s} }
		})
	}
	panic("unknown op " + v.Op)
}

func TestCodec(t *testing.T) {
	in := os.Getenv("CODEC_IN")
	if in == "" {
		t.Skip()
	}
	setLog("")
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("CODEC_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(out)
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<20)
	var vs []Vector
	for s.Scan() {
		var v Vector
		if err := json.Unmarshal(s.Bytes(), &v); err != nil {
			t.Fatal(err)
		}
		vs = append(vs, v)
	}
	// What does not come to an end is told on stderr
	var busy sync.Map // since when, by vector
	go func() {
		for range time.Tick(time.Second) {
			busy.Range(func(k, v interface{}) bool {
				if time.Since(v.(time.Time)) > 60*time.Second {
					fmt.Fprintf(os.Stderr, "HANG %v\n", k)
					os.Exit(3)
				}
				return true
			})
		}
	}()
	once := func(v Vector) (M, string) {
		busy.Store(v.ID, time.Now())
		defer busy.Delete(v.ID)
		r := runVector(v)
		b, err := json.Marshal(r)
		if err != nil {
			t.Fatal(err)
		}
		return r, string(b)
	}
	res := make([]M, len(vs))
	first := make([]string, len(vs))
	again := make([]int, len(vs))
	for i, v := range vs {
		res[i], first[i] = once(v)
		again[i] = 1
	}
	// Once more in the opposite order, and several at a time: the result does not depend on what else is coded
	for i := len(vs) - 1; i >= 0; i-- {
		if _, b := once(vs[i]); b != first[i] {
			again[i] = 0
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < len(vs); i += 4 {
				if _, b := once(vs[i]); b != first[i] {
					again[i] = 0
				}
			}
		}(k)
	}
	wg.Wait()
	for i, v := range vs {
		res[i]["id"] = v.ID
		res[i]["again"] = again[i]
		b, _ := json.Marshal(res[i])
		w.Write(append(b, '\n'))
	}
	w.Flush()
	out.Close()
}
