// Package vsched is called before every statement of the instrumented code
// (see ../overlay). It perturbs the schedule by sleeping in virtual time.
package vsched

import (
	"math/rand"
	"sync"
	"sync/atomic"
	"time"
)

var on atomic.Bool
var calls atomic.Int64

var mu sync.Mutex
var rnd *rand.Rand
var prob int       // out of 1000
var maxSleep int64 // µs
var rare int       // out of 100000
var rareMax int64  // µs
var budget int64   // µs that may still be slept in total by rare sleeps

// Config is the schedule perturbation of one scenario.
type Config struct {
	Seed    int64 `json:"seed"`
	Prob    int   `json:"prob"`     // per mille of the statements sleep a little
	Max     int64 `json:"max"`      // µs, upper bound of such a sleep
	Rare    int   `json:"rare"`     // per 100000 of the statements sleep longer
	RareMax int64 `json:"rare_max"` // µs
	Budget  int64 `json:"budget"`   // µs, total of the longer sleeps
}

// Start enables the perturbation, to be called inside the bubble.
func Start(c Config) {
	mu.Lock()
	rnd = rand.New(rand.NewSource(c.Seed))
	prob, maxSleep, rare, rareMax, budget = c.Prob, c.Max, c.Rare, c.RareMax, c.Budget
	mu.Unlock()
	on.Store(c.Prob > 0 || c.Rare > 0)
}

// Stop disables the perturbation.
func Stop() { on.Store(false) }

// Calls tells how many statements were executed since the process started.
func Calls() int64 { return calls.Load() }

// Point is inserted before every statement.
func Point() {
	if !on.Load() {
		return
	}
	calls.Add(1)
	mu.Lock()
	var d int64
	if prob > 0 && rnd.Intn(1000) < prob && maxSleep > 0 {
		d = rnd.Int63n(maxSleep + 1)
	}
	if rare > 0 && rnd.Intn(100000) < rare && rareMax > 0 {
		r := rnd.Int63n(rareMax + 1)
		if r <= budget {
			budget -= r
			d += r
		}
	}
	mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}
