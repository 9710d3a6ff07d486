// Package vsync replaces package sync in the instrumented code: the locks
// block on channels, so that a goroutine waiting for a lock counts as durably
// blocked in a synctest bubble and virtual time can go on. A lock's state
// lives in its struct (a copied lock is a copy of the state, as with package
// sync); its waiters live in a global table, by address.
package vsync

import "sync"

type (
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Map       = sync.Map
	Pool      = sync.Pool
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

var gl sync.Mutex

type waiter struct {
	ch    chan struct{}
	write bool
}

var waiters = map[*RWMutex][]*waiter{}

// RWMutex with the semantics of sync.RWMutex (waiting writers block new readers).
type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) block(write bool) {
	w := &waiter{make(chan struct{}), write}
	waiters[m] = append(waiters[m], w)
	gl.Unlock()
	<-w.ch
}

// wake hands the lock over to the first waiters; gl is held.
func (m *RWMutex) wake() {
	q := waiters[m]
	for len(q) > 0 {
		if q[0].write {
			if m.w || m.r > 0 {
				break
			}
			m.w = true
			close(q[0].ch)
			q = q[1:]
			break
		}
		if m.w {
			break
		}
		m.r++
		close(q[0].ch)
		q = q[1:]
	}
	if len(q) == 0 {
		delete(waiters, m)
	} else {
		waiters[m] = q
	}
}

func (m *RWMutex) Lock() {
	gl.Lock()
	if m.w || m.r > 0 || len(waiters[m]) > 0 {
		m.block(true)
		return
	}
	m.w = true
	gl.Unlock()
}

func (m *RWMutex) TryLock() bool {
	gl.Lock()
	defer gl.Unlock()
	if m.w || m.r > 0 || len(waiters[m]) > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	gl.Lock()
	defer gl.Unlock()
	if !m.w {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.w = false
	m.wake()
}

func (m *RWMutex) RLock() {
	gl.Lock()
	if m.w || len(waiters[m]) > 0 {
		m.block(false)
		return
	}
	m.r++
	gl.Unlock()
}

func (m *RWMutex) TryRLock() bool {
	gl.Lock()
	defer gl.Unlock()
	if m.w || len(waiters[m]) > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	gl.Lock()
	defer gl.Unlock()
	if m.r <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.wake()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Mutex is a lock.
type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

// Once like sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
