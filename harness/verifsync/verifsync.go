// Package verifsync stands in for the standard library's sync package while the
// go-artnet sources run in a testing/synctest bubble. A goroutine that waits for
// a sync.Mutex is not "durably blocked" in a bubble, so virtual time would stop
// as long as a lock is held across a blocking operation. These locks wait on
// channels instead; everything else is the standard library's. They order
// memory accesses as the standard ones do (the race detector sees the internal
// mutex), and taking one is a scheduling point.
package verifsync

import (
	"sync"
	"sync/atomic"

	"verif/verifnet"
)

type (
	Cond      = sync.Cond
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Once is sync.Once; those who wait for the first call wait durably.
type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

type rw struct {
	mu      sync.Mutex
	writer  bool
	readers int
	pending int // writers waiting: they keep new readers out
	ww, wr  []chan struct{}
}

// wake wakes two of the waiting writers, who compete with each other and with newcomers,
// or all waiting readers. Whoever takes the lock wakes others when he leaves.
func (m *rw) wake() {
	if n := len(m.ww); n > 0 {
		close(m.ww[0])
		m.ww[0] = nil
		if m.ww = m.ww[1:]; n > 1 {
			close(m.ww[n-2])
			m.ww = m.ww[:n-2]
		}
		return
	}
	for _, c := range m.wr {
		close(c)
	}
	m.wr = nil
}

func (m *rw) lock() {
	verifnet.Pt()
	m.mu.Lock()
	m.pending++
	for m.writer || m.readers > 0 {
		c := make(chan struct{})
		m.ww = append(m.ww, c)
		m.mu.Unlock()
		<-c
		m.mu.Lock()
	}
	m.pending--
	m.writer = true
	m.mu.Unlock()
}

func (m *rw) tryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *rw) unlock(what string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("fatal: sync: unlock of unlocked " + what)
	}
	m.writer = false
	m.wake()
}

func (m *rw) rlock() {
	verifnet.Pt()
	m.mu.Lock()
	for m.writer || m.pending > 0 {
		c := make(chan struct{})
		m.wr = append(m.wr, c)
		m.mu.Unlock()
		<-c
		m.mu.Lock()
	}
	m.readers++
	m.mu.Unlock()
}

func (m *rw) tryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *rw) runlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("fatal: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
}

// Mutex is sync.Mutex.
type Mutex struct{ m rw }

func (m *Mutex) Lock()         { m.m.lock() }
func (m *Mutex) TryLock() bool { return m.m.tryLock() }
func (m *Mutex) Unlock()       { m.m.unlock("mutex") }

// RWMutex is sync.RWMutex.
type RWMutex struct{ m rw }

func (m *RWMutex) Lock()          { m.m.lock() }
func (m *RWMutex) TryLock() bool  { return m.m.tryLock() }
func (m *RWMutex) Unlock()        { m.m.unlock("RWMutex") }
func (m *RWMutex) RLock()         { m.m.rlock() }
func (m *RWMutex) TryRLock() bool { return m.m.tryRLock() }
func (m *RWMutex) RUnlock()       { m.m.runlock() }

// RLocker is (*sync.RWMutex).RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }
