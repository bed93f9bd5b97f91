// Package zzvsync replaces package sync in instrumented code that runs in a synctest bubble: a
// goroutine that waits for a lock waits on a channel, so virtual time can pass meanwhile.
package zzvsync

import "sync"

type (
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

// Mutex is a lock with a queue
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

type waiter struct {
	ch   chan struct{}
	read bool
}

// RWMutex serves its waiters in order, so a waiting writer stops new readers
type RWMutex struct {
	mu      sync.Mutex // only for the fields, never held while waiting
	writer  bool
	readers int
	queue   []waiter
}

func (m *RWMutex) grant() {
	for len(m.queue) > 0 {
		w := m.queue[0]
		if m.writer || (!w.read && m.readers > 0) {
			return
		}
		if w.read {
			m.readers++
		} else {
			m.writer = true
		}
		m.queue = m.queue[1:]
		close(w.ch)
	}
}

func (m *RWMutex) wait(read bool) {
	m.mu.Lock()
	w := waiter{ch: make(chan struct{}), read: read}
	m.queue = append(m.queue, w)
	m.grant()
	m.mu.Unlock()
	<-w.ch
}

func (m *RWMutex) Lock()  { m.wait(false) }
func (m *RWMutex) RLock() { m.wait(true) }

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: unlock of unlocked mutex")
	}
	m.writer = false
	m.grant()
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.grant()
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 || len(m.queue) > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.queue) > 0 {
		return false
	}
	m.readers++
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is sync.Once
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond is sync.Cond
type Cond struct {
	L     Locker
	mu    sync.Mutex
	queue []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.queue = append(c.queue, ch)
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.queue) > 0 {
		close(c.queue[0])
		c.queue = c.queue[1:]
	}
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, ch := range c.queue {
		close(ch)
	}
	c.queue = nil
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
