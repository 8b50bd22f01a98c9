// Package vfsched runs goroutines one at a time under a given schedule. It is
// added to the module by the overlay of the checks that need it.
package vfsched

import (
	"fmt"
	"runtime/debug"
	"slices"
)

type thread struct {
	wake    chan struct{}
	done    bool
	waiting func() bool // nil, or becomes true when the thread can go on
	vc      []int
	panic   any
}

// Point is one decision: which threads could run, who ran before and who was
// chosen.
type Point struct {
	Enabled []int
	Cur     int
	Pick    int
}

type sched struct {
	ts     []*thread
	cur    int
	choose func(n int, p *Point)
	trace  []Point
	done   chan struct{}
	stop   bool
	err    error
	last   []int // the enabled threads of the last decision
	access map[string]*accessLog
}

type accessLog struct {
	writer int
	wclock int
	reads  []int // clock of each thread's last read
}

var active *sched

type killed struct{}

// Result of a run.
type Result struct {
	Trace []Point
	Err   error
}

// Run executes the bodies; dev maps decision numbers to threads, every other
// decision lets the current thread go on, or else the first one that can.
func Run(bodies []func(), dev map[int]int) Result {
	s := &sched{done: make(chan struct{}), access: map[string]*accessLog{}, cur: -1}
	s.choose = func(n int, p *Point) {
		p.Pick = p.Enabled[0]
		for _, e := range p.Enabled {
			if e == p.Cur {
				p.Pick = e
			}
		}
		if d, ok := dev[n]; ok {
			for _, e := range p.Enabled {
				if e == d {
					p.Pick = d
				}
			}
		}
	}
	for i := range bodies {
		t := &thread{wake: make(chan struct{}, 1), vc: make([]int, len(bodies))}
		t.vc[i] = 1
		s.ts = append(s.ts, t)
	}
	for i, b := range bodies {
		go func() {
			t := s.ts[i]
			<-t.wake
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(killed); !ok && s.err == nil {
						s.err = fmt.Errorf("thread %d panics: %v\n%s", i, e, debug.Stack())
					}
				}
				t.done = true
				s.next()
			}()
			if !s.stop {
				b()
			}
		}()
	}
	active = s
	s.next()
	<-s.done
	active = nil
	return Result{s.trace, s.err}
}

// next picks the thread to run and wakes it; called by the thread giving up
// control.
func (s *sched) next() {
	if s.pick() {
		s.ts[s.cur].wake <- struct{}{}
	}
}

// pick makes the next decision.
func (s *sched) pick() bool {
	var p Point
	p.Cur = s.cur
	left := 0
	var buf [8]int
	en := buf[:0]
	for i, t := range s.ts {
		if t.done {
			continue
		}
		left++
		if s.stop || t.waiting == nil || t.waiting() {
			en = append(en, i)
		}
	}
	if left == 0 {
		close(s.done)
		return false
	}
	if !slices.Equal(en, s.last) {
		s.last = slices.Clone(en)
	}
	p.Enabled = s.last
	if len(p.Enabled) == 0 {
		if s.err == nil {
			s.err = fmt.Errorf("deadlock: %d threads wait for ever", left)
		}
		s.stop = true
		p.Enabled = nil
		for i, t := range s.ts {
			if !t.done {
				p.Enabled = append(p.Enabled, i)
			}
		}
	}
	if s.stop {
		p.Pick = p.Enabled[0]
	} else {
		s.choose(len(s.trace), &p)
		s.trace = append(s.trace, p)
	}
	s.cur = p.Pick
	return true
}

// Y is a yield point.
func Y() {
	if s := active; s != nil {
		s.yield()
	}
}

func (s *sched) yield() {
	was := s.cur
	me := s.ts[was]
	if s.pick() && s.cur != was {
		s.ts[s.cur].wake <- struct{}{}
		<-me.wake
	}
	if s.stop {
		panic(killed{})
	}
}

// A notes an access to a shared variable and reports accesses no lock orders.
func A(key string, write bool) {
	s := active
	if s == nil {
		return
	}
	me := s.cur
	t := s.ts[me]
	l := s.access[key]
	if l == nil {
		l = &accessLog{writer: -1, reads: make([]int, len(s.ts))}
		s.access[key] = l
	}
	race := func(other int) {
		if s.err == nil {
			s.err = fmt.Errorf("data race on %s: threads %d and %d access it and no lock orders the accesses", key, other, me)
		}
	}
	if l.writer >= 0 && l.writer != me && t.vc[l.writer] < l.wclock {
		race(l.writer)
	}
	if write {
		for o, c := range l.reads {
			if o != me && c > 0 && t.vc[o] < c {
				race(o)
			}
		}
		l.writer, l.wclock = me, t.vc[me]
		return
	}
	l.reads[me] = t.vc[me]
}

// RWMutex models sync.RWMutex.
type RWMutex struct {
	readers int
	pending int // writers waiting; they hold off new readers
	writer  bool
	wvc     []int // clock of the last write section
	rvc     []int // clock of the read sections
}

func (m *RWMutex) wait(ok func() bool) {
	s := active
	if s == nil {
		if !ok() {
			panic("vf: lock is never released")
		}
		return
	}
	if s.stop {
		panic(killed{})
	}
	me := s.ts[s.cur]
	me.waiting = ok
	s.next()
	<-me.wake
	if s.stop {
		panic(killed{})
	}
	me.waiting = nil
}

func join(a, b []int) {
	for i := range b {
		if i < len(a) && b[i] > a[i] {
			a[i] = b[i]
		}
	}
}

func (m *RWMutex) acquire(write bool) {
	if s := active; s != nil {
		t := s.ts[s.cur]
		join(t.vc, m.wvc)
		if write {
			join(t.vc, m.rvc)
		}
	}
}

func (m *RWMutex) release(write bool) {
	if s := active; s != nil {
		t := s.ts[s.cur]
		if write {
			m.wvc, m.rvc = append([]int(nil), t.vc...), nil
		} else {
			if len(m.rvc) < len(t.vc) {
				m.rvc = make([]int, len(t.vc))
			}
			join(m.rvc, t.vc)
		}
		t.vc[s.cur]++
	} else {
		m.wvc, m.rvc = nil, nil
	}
}

func (m *RWMutex) Lock() {
	m.pending++
	defer func() { m.pending-- }()
	m.wait(func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
	m.acquire(true)
}

func (m *RWMutex) TryLock() bool {
	Y()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.acquire(true)
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		if s := active; s != nil && s.stop {
			return
		}
		panic("vf: unlock of an unlocked mutex")
	}
	m.release(true)
	m.writer = false
}

func (m *RWMutex) RLock() {
	m.wait(func() bool { return !m.writer && m.pending == 0 })
	m.readers++
	m.acquire(false)
}

func (m *RWMutex) TryRLock() bool {
	Y()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	m.acquire(false)
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		if s := active; s != nil && s.stop {
			return
		}
		panic("vf: runlock of an unlocked mutex")
	}
	m.release(false)
	m.readers--
}

// Reset frees the mutex between runs.
func (m *RWMutex) Reset() { *m = RWMutex{} }

// Mutex models sync.Mutex.
type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

// Once models sync.Once.
type Once struct {
	m    RWMutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc models sync.OnceFunc; a function that panics is not repeated.
func OnceFunc(f func()) func() {
	o := &Once{}
	var p any
	return func() {
		o.Do(func() {
			defer func() { p = recover() }()
			f()
		})
		if p != nil {
			panic(p)
		}
	}
}

// OnceValue models sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	do := OnceFunc(func() { v = f() })
	return func() T {
		do()
		return v
	}
}

// OnceValues models sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var v T
	var u U
	do := OnceFunc(func() { v, u = f() })
	return func() (T, U) {
		do()
		return v, u
	}
}
