package harness

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"
)

// gateKV lets a scheduler decide, at every access of the store, which goroutine goes on
type gateKV struct {
	kv   rcdb.KVStore
	gate func()
}

func (g *gateKV) Get(k []byte) ([]byte, error) { g.gate(); return g.kv.Get(k) }
func (g *gateKV) Has(k []byte) (bool, error)   { g.gate(); return g.kv.Has(k) }
func (g *gateKV) Set(k, v []byte) error        { g.gate(); return g.kv.Set(k, v) }
func (g *gateKV) Delete(k []byte) error        { g.gate(); return g.kv.Delete(k) }
func (g *gateKV) Iterator(a, b []byte) rcdb.Iterator {
	g.gate()
	return &gateIter{g.kv.Iterator(a, b), g}
}

type gateIter struct {
	rcdb.Iterator
	g *gateKV
}

func (i *gateIter) Next()        { i.g.gate(); i.Iterator.Next() }
func (i *gateIter) Close() error { i.g.gate(); return i.Iterator.Close() }

func goid() int {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.Atoi(string(f[1]))
	return id
}

// Seg of a schedule: let thread T take N steps
type Seg struct {
	T int `json:"t"`
	N int `json:"n"`
}

type scheduler struct {
	mu     sync.Mutex
	thread map[int]int // goroutine -> thread
	wait   map[int]chan struct{}
	done   map[int]bool
	note   chan struct{} // something changed
	n      int
	off    bool
	steps  int
	forced int // steps given to another thread than the schedule asked for
}

func newScheduler(n int) *scheduler {
	return &scheduler{thread: map[int]int{}, wait: map[int]chan struct{}{}, done: map[int]bool{}, note: make(chan struct{}, 1), n: n}
}

func (s *scheduler) signal() {
	select {
	case s.note <- struct{}{}:
	default:
	}
}

// enter binds the calling goroutine to a thread
func (s *scheduler) enter(th int) {
	s.mu.Lock()
	s.thread[goid()] = th
	s.mu.Unlock()
}

func (s *scheduler) leave(th int) {
	s.mu.Lock()
	s.done[th] = true
	s.mu.Unlock()
	s.signal()
}

// gate blocks the calling goroutine, if it is a thread's, until it is its turn
func (s *scheduler) gate() {
	s.mu.Lock()
	th, ok := s.thread[goid()]
	if !ok || s.off {
		s.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	s.wait[th] = ch
	s.mu.Unlock()
	s.signal()
	<-ch
}

// settled waits until the thread stands at the gate or has ended, for some time
func (s *scheduler) settled(th int, limit time.Duration) bool {
	end := time.Now().Add(limit)
	for {
		s.mu.Lock()
		ok := s.wait[th] != nil || s.done[th]
		s.mu.Unlock()
		if ok {
			return true
		}
		d := time.Until(end)
		if d <= 0 {
			return false
		}
		select {
		case <-s.note:
		case <-time.After(d):
		}
	}
}

func (s *scheduler) grant(th int) {
	s.mu.Lock()
	ch := s.wait[th]
	delete(s.wait, th)
	s.steps++
	s.mu.Unlock()
	close(ch)
}

// patience: how long a thread has to come to the gate until it counts as waiting for a lock. Only which schedule is
// explored depends on it.
const patience = 1500 * time.Microsecond
const deadlockLimit = 20 * time.Second

// run drives the threads by the schedule until all have ended
func (s *scheduler) run(segs []Seg) error {
	blocked := map[int]bool{}
	for th := 0; th < s.n; th++ {
		s.settled(th, deadlockLimit)
	}
	last := 0
	take := func(want int) (bool, error) {
		s.mu.Lock()
		n, w, d := len(s.done), s.wait[want] != nil, s.done[want]
		s.mu.Unlock()
		if n == s.n {
			return true, nil
		}
		if d {
			return false, nil
		}
		th := want
		if w || !blocked[want] && s.settled(want, patience) {
			s.mu.Lock()
			if s.wait[want] == nil { // it has ended
				s.mu.Unlock()
				return false, nil
			}
			s.mu.Unlock()
			delete(blocked, want)
		} else {
			blocked[want] = true
			s.forced++
			var err error
			if th, err = s.any(last); err != nil || th < 0 {
				return th < 0, err
			}
		}
		s.grant(th)
		last = th
		if !s.settled(th, patience) {
			blocked[th] = true
		} else {
			delete(blocked, th)
		}
		return false, nil
	}
	for _, g := range segs {
		for i := 0; i < g.N; i++ {
			end, err := take(g.T % s.n)
			if end || err != nil {
				return err
			}
			s.mu.Lock()
			d := s.done[g.T%s.n]
			s.mu.Unlock()
			if d {
				break
			}
		}
	}
	// the rest of the threads one after the other
	for {
		th, err := s.any(last)
		if err != nil || th < 0 {
			return err
		}
		s.grant(th)
		last = th
		s.settled(th, patience)
	}
}

// any returns a thread at the gate, preferably the given one; -1 when all have ended
func (s *scheduler) any(prefer int) (int, error) {
	end := time.Now().Add(deadlockLimit)
	for {
		s.mu.Lock()
		for k := 0; k < s.n; k++ {
			th := (prefer + k) % s.n
			if s.wait[th] != nil {
				s.mu.Unlock()
				return th, nil
			}
		}
		n := len(s.done)
		s.mu.Unlock()
		if n == s.n {
			return -1, nil
		}
		d := time.Until(end)
		if d <= 0 {
			var b [16384]byte
			k := runtime.Stack(b[:], true)
			return -1, fmt.Errorf("deadlock: %d of %d threads wait for each other\n%s", s.n-n, s.n, b[:k])
		}
		select {
		case <-s.note:
		case <-time.After(d):
		}
	}
}
