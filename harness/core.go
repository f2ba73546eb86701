package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Stats of one case
type Stats struct {
	NonTrivial bool
	Labels     []string
}

func (s *Stats) label(f string, a ...any) { s.Labels = append(s.Labels, fmt.Sprintf(f, a...)) }

func (s *Stats) labelIf(c bool, f string) {
	if c {
		s.Labels = append(s.Labels, f)
	}
}

// Prop is a property: a generator of cases and a deterministic judge of a case
type Prop struct {
	ID       string
	Rule     string
	Quick    int // cases per run, over all shards
	Thorough int
	gen      func(t *rapid.T) any
	decode   func([]byte) (any, error)
	run      func(c any, st *Stats) error
	// single: cases which cannot run in parallel processes
	Assumptions []string
}

var props = map[string]*Prop{}

func register[C any](id string, quick, thorough int, rule string, gen func(t *rapid.T) C, run func(c C, st *Stats) error) *Prop {
	p := &Prop{
		ID: id, Rule: rule, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		run: func(c any, st *Stats) error { return run(c.(C), st) },
	}
	props[id] = p
	return p
}

// Output of a shard
type ShardOut struct {
	Property    string            `json:"property"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Hashes      []string          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Rule        string            `json:"rule"`
	Assumptions []string          `json:"assumptions,omitempty"`
	Failed      bool              `json:"failed"`
	Error       string            `json:"error,omitempty"`
	Skipped     int               `json:"skipped,omitempty"`
	Corpus      int               `json:"corpus,omitempty"`
}

type runner struct {
	prop     *Prop
	dir      string
	out      ShardOut
	seen     map[uint64]bool
	failCase []byte
	failErr  string
	mu       sync.Mutex
}

// watchdog: a case in which nothing is answered for far longer than any answer should take (normal: milliseconds) is a hang
var caseStart atomic.Int64

// progress: something was answered
func progress() {
	if s := caseStart.Load(); s != 0 {
		caseStart.CompareAndSwap(s, time.Now().UnixNano())
	}
}

const hangLimit = 60 * time.Second
const exitHang = 42

func (r *runner) startWatchdog() {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := caseStart.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > hangLimit {
				fmt.Fprintln(os.Stderr, "HANG")
				buf := make([]byte, 1<<20)
				for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
					if strings.Contains(g, "/verif/harness/") || strings.Contains(g, "/repo/") {
						fmt.Fprintf(os.Stderr, "%.1500s\n\n", g)
					}
				}
				os.Exit(exitHang)
			}
		}
	}()
}

// judge runs a case, with panics of the harness goroutine turned into failures
func (r *runner) judge(c any, st *Stats) error {
	caseStart.Store(time.Now().UnixNano())
	defer caseStart.Store(0)
	return guard("case", func() error { return r.prop.run(c, st) })
}

func (r *runner) one(c any) error {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(r.dir+"/current.json", b, 0o644); err != nil {
		panic(err)
	}
	st := &Stats{}
	err = r.judge(c, st)
	if r.failCase == nil {
		r.out.Evaluations++
		h := fnv.New64a()
		h.Write(b)
		if st.NonTrivial && !r.seen[h.Sum64()] {
			r.seen[h.Sum64()] = true
			r.out.NonTrivial++
			r.out.Hashes = append(r.out.Hashes, fmt.Sprintf("%x", h.Sum64()))
			if len(b) < 3000 && (len(r.out.Samples) < 2 || (len(r.out.Samples) < 4 && r.out.Evaluations%50 == 0)) {
				r.out.Samples = append(r.out.Samples, b)
			}
		}
		for _, l := range st.Labels {
			r.out.Labels[l]++
		}
	}
	if err != nil {
		r.failCase, r.failErr = b, err.Error()
		rep, _ := json.MarshalIndent(map[string]any{"property": r.prop.ID, "case": json.RawMessage(b), "error": err.Error()}, "", " ")
		os.WriteFile(r.dir+"/fail.json", rep, 0o644)
	}
	return err
}
