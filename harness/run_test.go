package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// TestProp runs one shard of one property: VERIF_PROP, VERIF_DIR (scratch folder of the shard),
// VERIF_CORPUS (optional folder of saved cases to run first); the seed and the number of cases come as rapid's flags.
func TestProp(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	p := props[id]
	if p == nil {
		t.Fatalf("unknown property %q", id)
	}
	debug.SetMaxStack(192 << 20)
	r := &runner{prop: p, dir: os.Getenv("VERIF_DIR"), seen: map[uint64]bool{}}
	r.out = ShardOut{Property: id, Labels: map[string]int{}, Rule: p.Rule, Assumptions: p.Assumptions}
	r.startWatchdog()
	finish := func() {
		r.out.Failed = r.failCase != nil
		r.out.Error = r.failErr
		b, _ := json.Marshal(r.out)
		if err := os.WriteFile(r.dir+"/out.json", b, 0o644); err != nil {
			t.Fatal(err)
		}
	}
	defer finish()
	// saved cases: shrunk failures of the past, judged first by every run
	if dir := os.Getenv("VERIF_CORPUS"); dir != "" {
		es, _ := os.ReadDir(dir)
		var names []string
		for _, e := range es {
			names = append(names, e.Name())
		}
		sort.Strings(names)
		for _, n := range names {
			c, err := loadCase(p, dir+"/"+n)
			if err != nil {
				t.Fatalf("corpus %s: %v", n, err)
			}
			r.out.Corpus++
			if err := r.one(c); err != nil {
				t.Errorf("corpus case %s: %v", n, err)
				return
			}
		}
	}
	limit, _ := strconv.Atoi(os.Getenv("VERIF_DEADLINE"))
	begin := time.Now()
	rapid.Check(t, func(rt *rapid.T) {
		if limit > 0 && r.failCase == nil && time.Since(begin) > time.Duration(limit)*time.Second {
			r.out.Skipped++
			return
		}
		c := p.gen(rt)
		if err := r.one(c); err != nil {
			rt.Fatalf("%v", err)
		}
	})
}

func loadCase(p *Prop, path string) (any, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f struct {
		Property string
		Case     json.RawMessage
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	return p.decode(f.Case)
}

// TestReplay judges one saved case. Exit status of the test: fails when the property is violated.
func TestReplay(t *testing.T) {
	path := os.Getenv("VERIF_REPLAY")
	if path == "" {
		t.Skip()
	}
	debug.SetMaxStack(192 << 20)
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var f struct{ Property string }
	if err := json.Unmarshal(b, &f); err != nil {
		t.Fatal(err)
	}
	p := props[f.Property]
	c, err := loadCase(p, path)
	if err != nil {
		fmt.Println("REPLAY-ERROR", err)
		os.Exit(3)
	}
	r := &runner{prop: p}
	r.startWatchdog()
	st := &Stats{}
	if err := r.judge(c, st); err != nil {
		fmt.Println("REPLAY-VIOLATION", err)
		os.Exit(1)
	}
	fmt.Println("REPLAY-OK nontrivial=", st.NonTrivial, st.Labels)
}

// TestInfo prints the registered properties and their case counts
func TestInfo(t *testing.T) {
	out := map[string]any{}
	for id, p := range props {
		out[id] = map[string]any{"quick": p.Quick, "thorough": p.Thorough, "rule": p.Rule, "assumptions": p.Assumptions}
	}
	b, _ := json.Marshal(out)
	fmt.Println("INFO " + string(b))
}

// TestChild is a process holding an instance on disk (see child.go)
func TestChild(t *testing.T) {
	dir := os.Getenv("VERIF_CHILD")
	if dir == "" {
		t.Skip()
	}
	debug.SetMaxStack(192 << 20)
	childMain(dir)
}
