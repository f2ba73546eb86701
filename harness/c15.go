package harness

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// ConcCase: a history, then threads of operations running at the same time
type ConcCase struct {
	Ids     []string `json:"ids"`
	Rels    []Rel    `json:"rels"`
	Nodes   []Node   `json:"nodes"`
	Subs    []Ent    `json:"subs"`
	Ops     []Op     `json:"ops"`
	Threads [][]Op   `json:"threads"`
	Sched   []Seg    `json:"sched"` // empty: the threads run freely
	Mem     bool     `json:"mem,omitempty"`
}

func init() {
	register("C15", 4000, 80000,
		"Case: a short history, then 2-4 threads of 1-4 operations each over 1-2 policies and a few relationships (all operations; many conflicting creates, updates, deletes, sets). In 7 of 10 cases a scheduler holds every thread at every access of the store and lets them go on one by one by a generated schedule (on a map store or on the library's in-memory store, whose iterators hold a lock); the others run freely, with relation names no other case has. The binary has the race detector. Judged: a sequential order of the modifying operations which respects real time must explain every reported result and the final state; every read must report, for each record, what that record was at some point of that order within the read's duration, a Check in policies without differences must lie between what the relationships present throughout and those present at any time grant; afterwards answers agree with the stored relationships, and policies deleted and created again are empty. No deadlock (20 s without progress), crash or data race. Non-trivial: two modifying operations on the same policy overlapped, or two reads of the same kind did in a case running freely.",
		genC15, runC15)
}

func genC15(t *rapid.T) ConcCase {
	readers := chance(t, 15, "readers") // mostly reads, of one or two kinds
	controlled := chance(t, 70, "controlled") && !readers
	o := histOpts{ids: rapid.IntRange(1, 2).Draw(t, "nids"), nasty: 10, restrict: chance(t, 20, "restrict"), variants: 2, rels: 4,
		kinds: map[string]int{"set": 8, "del": 1, "delpol": 1, "create": 1}, noDiff: chance(t, 70, "nodiff"),
		// what is remembered of expressions seen before hides accesses to it
		fresh: !controlled}
	v := genVocab(t, o)
	c := ConcCase{Ids: v.Ids, Rels: v.Rels, Nodes: v.U.nodes(), Subs: v.U.entities()}
	c.Ops = genOps(t, v, o, 0, 8)
	if chance(t, 25, "nothing") {
		c.Ops = nil
	}
	kinds := []map[string]int{
		{"create": 4, "update": 3, "delpol": 4, "set": 6, "del": 2, "delsel": 2, "getpol": 1, "list": 1, "get": 2, "find": 2, "check": 2, "explain": 1, "expand": 1, "dump": 1},
		{"create": 5, "delpol": 4, "update": 2, "set": 3},
		{"set": 6, "del": 4, "delsel": 3, "get": 3, "find": 3, "check": 5},
		{"delpol": 3, "set": 6, "update": 2, "find": 1, "check": 1},
	}
	o.kinds = pick(t, kinds, "kinds")
	if readers {
		ks := []string{"check", "explain", "expand", "dump", "find", "getpol", "list", "get"}
		o.kinds = map[string]int{"set": 1, pick(t, ks, "kind1"): 4, pick(t, ks, "kind2"): 4}
	}
	n := rapid.IntRange(2, 4).Draw(t, "threads")
	mods := 0
	for i := 0; i < n; i++ {
		var th []Op
		for k := rapid.IntRange(1, 4).Draw(t, "len"); k > 0; k-- {
			op := rapid.Custom(func(t *rapid.T) Op { return genOp(t, v, o) }).Draw(t, "op")
			if op.mutates() {
				if mods == 8 {
					continue
				}
				mods++
			}
			th = append(th, op)
		}
		if len(th) > 0 {
			c.Threads = append(c.Threads, th)
		}
	}
	c.Mem = chance(t, 50, "mem")
	if controlled {
		c.Sched = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Seg {
			return Seg{uni(t, n, "t"), pick(t, []int{1, 1, 1, 2, 2, 3, 4, 6, 10}, "n")}
		}), 3, 30).Draw(t, "sched")
	}
	return c
}

type call struct {
	op        Op
	inv, resp int64
	t0, t1    time.Time
	res       proto.Message
	err       error
}

func runC15(c ConcCase, st *Stats) error {
	var kv rcdb.KVStore
	if c.Mem {
		kv = rcdb.NewMemKV()
	} else {
		kv = newMapKV()
	}
	n := len(c.Threads)
	if n == 0 {
		return nil
	}
	sch := newScheduler(n)
	gated := &gateKV{kv: kv, gate: sch.gate}
	var z *Z
	if len(c.Sched) > 0 {
		z = newZOn(gated)
	} else {
		z = newZOn(kv)
	}
	m := newModel()
	for i, o := range c.Ops {
		if err := m.step(z, o); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
	}
	var clock atomic.Int64
	calls := make([][]*call, n)
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for i := range c.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if len(c.Sched) > 0 {
				sch.enter(i)
				defer sch.leave(i)
			} else {
				<-begin
			}
			for _, o := range c.Threads[i] {
				req := o.request()
				sch.gate()
				k := &call{op: o, t0: time.Now()}
				k.inv = clock.Add(1)
				k.res, k.err = z.send(req)
				k.resp = clock.Add(1)
				k.t1 = time.Now()
				calls[i] = append(calls[i], k)
			}
		}()
	}
	if len(c.Sched) > 0 {
		if err := sch.run(c.Sched); err != nil {
			return err
		}
		sch.mu.Lock()
		sch.off = true
		sch.mu.Unlock()
	} else {
		close(begin)
	}
	ended := make(chan struct{})
	go func() { wg.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(deadlockLimit + 10*time.Second):
		return fmt.Errorf("deadlock: the operations do not end")
	}
	var mods, reads []*call
	for _, cs := range calls {
		for _, k := range cs {
			if isPanic(k.err) {
				return fmt.Errorf("%v: %w", k.op, k.err)
			}
			if k.op.mutates() {
				mods = append(mods, k)
			} else {
				reads = append(reads, k)
			}
		}
	}
	final, err := readState(z, c.Ids)
	if err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	l := linearizer{c: &c, mods: mods, reads: reads, final: final, failed: map[string]bool{}}
	end := l.search(0, []*Model{m}, nil)
	if end == nil {
		return fmt.Errorf("no sequential order of the operations explains the results and the final state (%s):\n%s", l.why, l.history(final))
	}
	// everything agrees with what is stored, and nothing is left behind
	fc := &FaultCase{Ids: c.Ids, Rels: c.Rels, Nodes: c.Nodes, Subs: c.Subs, Ops: c.Ops}
	for _, th := range c.Threads {
		fc.T = append(fc.T, th...)
	}
	if err := end.compareAll(z, c.Ids, c.Rels); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	if err := sweepAll(z, end, fc); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	if err := recreate(z, fc, end, fc.definitions()); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	overlap := false
	for i, a := range mods {
		for _, b := range mods[:i] {
			if a.inv < b.resp && b.inv < a.resp && a.op.target() == b.op.target() {
				overlap = true
			}
		}
	}
	together := map[string]bool{}
	for i, a := range reads {
		for _, b := range reads[:i] {
			if a.inv < b.resp && b.inv < a.resp && a.op.K == b.op.K {
				together[a.op.K] = true
			}
		}
	}
	for k := range together {
		st.label("together-%s", k)
	}
	st.NonTrivial = overlap || len(c.Sched) == 0 && len(together) > 0
	st.labelIf(overlap, "overlapping-modifications")
	st.labelIf(len(c.Sched) > 0, "controlled")
	st.labelIf(len(c.Sched) == 0, "free")
	st.labelIf(c.Mem, "library-store")
	st.labelIf(sch.forced > 0, "waited-for-locks")
	st.label("threads-%d", n)
	return nil
}

// state as it can be read
type state struct {
	pols map[string]*domain.PolicyRecord
	rels map[string]map[Rel]*domain.RelationshipRecord
}

func readState(z *Z, ids []string) (*state, error) {
	s := &state{map[string]*domain.PolicyRecord{}, map[string]map[Rel]*domain.RelationshipRecord{}}
	listed, err := z.List()
	if err != nil {
		return nil, err
	}
	for _, id := range listed {
		if s.pols[id] != nil {
			return nil, fmt.Errorf("policy %q listed twice", id)
		}
		rec, err := z.GetPol(id)
		if err != nil || rec == nil {
			return nil, fmt.Errorf("policy %q is listed, GetPolicy returned %v %v", id, rec, err)
		}
		s.pols[id] = rec
		recs, err := z.Find(id, anySelector())
		if err != nil {
			return nil, err
		}
		s.rels[id] = map[Rel]*domain.RelationshipRecord{}
		for _, rc := range recs {
			r, err := relFromProto(rc.GetRelationship())
			if err != nil {
				return nil, err
			}
			if s.rels[id][r] != nil {
				return nil, fmt.Errorf("policy %q lists %+v twice", id, r)
			}
			s.rels[id][r] = rc
		}
	}
	return s, nil
}

func (s *state) is(m *Model) error {
	if len(s.pols) != len(m.pols) {
		return fmt.Errorf("%d policies are stored, %d should be", len(s.pols), len(m.pols))
	}
	for id, p := range m.pols {
		rec := s.pols[id]
		if rec == nil {
			return fmt.Errorf("policy %q is missing", id)
		}
		if err := p.matches(rec); err != nil {
			return fmt.Errorf("policy %q: %w", id, err)
		}
		if len(s.rels[id]) != len(p.rels) {
			return fmt.Errorf("policy %q holds %d relationships, should hold %d", id, len(s.rels[id]), len(p.rels))
		}
		for r, x := range p.rels {
			if s.rels[id][r] == nil {
				return fmt.Errorf("policy %q lacks %+v", id, r)
			}
			if err := recordMatch(id, s.rels[id][r], r, x); err != nil {
				return err
			}
		}
	}
	return nil
}

type linearizer struct {
	c           *ConcCase
	mods, reads []*call
	final       *state
	failed      map[string]bool
	why         string
}

// search extends a sequential order of the modifying operations; states[k] is the state after the first k of them
func (l *linearizer) search(mask int, states []*Model, order []*call) *Model {
	cur := states[len(states)-1]
	if len(order) == len(l.mods) {
		if err := l.final.is(cur); err != nil {
			l.why = fmt.Sprintf("final state: %v", err)
			return nil
		}
		for _, r := range l.reads {
			if err := judgeRead(l.window(r, states, order), r); err != nil {
				l.why = fmt.Sprintf("%v: %v", r.op, err)
				return nil
			}
		}
		return cur
	}
	for i, k := range l.mods {
		if mask&(1<<i) != 0 {
			continue
		}
		ready := true
		for j, p := range l.mods {
			if mask&(1<<j) == 0 && j != i && p.resp < k.inv {
				ready = false
			}
		}
		if !ready {
			continue
		}
		next := cur.clone()
		ok := next.apply(k.op, k.t0, k.t1)
		if err := next.judge(cur, k.op, ok, k.res, k.err); err != nil {
			if l.why == "" {
				l.why = fmt.Sprintf("%v: %v", k.op, err)
			}
			continue
		}
		if end := l.search(mask|1<<i, append(states[:len(states):len(states)], next), append(order[:len(order):len(order)], k)); end != nil {
			return end
		}
	}
	return nil
}

// window lists the states a read may have seen
func (l *linearizer) window(r *call, states []*Model, order []*call) []*Model {
	lo, hi := 0, len(order)
	for i, k := range order {
		if k.resp < r.inv {
			lo = i + 1
		}
	}
	for i := len(order) - 1; i >= 0; i-- {
		if order[i].inv > r.resp {
			hi = i
		}
	}
	return states[lo : hi+1]
}

func (l *linearizer) history(final *state) string {
	s := ""
	for _, cs := range [][]*call{l.mods, l.reads} {
		for _, k := range cs {
			s += fmt.Sprintf("  [%d,%d] %v => %.300v %v\n", k.inv, k.resp, k.op, k.res, k.err)
		}
	}
	for id := range final.pols {
		s += fmt.Sprintf("  at the end: policy %q, %d relationships, app data %q\n", id, len(final.rels[id]), final.pols[id].GetAppData())
	}
	return s
}

// judgeRead judges a read given the states which it may have seen
func judgeRead(win []*Model, r *call) error {
	if isPanic(r.err) {
		return r.err
	}
	o := r.op
	anyState := func() error {
		var last error
		for _, m := range win {
			pre := m.clone()
			if last = m.judge(pre, o, pre.apply(o, r.t0, r.t1), r.res, r.err); last == nil {
				return nil
			}
		}
		return last
	}
	if r.err != nil || o.K == "getpol" || o.K == "get" {
		if o.K == "explain" || o.K == "expand" || o.K == "dump" {
			return nil
		}
		if o.K == "check" && len(win) > 1 {
			return judgeCheck(win, r)
		}
		return anyState()
	}
	switch x := r.res.(type) {
	case *api.ListPolicyIdsResponse:
		listed := map[string]bool{}
		for _, rec := range x.GetRecords() {
			if listed[rec.GetId()] {
				return fmt.Errorf("%q listed twice", rec.GetId())
			}
			listed[rec.GetId()] = true
			some := false
			for _, m := range win {
				some = some || m.pols[rec.GetId()] != nil
			}
			if !some {
				return fmt.Errorf("lists %q, which does not exist", rec.GetId())
			}
		}
		for id := range win[0].pols {
			all := true
			for _, m := range win {
				all = all && m.pols[id] != nil
			}
			if all && !listed[id] {
				return fmt.Errorf("does not list %q", id)
			}
		}
	case *api.FindRelationshipRecordsResponse:
		valid := false
		for _, m := range win {
			p := m.pols[o.P]
			valid = valid || p != nil && o.Sel.valid(p.pol)
		}
		if !valid {
			return fmt.Errorf("succeeded, an error was due")
		}
		got := map[Rel]bool{}
		for _, rec := range x.GetResult().GetRecords() {
			q, err := relFromProto(rec.GetRelationship())
			if err != nil {
				return err
			}
			if got[q] {
				return fmt.Errorf("%+v returned twice", q)
			}
			got[q] = true
			some := false
			for _, m := range win {
				if p := m.pols[o.P]; p != nil && p.rels[q] != nil && o.Sel.matches(q) {
					some = some || recordMatch(o.P, rec, q, p.rels[q]) == nil
				}
			}
			if !some {
				return fmt.Errorf("returned %v, which was not stored at any time during the call", rec)
			}
		}
		if p := win[0].pols[o.P]; p != nil {
			for q := range p.rels {
				all := o.Sel.matches(q)
				for _, m := range win {
					all = all && m.pols[o.P] != nil && m.pols[o.P].rels[q] != nil
				}
				if all && !got[q] {
					return fmt.Errorf("did not return %+v", q)
				}
			}
		}
	case *api.CheckResponse:
		if len(win) == 1 {
			return anyState()
		}
		return judgeCheck(win, r)
	}
	return nil
}

// judgeCheck bounds a Check which overlaps modifications of the policy's relationships
func judgeCheck(win []*Model, r *call) error {
	o := r.op
	p := win[0].pols[o.P]
	upper, lower := map[Rel]bool{}, map[Rel]bool{}
	for i, m := range win {
		q := m.pols[o.P]
		if (q == nil) != (p == nil) {
			return nil
		}
		if q == nil {
			continue
		}
		if !proto.Equal(q.pol.Proto(), p.pol.Proto()) {
			return nil
		}
		for x := range q.rels {
			upper[x] = true
			if i == 0 {
				lower[x] = true
			}
		}
		for x := range lower {
			if q.rels[x] == nil {
				delete(lower, x)
			}
		}
	}
	if p == nil {
		if r.err == nil {
			return fmt.Errorf("answered %v for a policy which does not exist", r.res)
		}
		return nil
	}
	g := newGraph(p.pol, keysOf(upper))
	g.explore(*o.N)
	if g.undef[*o.N] {
		if r.err == nil {
			return fmt.Errorf("answered %v for a relation which is not defined", r.res)
		}
		return nil
	}
	if r.err != nil {
		if g.err[*o.N] {
			return nil
		}
		return fmt.Errorf("failed: %w", r.err)
	}
	if g.err[*o.N] || p.pol.hasDiff() {
		return nil
	}
	got := r.res.(*api.CheckResponse).GetResult().GetAuthorized()
	if got && !g.members(*o.E)[*o.N] {
		return fmt.Errorf("granted, though no relationships during the call grant it")
	}
	h := newGraph(p.pol, keysOf(lower))
	h.explore(*o.N)
	if !got && h.members(*o.E)[*o.N] {
		return fmt.Errorf("denied, though relationships present all the time grant it")
	}
	return nil
}

func keysOf(m map[Rel]bool) []Rel {
	var out []Rel
	for r := range m {
		out = append(out, r)
	}
	return sortedRels(out)
}

func (e *Expr) hasDiff() bool {
	return e != nil && (e.Op == "-" || e.L.hasDiff() || e.R.hasDiff())
}

func (p Pol) hasDiff() bool {
	for _, r := range p.Res {
		for _, d := range r.Rels {
			if d.E.hasDiff() {
				return true
			}
		}
	}
	return false
}
