package harness

import (
	"fmt"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/sourcenetwork/zanzi/pkg/api"
)

// FaultCase: a history, then operations during which the store or the process fails
type FaultCase struct {
	Ids   []string `json:"ids"`
	Rels  []Rel    `json:"rels"`
	Nodes []Node   `json:"nodes"`
	Subs  []Ent    `json:"subs"`
	Ops   []Op     `json:"ops"`
	T     []Op     `json:"t"`  // operations interrupted in turn
	K2    int      `json:"k2"` // second interruption
	// Bulk further relationships are in the policy of the first of them
	Bulk int `json:"bulk,omitempty"`
}

func genFault(t *rapid.T, kinds map[string]int, nT int) FaultCase {
	o := histOpts{ids: rapid.IntRange(1, 3).Draw(t, "nids"), nasty: 25, restrict: chance(t, 35, "restrict"), variants: 2, rels: 7,
		kinds: map[string]int{"set": 16, "del": 3, "create": 1, "update": 1, "delpol": 1, "delsel": 1}}
	v := genVocab(t, o)
	c := FaultCase{Ids: v.Ids, Rels: v.Rels, Nodes: v.U.nodes(), Subs: v.U.entities(), Ops: genOps(t, v, o, 4, 16)}
	o.kinds = kinds
	n := rapid.IntRange(1, nT).Draw(t, "nT")
	for i := 0; i < n; i++ {
		c.T = append(c.T, rapid.Custom(func(t *rapid.T) Op {
			o := genOp(t, v, o)
			if o.Sel != nil && chance(t, 60, "broad") {
				o.Sel = &Sel{O: pick(t, []string{"any", "res"}, "bo"), R: "any", S: pick(t, []string{"any", "any", "res"}, "bs"), OE: o.Sel.OE, SS: o.Sel.SS}
			}
			return o
		}).Draw(t, "T"))
	}
	c.K2 = rapid.IntRange(0, 12).Draw(t, "k2")
	if rapid.IntRange(0, 79).Draw(t, "bulk") == 79 {
		c.Bulk = pick(t, []int{17, 33, 33, 65, 101, 129}, "nbulk")
		c.T[0] = Op{K: "delpol", P: pick(t, c.Ids, "bulkid")}
		if chance(t, 40, "bulksel") {
			c.T[0] = Op{K: "delsel", P: c.T[0].P, Sel: &Sel{O: "any", R: "any", S: "any"}}
		}
	}
	return c
}

func init() {
	register("C16", 3600, 60000,
		"Case: a history of up to 19 operations, then 1-3 modifying operations, each run once to log its store writes. For every number of completed writes (0 to all) the store is put in the state a crash there leaves, a new instance is opened, and judged: everything readable, data not touched by the operation intact, touched data old or new, get and listing consistent, every Check equal to the reference over the listed relationships; then, from copies of that state, (a) the operation is repeated, also with a second crash during the repetition, and must reach the state it would have brought, (b) everything is deleted by selector and nothing may be granted, (c) every policy is deleted and created again and must be empty. Non-trivial: some operation with at least two writes was interrupted between them.",
		func(t *rapid.T) FaultCase {
			return genFault(t, map[string]int{"set": 6, "del": 4, "delpol": 5, "delsel": 5, "update": 2, "create": 2}, 3)
		}, runC16)
	register("C17", 3000, 50000,
		"Case: a history of up to 19 operations, then 1-3 operations of any kind, each run once to count its store accesses (reads, writes, iterator openings and steps). For every access, from copies of the state, the operation runs with that access failing (once; from then on; for writes also failing after taking effect): it must return an error. Then the store works again and the same instance is judged as in C16, and the operation is repeated. Non-trivial: some operation with at least three accesses was made to fail at each.",
		func(t *rapid.T) FaultCase {
			return genFault(t, map[string]int{"set": 5, "del": 3, "delpol": 3, "delsel": 3, "update": 2, "create": 2, "getpol": 1, "list": 2, "get": 2, "find": 3, "check": 5, "explain": 2, "expand": 2, "dump": 2}, 3)
		}, runC17)
}

// touches: the relationship may be changed by the operation
func (o Op) touches(pol string, r Rel) bool {
	if o.target() != pol {
		return false
	}
	switch o.K {
	case "set", "del":
		return *o.R == r
	case "delsel":
		return o.Sel.matches(r)
	case "delpol":
		return true
	}
	return false
}

func (o Op) touchesPol(pol string) bool {
	return o.target() == pol && (o.K == "create" || o.K == "update" || o.K == "delpol")
}

// judgeInterrupted judges the state an interrupted operation left, given the states before and after it.
// It returns a model of the state found.
func judgeInterrupted(z *Z, c *FaultCase, o Op, pre, post *Model) (*Model, error) {
	now := newModel()
	listed, err := z.List()
	if err != nil {
		return nil, fmt.Errorf("ListPolicyIds: %w", err)
	}
	for i, id := range listed {
		if i > 0 && listed[i-1] == id {
			return nil, fmt.Errorf("policy %q listed twice", id)
		}
	}
	all := map[string]bool{}
	for _, id := range c.Ids {
		all[id] = true
	}
	for _, id := range listed {
		all[id] = true
	}
	for id := range pre.pols {
		all[id] = true
	}
	for _, id := range sortedKeys(all) {
		rec, err := z.GetPol(id)
		if err != nil {
			return nil, fmt.Errorf("GetPolicy %q: %w", id, err)
		}
		if (rec != nil) != contains(listed, id) {
			return nil, fmt.Errorf("policy %q: listed %v, GetPolicy returned %v", id, contains(listed, id), rec)
		}
		a, b := pre.pols[id], post.pols[id]
		matches := func(p *mPol) bool {
			if p == nil || rec == nil {
				return p == nil && rec == nil
			}
			return p.matches(rec) == nil
		}
		var is *mPol
		switch {
		case matches(a):
			is = a
		case o.touchesPol(id) && matches(b):
			is = b
		default:
			return nil, fmt.Errorf("policy %q is %v; before: %v", id, rec, a)
		}
		recs, err := z.Find(id, anySelector())
		if is == nil {
			if isPanic(err) || len(recs) > 0 {
				return nil, fmt.Errorf("policy %q does not exist, FindRelationshipRecords returned %v %v", id, recs, err)
			}
			continue
		}
		if err != nil {
			return nil, fmt.Errorf("FindRelationshipRecords %q: %w", id, err)
		}
		q := *is
		q.rels = map[Rel]*mRel{}
		now.pols[id] = &q
		for _, rc := range recs {
			r, err := relFromProto(rc.GetRelationship())
			if err != nil {
				return nil, err
			}
			if q.rels[r] != nil {
				return nil, fmt.Errorf("policy %q: relationship %+v listed twice", id, r)
			}
			var ra, rb *mRel
			if a != nil {
				ra = a.rels[r]
			}
			if b != nil {
				rb = b.rels[r]
			}
			switch {
			case ra != nil && recordMatch(id, rc, r, ra) == nil:
				q.rels[r] = ra
			case o.touches(id, r) && rb != nil && recordMatch(id, rc, r, rb) == nil:
				q.rels[r] = rb
			default:
				return nil, fmt.Errorf("policy %q lists %v, which is neither as before nor as after the operation", id, rc)
			}
		}
		if a != nil {
			for r := range a.rels {
				stays := b != nil && b.rels[r] != nil
				if q.rels[r] == nil && (stays || !o.touches(id, r)) {
					return nil, fmt.Errorf("policy %q: relationship %+v is gone", id, r)
				}
			}
		}
	}
	// get agrees with the listing, for what is and what may be
	if err := now.compareAll(z, c.Ids, c.Rels); err != nil {
		return nil, err
	}
	// what is granted follows from what is listed
	if err := sweepAll(z, now, c); err != nil {
		return nil, err
	}
	return now, nil
}

func sweepAll(z *Z, m *Model, c *FaultCase) error {
	for _, id := range m.ids() {
		p := m.pols[id]
		if err := checkSweep(z, id, p.pol, p.list(), c.Nodes, c.Subs, 16); err != nil {
			return fmt.Errorf("policy %q: %w", id, err)
		}
	}
	return nil
}

// repeat runs the operation again after its interruption: the state must be the one it would have brought
func repeat(z *Z, c *FaultCase, o Op, now, post *Model) error {
	resp, err := z.do(o)
	if isPanic(err) {
		return err
	}
	done := o.K == "create" && now.pols[o.Pol.Id] != nil // it had taken effect
	if err != nil && !done {
		return fmt.Errorf("the repeated operation failed: %w", err)
	}
	if o.K == "create" && err == nil && done {
		return fmt.Errorf("a policy which exists was created again: %v", resp)
	}
	if o.K == "create" && err == nil {
		post.pols[o.Pol.Id].created = resp.(*api.CreatePolicyResponse).GetRecord().GetCreatedAt().AsTime()
	}
	for id, p := range post.pols {
		if q := now.pols[id]; q != nil && o.K == "create" && id == o.Pol.Id {
			p.created = q.created
		}
		for rel, r := range p.rels {
			if o.K == "set" && id == o.P && rel == *o.R {
				r.before, r.seen = time.Now(), time.Time{}
			}
		}
	}
	if err := post.compareAll(z, c.Ids, c.Rels); err != nil {
		return fmt.Errorf("after repeating it: %w", err)
	}
	if err := dumpAll(z, post); err != nil {
		return fmt.Errorf("after repeating it: %w", err)
	}
	return sweepAll(z, post, c)
}

// dumpAll compares the dumps of all policies
func dumpAll(z *Z, m *Model) error {
	for _, id := range m.ids() {
		dot, err := z.Dump(id)
		if err != nil {
			return fmt.Errorf("policy %q: DumpRelationships: %w", id, err)
		}
		if err := judgeDump(dot, m.pols[id].list()); err != nil {
			return fmt.Errorf("policy %q: %w", id, err)
		}
	}
	return nil
}

// deleteEverything deletes all relationships through the API: nothing may be granted afterwards that needs them
func deleteEverything(z *Z, c *FaultCase, now *Model) error {
	m := now.clone()
	for _, id := range m.ids() {
		n, err := z.DelSel(id, anySelector())
		if err != nil {
			return fmt.Errorf("DeleteRelationships %q: %w", id, err)
		}
		if n < uint64(len(m.pols[id].rels)) {
			return fmt.Errorf("DeleteRelationships %q reported %d, %d are listed", id, n, len(m.pols[id].rels))
		}
		m.pols[id].rels = map[Rel]*mRel{}
	}
	if err := m.compareAll(z, c.Ids, c.Rels); err != nil {
		return fmt.Errorf("after deleting all relationships: %w", err)
	}
	if err := sweepAll(z, m, c); err != nil {
		return fmt.Errorf("after deleting all relationships: %w", err)
	}
	return nil
}

// recreate deletes all policies and creates them again: they must be empty
func recreate(z *Z, c *FaultCase, now *Model, defs map[string]Pol) error {
	m := newModel()
	for _, id := range sortedKeys(defs) {
		found, _, err := z.DeletePol(id)
		if err != nil {
			return fmt.Errorf("DeletePolicy %q: %w", id, err)
		}
		if found != (now.pols[id] != nil) {
			return fmt.Errorf("DeletePolicy %q reported found=%v", id, found)
		}
		p := defs[id]
		if err := m.step(z, Op{K: "create", Pol: &p}); err != nil {
			return fmt.Errorf("creating again: %w", err)
		}
	}
	if err := m.compareAll(z, c.Ids, c.Rels); err != nil {
		return fmt.Errorf("after creating the policies again: %w", err)
	}
	if err := sweepAll(z, m, c); err != nil {
		return fmt.Errorf("after creating the policies again: %w", err)
	}
	return nil
}

// definitions: for every id, one definition it had
func (c *FaultCase) definitions() map[string]Pol {
	out := map[string]Pol{}
	for _, ops := range [][]Op{c.Ops, c.T} {
		for _, o := range ops {
			if o.Pol != nil && o.Pol.valid() {
				out[o.Pol.Id] = *o.Pol
			}
		}
	}
	return out
}

// settle sets creation times in the model from what the system reports
func (m *Model) settle(z *Z) error {
	for id, p := range m.pols {
		rec, err := z.GetPol(id)
		if err != nil || rec == nil {
			return fmt.Errorf("GetPolicy %q: %v %v", id, rec, err)
		}
		p.created = rec.GetCreatedAt().AsTime()
	}
	return nil
}

func runC16(c FaultCase, st *Stats) error {
	base := newMapKV()
	pre := newModel()
	z := newZOn(base)
	for i, o := range c.Ops {
		if err := pre.step(z, o); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
	}
	max, err := c.fill(z, pre, st)
	if err != nil {
		return err
	}
	defs := c.definitions()
	for ti, o := range c.T {
		// log the writes of the operation
		logged := base.clone()
		logged.log = true
		post := pre.clone()
		if err := post.step(newZOn(logged), o); err != nil {
			return fmt.Errorf("operation %d: %w", ti, err)
		}
		ws := logged.writes
		if len(ws) > 1 {
			st.NonTrivial = true
		}
		st.label("op-%s", o.K)
		st.labelIf(len(ws) > 0, "op-"+o.K+"-writes")
		ks := points(len(ws), max)
		for _, k := range ks {
			crashed := base.clone()
			crashed.applyWrites(ws[:k])
			if err := judgeCrash(&c, o, crashed, pre, post, defs, c.K2); err != nil {
				return fmt.Errorf("operation %d, %v, interrupted after %d of %d store writes: %w", ti, o, k, len(ws), err)
			}
			st.label("crash-points")
		}
		// go on as if nothing had happened
		base, pre = logged, post
		base.log, base.writes = false, nil
	}
	return nil
}

// fill adds the bulk and tells how many points of an operation to look at
func (c *FaultCase) fill(z *Z, m *Model, st *Stats) (int, error) {
	if c.Bulk == 0 || len(c.T) == 0 || m.pols[c.T[0].target()] == nil {
		return 24, nil
	}
	st.label("bulk")
	return 12, bulk(z, m, c.T[0].target(), c.Bulk)
}

// points lists up to max values of 0..n, the first and last ones among them
func points(n, max int) []int {
	var out []int
	end := max * 2 / 5
	for k := 0; k <= n; k++ {
		if n < max || k < end || k > n-end || (k-end)%((n-2*end)/(max-2*end)+1) == 0 {
			out = append(out, k)
		}
	}
	return out
}

func judgeCrash(c *FaultCase, o Op, crashed *MapKV, pre, post *Model, defs map[string]Pol, k2 int) error {
	now, err := judgeInterrupted(newZOn(crashed.clone()), c, o, pre, post)
	if err != nil {
		return err
	}
	if opSucceeds(o, pre) {
		again := crashed.clone()
		again.log = true
		if err := repeat(newZOn(again), c, o, now, post.clone()); err != nil {
			return err
		}
		// a second crash, while repeating it
		if k2 > 0 && k2 <= len(again.writes) {
			twice := crashed.clone()
			twice.applyWrites(again.writes[:k2])
			now2, err := judgeInterrupted(newZOn(twice.clone()), c, o, pre, relaxed(post))
			if err != nil {
				return fmt.Errorf("interrupted again after %d store writes: %w", k2, err)
			}
			if err := repeat(newZOn(twice), c, o, now2, relaxed(post)); err != nil {
				return fmt.Errorf("interrupted again after %d store writes: %w", k2, err)
			}
		}
	}
	if err := deleteEverything(newZOn(crashed.clone()), c, now); err != nil {
		return err
	}
	if err := recreate(newZOn(crashed.clone()), c, now, defs); err != nil {
		return err
	}
	return nil
}

// relaxed: the same state with creation times not known
func relaxed(m *Model) *Model {
	out := m.clone()
	for _, p := range out.pols {
		p.created = time.Time{}
		for _, r := range p.rels {
			r.after, r.seen = time.Time{}, time.Time{}
		}
	}
	return out
}

func opSucceeds(o Op, pre *Model) bool { return pre.clone().apply(o, time.Now(), time.Now()) }

func runC17(c FaultCase, st *Stats) error {
	base := newMapKV()
	pre := newModel()
	z := newZOn(base)
	for i, o := range c.Ops {
		if err := pre.step(z, o); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
	}
	max, err := c.fill(z, pre, st)
	if err != nil {
		return err
	}
	defs := c.definitions()
	for ti, o := range c.T {
		n := 0
		var accesses []kvAccess
		clean := base.clone()
		clean.hook = func(a kvAccess) error { n++; accesses = append(accesses, a); return nil }
		post := pre.clone()
		cz := newZOn(clean)
		n, accesses = 0, nil // opening an instance may access the store
		if err := post.step(cz, o); err != nil {
			return fmt.Errorf("operation %d: %w", ti, err)
		}
		clean.hook = nil
		accesses = accesses[:n]
		if n >= 3 {
			st.NonTrivial = true
		}
		st.label("op-%s", o.K)
		for _, k := range points(n-1, max*5/3) {
			modes := []string{"once", "on"}
			if accesses[k].isWrite() {
				modes = append(modes, "applied")
			}
			for _, mode := range modes {
				if err := judgeFault(&c, o, base.clone(), k, mode, pre, post, defs); err != nil {
					return fmt.Errorf("operation %d, %v, access %d of %d (%s) fails (%s): %w", ti, o, k, n, accesses[k].Kind, mode, err)
				}
				st.label("fault-%s-%s", accesses[k].Kind, mode)
			}
		}
		base, pre = clean, post
	}
	return nil
}

func judgeFault(c *FaultCase, o Op, kv *MapKV, k int, mode string, pre, post *Model, defs map[string]Pol) error {
	z := newZOn(kv)
	n, hit := -1, false
	kv.hook = func(a kvAccess) error {
		n++
		if n == k && mode != "applied" || n > k && mode == "on" {
			hit = true
			return &faultError{k}
		}
		return nil
	}
	kv.after = func(a kvAccess) error {
		if n == k && mode == "applied" {
			hit = true
			return &faultError{k}
		}
		return nil
	}
	resp, err := z.do(o)
	kv.hook, kv.after = nil, nil
	if isPanic(err) {
		return err
	}
	if !hit {
		return nil // the operation took another way
	}
	if err == nil {
		return fmt.Errorf("the operation succeeded: %.500s", protoText(resp))
	}
	if kv.open != 0 {
		return fmt.Errorf("%d iterators were left open", kv.open)
	}
	post = relaxed(post) // its times are those of another run
	now, err := judgeInterrupted(z, c, o, pre, post)
	if err != nil {
		return fmt.Errorf("afterwards: %w", err)
	}
	if !o.mutates() {
		if err := sameModels(now, pre); err != nil {
			return fmt.Errorf("a failed read changed the state: %w", err)
		}
		m := pre.clone()
		if err := m.step(z, o); err != nil {
			return fmt.Errorf("repeated: %w", err)
		}
		return nil
	}
	saved := kv.clone()
	if opSucceeds(o, pre) {
		if err := repeat(z, c, o, now, post.clone()); err != nil {
			return err
		}
	}
	if k%3 == 0 {
		if err := deleteEverything(newZOn(saved.clone()), c, now); err != nil {
			return err
		}
		return recreate(newZOn(saved), c, now, defs)
	}
	return nil
}

func sameModels(a, b *Model) error {
	if fmt.Sprintf("%q", a.ids()) != fmt.Sprintf("%q", b.ids()) {
		return fmt.Errorf("policies %q and %q", a.ids(), b.ids())
	}
	for id, p := range a.pols {
		if fmt.Sprintf("%q", p.list()) != fmt.Sprintf("%q", b.pols[id].list()) {
			return fmt.Errorf("relationships of %q differ", id)
		}
	}
	return nil
}

func protoText(m proto.Message) string { return fmt.Sprintf("%v", m) }
