package harness

import (
	"fmt"
	"os"

	"pgregory.net/rapid"

	"github.com/sourcenetwork/zanzi/pkg/api"
)

// HistCase is a history of operations on one instance
type HistCase struct {
	Ids  []string `json:"ids"`
	Rels []Rel    `json:"rels"` // relationships asked for after every step
	Ops  []Op     `json:"ops"`
	Wire bool     `json:"wire,omitempty"`
	// nodes and subjects checked at the end
	Nodes []Node `json:"nodes,omitempty"`
	Subs  []Ent  `json:"subs,omitempty"`
	// Many further policies
	Many int `json:"many,omitempty"`
	// Bulk relationships are set in every policy created
	Bulk int `json:"bulk,omitempty"`
	// Crowd policies hold the same relationship (C04)
	Crowd int `json:"crowd,omitempty"`
	// Own: the instance keeps its data in a store of its own (C04)
	Own string `json:"own,omitempty"`
}

// bulk sets many relationships in a policy
func bulk(z *Z, m *Model, id string, n int) error {
	p := m.pols[id].pol
	for _, rd := range p.Res {
		for _, d := range rd.Rels {
			for _, sr := range p.Res {
				if !p.admits(Rel{O: Ent{rd.Name, "x"}, Rel: d.Name, S: entity(sr.Name, "x")}) {
					continue
				}
				for i := 0; i < n; i++ {
					r := Rel{O: Ent{rd.Name, fmt.Sprintf("bulk%d", i%11)}, Rel: d.Name, S: entity(sr.Name, fmt.Sprintf("bulk-%d", i))}
					if err := m.put(z, id, r, []byte{byte(i)}); err != nil {
						return err
					}
				}
				return nil
			}
		}
	}
	return nil
}

// larger: sizes for the thorough tier only
var larger = func() []int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return []int{4200, 10100}
	}
	return nil
}()

// bulkSize: sizes which exceed likely limits of batches and pages, now and then large ones
func bulkSize(t *rapid.T) int {
	if chance(t, 6, "hugebulk") {
		return pick(t, append([]int{260, 520, 1030, 2060, 4200}, larger...), "nhugebulk")
	}
	return pick(t, []int{9, 17, 33, 65, 101, 129}, "nbulk")
}

func histCase(t *rapid.T, o histOpts, min, max int) HistCase {
	v := genVocab(t, o)
	return HistCase{Ids: v.Ids, Rels: v.Rels, Ops: genOps(t, v, o, min, max), Wire: chance(t, 25, "wire"),
		Nodes: v.U.nodes(), Subs: v.U.entities()}
}

func init() {
	register("C03", 18000, 300000,
		"Case: a history of up to 40 operations over 1-2 policies, mostly set/delete/get of relationships drawn from a pool which includes pairs differing in one component and names built to collide when joined; after every mutation the whole pool is read back by get and by listing, and compared with a map; the pool is also made by a RelationshipBuilder. Non-trivial: some set overwrote and some delete found its relationship.",
		func(t *rapid.T) HistCase {
			c := histCase(t, histOpts{ids: rapid.IntRange(1, 2).Draw(t, "nids"), nasty: 70, variants: 1, rels: 10,
				kinds: map[string]int{"set": 12, "del": 7, "get": 3, "find": 1, "delsel": 1}}, 0, 40)
			if chance(t, 2, "bulk") {
				c.Bulk = bulkSize(t)
			}
			return c
		},
		func(c HistCase, st *Stats) error {
			if err := judgeBuilt(c.Rels); err != nil {
				return err
			}
			return runHistory(c, st, func(k counters) bool { return k.overwritten > 0 && k.deleted > 0 })
		})
	register("C04", 8000, 150000,
		"Case: a history of up to 40 operations over 2-4 policies with similar or adversarial ids and the same relationships, including creation, deletion and re-creation of policies; after every mutation everything of every policy is compared with a model of separate policies, at the end Check answers and dumps of every policy too. 3 in 10 cases use an instance with a store of its own (by default, in memory, development configuration) next to another such instance, which must stay empty and then goes through the same history; 1 in 100 has 50-600 policies holding the same relationship. Non-trivial: at the end at least two policies exist and hold different relationships, and a policy with relationships was deleted or a relationship of one policy was also in another.",
		func(t *rapid.T) HistCase {
			c := histCase(t, histOpts{ids: rapid.IntRange(2, 4).Draw(t, "nids"), nasty: 75, variants: 2, rels: 6,
				kinds: map[string]int{"set": 14, "del": 3, "create": 4, "update": 1, "delpol": 3, "delsel": 2, "find": 1, "check": 2, "list": 1}}, 4, 40)
			if chance(t, 3, "bulk") {
				c.Bulk = bulkSize(t)
			}
			if chance(t, 1, "crowd") {
				c.Crowd = pick(t, []int{50, 300, 600}, "ncrowd")
			}
			c.Own = pick(t, []string{"", "", "", "", "", "", "", "default", "memory", "development"}, "own")
			return c
		}, runC04)
	register("C08", 9000, 160000,
		"Case: a history of up to 40 creates, updates, deletes, gets and listings of up to 6 policies (ids adversarial in half of the cases, definitions valid and invalid), with relationships in between; 1 in 8 cases has 60-260 further policies, 1 in 20 policies with up to 129 relationships each. Every response and, after every mutation, all stored policies and the listing are compared with a map. Non-trivial: at least one update, one deletion that found its policy and one operation that had to fail.",
		func(t *rapid.T) HistCase {
			o := histOpts{ids: rapid.IntRange(1, 6).Draw(t, "nids"), nasty: 50, variants: 3, rels: 4,
				kinds: map[string]int{"create": 8, "update": 6, "delpol": 5, "getpol": 3, "list": 3, "set": 4}}
			v := genVocab(t, o)
			c := HistCase{Ids: v.Ids, Rels: v.Rels, Wire: chance(t, 25, "wire")}
			v.Pols = append(v.Pols, mutatePol(t, pick(t, v.Pols, "mp")))
			c.Ops = genOps(t, v, o, 0, 40)
			if chance(t, 12, "many") {
				c.Many = rapid.IntRange(60, 260).Draw(t, "nmany")
				if chance(t, 3, "verymany") {
					c.Many = pick(t, append([]int{520, 1030, 2060}, larger...), "nverymany")
				}
			} else if chance(t, 5, "bulk") {
				c.Bulk = bulkSize(t)
			}
			return c
		},
		func(c HistCase, st *Stats) error {
			return runHistory(c, st, func(k counters) bool { return k.updated > 0 && k.polDeleted > 0 && k.failed > 0 })
		})
}

type counters struct{ overwritten, deleted, updated, polDeleted, polDeletedFull, failed int }

func runHistory(c HistCase, st *Stats, nontrivial func(counters) bool) error {
	z := newZ()
	z.Wire = c.Wire
	m := newModel()
	k, err := playHistory(z, m, c)
	if err != nil {
		return err
	}
	st.NonTrivial = nontrivial(k)
	labelOps(st, c.Ops)
	st.labelIf(k.failed > 0, "some-rejected")
	st.labelIf(c.Wire, "wire")
	st.labelIf(c.Many > 0, "many-policies")
	st.labelIf(c.Bulk > 0, "many-relationships")
	return nil
}

func playHistory(z *Z, m *Model, c HistCase) (counters, error) {
	var k counters
	for i := 0; i < c.Many; i++ {
		p := Pol{Id: fmt.Sprintf("many-%d", i*7919%5003), Res: []ResDef{{Name: "r"}}}
		if err := m.step(z, Op{K: "create", Pol: &p, D: []byte{byte(i)}}); err != nil {
			return k, err
		}
	}
	for i, o := range c.Ops {
		pre := m.cloneOf(o.target())
		if err := m.step(z, o); err != nil {
			return k, fmt.Errorf("step %d: %w", i, err)
		}
		k.count(pre, m, o)
		if o.K == "create" && c.Bulk > 0 && pre.pols[o.Pol.Id] == nil && m.pols[o.Pol.Id] != nil {
			if err := bulk(z, m, o.Pol.Id, c.Bulk); err != nil {
				return k, fmt.Errorf("after step %d: %w", i, err)
			}
		}
		if o.mutates() {
			var err error
			if c.Many > 0 {
				err = m.comparePol(z, o.target(), c.Rels)
			} else {
				err = m.compareAll(z, c.Ids, c.Rels)
			}
			if err != nil {
				return k, fmt.Errorf("after step %d (%v): %w", i, o, err)
			}
		}
	}
	return k, m.compareAll(z, c.Ids, c.Rels)
}

func (k *counters) count(pre, m *Model, o Op) {
	p := pre.pols[o.target()]
	switch o.K {
	case "set":
		if p != nil && p.rels[*o.R] != nil && p.pol.admits(*o.R) {
			k.overwritten++
		}
		if p == nil || !p.pol.admits(*o.R) {
			k.failed++
		}
	case "del":
		if p != nil && p.rels[*o.R] != nil {
			k.deleted++
		}
	case "delsel":
		if p != nil && len(m.pols[o.P].rels) < len(p.rels) {
			k.deleted++
		}
	case "create":
		if p != nil || !o.Pol.valid() {
			k.failed++
		}
	case "update":
		if p != nil && o.Pol.valid() {
			k.updated++
		} else {
			k.failed++
		}
	case "delpol":
		if p != nil {
			k.polDeleted++
			if len(p.rels) > 0 {
				k.polDeletedFull++
			}
		}
	}
}

// crowd: many policies with the same relationship, each with its own app data; a third of them is deleted
func crowd(z *Z, n int) error {
	r := Rel{Ent{"doc", "x"}, "r", entity("doc", "y")}
	id := func(i int) string { return fmt.Sprintf("crowd%d", i) }
	for i := 0; i < n; i++ {
		p := Pol{Id: id(i), Res: []ResDef{{Name: "doc", Rels: []RelDef{{Name: "r", E: this(), Rs: anyRestr}}}}}
		if _, err := z.Create(p, nil); err != nil {
			return fmt.Errorf("policy %d of many: %w", i, err)
		}
		if i%5 == 0 {
			continue
		}
		over, err := z.Set(p.Id, r, []byte(p.Id))
		if err != nil {
			return fmt.Errorf("relationship in policy %d of many: %w", i, err)
		}
		if over {
			return fmt.Errorf("the relationship of policy %d of many was there before", i)
		}
	}
	gone := func(i int) bool { return i%3 == 0 }
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i++ {
			resp, err := z.send(&api.GetRelationshipRequest{PolicyId: id(i), Relationship: r.Proto()})
			if isPanic(err) {
				return err
			}
			rec := resp.(*api.GetRelationshipResponse).GetRecord()
			want := i%5 != 0 && (round == 0 || !gone(i))
			if (rec != nil) != want || want && string(rec.GetAppData()) != id(i) {
				return fmt.Errorf("relationship of policy %d of many: %v, want one: %v", i, rec, want)
			}
		}
		for i := 0; i < n && round == 0; i++ {
			if gone(i) {
				resp, err := z.send(&api.DeletePolicyRequest{Id: id(i)})
				if err != nil {
					return fmt.Errorf("DeletePolicy %d of many: %w", i, err)
				}
				if got, want := resp.(*api.DeletePolicyResponse).GetRelationshipsRemoved(), i%5 != 0; (got == 1) != want || got > 1 {
					return fmt.Errorf("DeletePolicy %d of many removed %d relationships", i, got)
				}
			}
		}
	}
	return nil
}

func runC04(c HistCase, st *Stats) error {
	if c.Crowd > 0 {
		st.label("crowd")
		z := newZ()
		if err := crowd(z, c.Crowd); err != nil {
			return err
		}
	}
	z := newZ()
	var other *Z
	if c.Own != "" {
		z, other = newOwnZ(c.Own), newOwnZ(c.Own)
	}
	z.Wire = c.Wire
	m := newModel()
	k, err := playHistory(z, m, c)
	if err != nil {
		return err
	}
	if other != nil {
		st.label("own-store-" + c.Own)
		om := newModel()
		if err := om.compareAll(other, c.Ids, c.Rels); err != nil {
			return fmt.Errorf("another instance, which was not used: %w", err)
		}
		if _, err := playHistory(other, om, c); err != nil {
			return fmt.Errorf("another instance: %w", err)
		}
	}
	// answers and dumps of every policy
	shared := false
	for _, id := range m.ids() {
		p := m.pols[id]
		if err := checkSweep(z, id, p.pol, p.list(), c.Nodes, c.Subs, 40); err != nil {
			return fmt.Errorf("policy %q: %w", id, err)
		}
		dot, err := z.Dump(id)
		if err != nil {
			return fmt.Errorf("policy %q: DumpRelationships: %w", id, err)
		}
		if err := judgeDump(dot, p.list()); err != nil {
			return fmt.Errorf("policy %q: %w", id, err)
		}
		for _, other := range m.ids() {
			if other == id {
				continue
			}
			for r := range p.rels {
				if m.pols[other].rels[r] != nil {
					shared = true
				}
			}
		}
	}
	differ := false
	for _, a := range m.ids() {
		for _, b := range m.ids() {
			if fmt.Sprintf("%q", m.pols[a].list()) != fmt.Sprintf("%q", m.pols[b].list()) {
				differ = true
			}
		}
	}
	st.NonTrivial = differ && (shared || k.polDeletedFull > 0)
	st.labelIf(shared, "shared-relationship")
	st.labelIf(k.polDeletedFull > 0, "policy-with-relationships-deleted")
	labelOps(st, c.Ops)
	return nil
}

// checkSweep asks Check for nodes and subjects and compares with the reference
func checkSweep(z *Z, id string, p Pol, rels []Rel, nodes []Node, subs []Ent, max int) error {
	pr := p
	pr.Id = id
	gc := &GraphCase{Pol: pr, Rels: rels}
	step := 1
	if len(nodes)*len(subs) > max {
		step = len(nodes)*len(subs)/max + 1
	}
	g := newGraph(p, rels)
	g.explore(nodes...)
	uns := g.unstratified()
	mem := map[Ent][2]map[Node]bool{}
	i := 0
	for _, n := range nodes {
		for _, s := range subs {
			i++
			if i%step != 0 {
				continue
			}
			got, err := z.Check(gc.Pol.Id, n, s)
			switch {
			case isPanic(err):
				return err
			case g.undef[n]:
				if err == nil {
					return fmt.Errorf("Check(%+v, %+v) = %v, the relation is not defined", n, s, got)
				}
				continue
			case err != nil:
				if g.err[n] {
					continue
				}
				return fmt.Errorf("Check(%+v, %+v): %w", n, s, err)
			case uns[n]:
				continue
			}
			if mem[s][0] == nil {
				must, may := g.decide(s)
				mem[s] = [2]map[Node]bool{must, may}
			}
			if err := judgeDecision(n, mem[s][0], mem[s][1], got); err != nil {
				return fmt.Errorf("Check(%+v, %+v) %w", n, s, err)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// C05 selectors
// ---------------------------------------------------------------------------

type SelCase struct {
	Pol  Pol    `json:"pol"`
	Rels []Rel  `json:"rels"`
	Sels []Sel  `json:"sels"`
	Del  []bool `json:"del"`
	Wire bool   `json:"wire,omitempty"`
	Bulk int    `json:"bulk,omitempty"`
	// Cx: the contexts of the calls with the selector are found cancelled from the Cx-th time on that they are asked; 0 is never
	Cx []int `json:"cx,omitempty"`
}

func init() {
	register("C05", 20000, 300000,
		"Case: up to 40 relationships (all subject kinds; 1 in 20 policies has 6-65 further resources, relations or restrictions; names often adversarial; 1 in 10 cases with 70-300 more) and 1-12 selectors (every combination of object any/resource/object, relation any/name, subject any/resource/exact; some with missing parts or undefined names), each used to find and some then to delete, sent directly or through the wire encoding; results, counts and the remaining state are compared with a filter; selectors made by a SelectorBuilder must be the same. Non-trivial: some selector other than the universal one matched a non-empty proper subset.",
		func(t *rapid.T) SelCase {
			nasty := chance(t, 55, "nasty")
			po := polOpts{nasty: nasty, maxRes: 3, maxRel: 3, maxIds: 4, depth: 1}
			u := genUniverse(t, po)
			c := SelCase{Pol: genPol(t, genPolId(t), u, po), Wire: chance(t, 50, "wire")}
			inflate(t, &c.Pol, 5)
			c.Rels = genRels(t, u, 1, 30, "rels")
			v := Vocab{U: u, Rels: c.Rels}
			for i := rapid.IntRange(0, 6).Draw(t, "nnear"); i > 0; i-- {
				r := nearRel(t, u, pick(t, c.Rels, "b"))
				if c.Pol.admits(r) {
					c.Rels = append(c.Rels, r)
				}
			}
			n := rapid.IntRange(1, 12).Draw(t, "nsel")
			for i := 0; i < n; i++ {
				c.Sels = append(c.Sels, genSel(t, v))
				c.Del = append(c.Del, chance(t, 30, "del"))
				cx := 0
				if chance(t, 4, "cancelled") {
					cx = 1 + uni(t, 6, "cx")
				}
				c.Cx = append(c.Cx, cx)
			}
			if chance(t, 10, "bulk") {
				c.Bulk = rapid.IntRange(70, 300).Draw(t, "nbulk")
				if chance(t, 4, "hugebulk") {
					c.Bulk = pick(t, append([]int{520, 1030, 2060, 4200}, larger...), "nhugebulk")
					if rare(t, 4, "hugestbulk") {
						c.Bulk = 10100
					}
				}
			}
			return c
		},
		runC05)
}

func runC05(c SelCase, st *Stats) error {
	if err := judgeBuiltSel(c.Sels); err != nil {
		return err
	}
	z := newZ()
	z.Wire = c.Wire
	m := newModel()
	p := c.Pol
	if err := m.step(z, Op{K: "create", Pol: &p}); err != nil {
		return err
	}
	// a second policy with the same relationships, which must not be affected
	other := c.Pol
	other.Id += "2"
	if err := m.step(z, Op{K: "create", Pol: &other}); err != nil {
		return err
	}
	rels := append([]Rel(nil), c.Rels...)
	for i := 0; i < c.Bulk; i++ {
		r := c.Rels[i%len(c.Rels)]
		r.O.I = fmt.Sprintf("bulk%d", i)
		rels = append(rels, r)
	}
	for i := range rels {
		if err := m.put(z, p.Id, rels[i], []byte{byte(i)}); err != nil {
			return err
		}
		if i < len(c.Rels) {
			if err := m.step(z, Op{K: "set", P: other.Id, R: &rels[i]}); err != nil {
				return err
			}
		}
	}
	for i := range c.Sels {
		s, cx := c.Sels[i], 0
		if i < len(c.Cx) {
			cx = c.Cx[i]
		}
		st.labelIf(cx > 0, "cancelled")
		if s.complete() && s != anySel {
			n := 0
			for r := range m.pols[p.Id].rels {
				if s.matches(r) {
					n++
				}
			}
			if n > 0 && n < len(m.pols[p.Id].rels) {
				st.NonTrivial = true
				st.label("sel-%s-%s-%s", s.O, s.R, s.S)
			}
		}
		st.labelIf(!s.valid(p), "invalid-selector")
		if err := m.step(z, Op{K: "find", P: p.Id, Sel: &s, Cx: cx}); err != nil {
			return fmt.Errorf("selector %d: %w", i, err)
		}
		if c.Del[i] {
			if err := m.step(z, Op{K: "delsel", P: p.Id, Sel: &s, Cx: cx}); err != nil {
				return fmt.Errorf("selector %d: %w", i, err)
			}
			st.label("deleted")
			if err := m.compareAll(z, nil, c.Rels); err != nil {
				return fmt.Errorf("after deleting by selector %d %+v: %w", i, s, err)
			}
		}
	}
	return m.compareAll(z, nil, c.Rels)
}

// ---------------------------------------------------------------------------
// C06 admission
// ---------------------------------------------------------------------------

type AdmitCase struct {
	Pol  Pol   `json:"pol"`
	Rels []Rel `json:"rels"`
	Wire bool  `json:"wire,omitempty"`
	// the policy is updated before some of the candidates, which are repeated: what was admitted may not be any more
	Upds []PolUpd `json:"upds,omitempty"`
}

type PolUpd struct {
	At  int `json:"at"`
	Pol Pol `json:"pol"`
}

func init() {
	register("C06", 24000, 400000,
		"Case: a policy whose relations carry universal, listed, empty or absent subject restrictions (1 in 10 padded with 6-65 further resources, relations or restrictions) and up to 40 candidate relationships: drawn over the vocabulary, differing in one component from admitted ones, or with a missing or undefined part; in a third of the cases the policy is updated to other restrictions or fewer resources in between and candidates are repeated, so that stored relationships may be inadmissible by then; each set is compared with the admission rule, and the whole state with the model after it. Non-trivial: the case has both accepted relationships and ones rejected by a restriction though all their names are defined.",
		func(t *rapid.T) AdmitCase {
			po := polOpts{nasty: chance(t, 40, "nasty"), restrict: true, maxRes: 3, maxRel: 3, maxIds: 2, depth: 1}
			u := genUniverse(t, po)
			c := AdmitCase{Pol: genPol(t, "p", u, po), Wire: chance(t, 30, "wire")}
			inflate(t, &c.Pol, 10)
			c.Rels = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Rel {
				r := genRel(t, u, "")
				if chance(t, 50, "aim") {
					aimRel(t, c.Pol, u, &r)
				}
				if chance(t, 15, "break") {
					breakRel(t, u, &r)
				}
				return r
			}), 1, 40).Draw(t, "rels")
			if chance(t, 35, "updates") {
				for k := rapid.IntRange(1, 2).Draw(t, "nupd"); k > 0; k-- {
					u2 := u
					if chance(t, 30, "shrunk") {
						u2.Res = u.Res[:rapid.IntRange(1, len(u.Res)).Draw(t, "nres2")]
					}
					c.Upds = append(c.Upds, PolUpd{At: rapid.IntRange(0, len(c.Rels)).Draw(t, "at"), Pol: genPol(t, "p", u2, po)})
				}
				for k := rapid.IntRange(1, 12).Draw(t, "nrep"); k > 0 && len(c.Rels) < 50; k-- {
					c.Rels = append(c.Rels, pick(t, c.Rels, "rep"))
				}
			}
			return c
		},
		func(c AdmitCase, st *Stats) error {
			z := newZ()
			z.Wire = c.Wire
			m := newModel()
			if err := m.step(z, Op{K: "create", Pol: &c.Pol}); err != nil {
				return err
			}
			acc, rej := 0, 0
			for i := range c.Rels {
				for _, u := range c.Upds {
					if u.At == i {
						if err := m.step(z, Op{K: "update", Pol: &u.Pol}); err != nil {
							return err
						}
						c.Pol = u.Pol
						st.label("updated")
					}
				}
				r := c.Rels[i]
				o := Op{K: "set", P: c.Pol.Id, R: &r, D: []byte{byte(i)}}
				if err := m.step(z, o); err != nil {
					return fmt.Errorf("relation %+v: %w", c.Pol.find(r.O.R, r.Rel), err)
				}
				if c.Pol.admits(r) {
					acc++
					st.label("accepted-%s", r.S.K)
				} else {
					st.labelIf(m.pols[c.Pol.Id].rels[r] != nil, "stored-but-inadmissible")
					if r.complete() && c.Pol.find(r.O.R, r.Rel) != nil && c.Pol.hasRes(r.S.R) {
						rej++
						st.label("restricted-%s", r.S.K)
					} else {
						st.label("rejected-names")
					}
					if err := m.compareAll(z, nil, c.Rels); err != nil {
						return fmt.Errorf("after the rejected relationship %+v: %w", r, err)
					}
				}
			}
			// policies which do not exist accept nothing
			for _, id := range []string{"", "p2", "P"} {
				if err := m.step(z, Op{K: "set", P: id, R: &c.Rels[0]}); err != nil {
					return err
				}
			}
			st.NonTrivial = acc > 0 && rej > 0
			return m.compareAll(z, []string{"", "p2", "P"}, c.Rels)
		})
}

// aimRel makes the subject of a relationship one the restriction names, perhaps with one detail off
func aimRel(t *rapid.T, p Pol, u Universe, r *Rel) {
	d := p.find(r.O.R, r.Rel)
	if d == nil || len(d.Rs.Items) == 0 {
		return
	}
	it := pick(t, d.Rs.Items, "item")
	if len(u.Ids[it.R]) == 0 {
		return
	}
	id := pick(t, u.Ids[it.R], "id")
	switch k := uni(t, 6, "aimk"); {
	case it.Set && k < 4:
		r.S = entitySet(it.R, id, it.Rel)
	case !it.Set && k < 2:
		r.S = entity(it.R, id)
	case !it.Set && k < 4:
		r.S = wildcard(it.R)
	case len(u.Rels[it.R]) > 0:
		r.S = entitySet(it.R, id, pick(t, u.Rels[it.R], "rel"))
	default:
		r.S = pick(t, []Sub{entity(it.R, id), wildcard(it.R)}, "w")
	}
}

// breakRel removes or replaces a component
func breakRel(t *rapid.T, u Universe, r *Rel) {
	switch uni(t, 12, "brk") {
	case 0:
		r.O.R = ""
	case 1:
		r.O.I = ""
	case 2:
		r.Rel = ""
	case 3:
		r.S.R = ""
	case 4:
		if r.S.K != "w" {
			r.S.I = ""
		}
	case 5:
		r.S.Rel = ""
	case 6:
		r.S = Sub{}
	case 7:
		r.O.R += "x"
	case 8:
		r.Rel += "x"
	case 9:
		r.S.R += "x"
	case 10:
		if r.S.K == "s" {
			r.S.Rel += "x"
		}
	case 11: // a relation of another resource
		if all := u.allRels(); len(all) > 0 {
			r.Rel = pick(t, all, "other")
		}
	}
}

// ---------------------------------------------------------------------------
// C07 policy validity
// ---------------------------------------------------------------------------

// mutatePol makes one change to a policy, which may or may not make it invalid
func mutatePol(t *rapid.T, p Pol) Pol {
	q := p
	q.Res = nil
	for _, r := range p.Res {
		rr := r
		rr.Rels = append([]RelDef(nil), r.Rels...)
		q.Res = append(q.Res, rr)
	}
	var slots []*RelDef
	for i := range q.Res {
		for j := range q.Res[i].Rels {
			slots = append(slots, &q.Res[i].Rels[j])
		}
	}
	k := uni(t, 17, "mut")
	if len(slots) == 0 && k >= 5 {
		k = uni(t, 5, "mut2")
	}
	if len(q.Res) == 0 {
		k = 0
	}
	var d *RelDef
	if len(slots) > 0 {
		d = pick(t, slots, "slot")
	}
	res := func() *ResDef { return &q.Res[rapid.IntRange(0, len(q.Res)-1).Draw(t, "ri")] }
	switch k {
	case 0:
		q.Id = ""
	case 1: // duplicate resource
		q.Res = append(q.Res, ResDef{Name: res().Name})
	case 2:
		res().Name = ""
	case 3: // remove a resource (dangling restrictions)
		i := rapid.IntRange(0, len(q.Res)-1).Draw(t, "ri")
		q.Res = append(q.Res[:i:i], q.Res[i+1:]...)
	case 4: // rename a resource
		res().Name += "'"
	case 5: // duplicate relation
		for i := range q.Res {
			if len(q.Res[i].Rels) > 0 {
				q.Res[i].Rels = append(q.Res[i].Rels, q.Res[i].Rels[rapid.IntRange(0, len(q.Res[i].Rels)-1).Draw(t, "dup")])
				break
			}
		}
	case 6:
		d.Name = ""
	case 7: // rename a relation (dangling references)
		d.Name += "'"
	case 8:
		d.E, d.Raw = nil, pick(t, []string{"", " ", "+", "_this +", "(", "_this)", "_this _this", "->", "a->", "->a", "_this->a", "a -> b -> c", "_this & ", "é+", "_this + + _this", "\x00none", "\x00empty", "_this # x", "()", "((_this))", "_this-_this", "_this\n+\t_this"}, "raw")
	case 16: // a leaf of the expression refers to something undefined
		if d.E == nil {
			break
		}
		d.E, d.Raw = replaceLeaf(t, d.E, pick(t, []*Expr{cu("undefined"), ttu("undefined", d.Name)}, "undef")), ""
	case 9: // reference to something undefined
		e := pick(t, []*Expr{cu("undefined"), ttu("undefined", "x"), op(this(), "+", cu("undefined")), op(ttu("undefined", d.Name), "-", this())}, "undef")
		d.E, d.Raw, d.Tree = bury(t, e), "", chance(t, 50, "tree")
	case 10: // malformed tree
		e := pick(t, []*Expr{{Op: "empty"}, {Op: "norule"}, {Op: "badop", L: this(), R: this(), N: pick(t, []int{3, 4, 77, -1, 255, 256, 257, 258, 1 << 16, 1 << 30}, "opnr")}, {Op: "+", L: this()}, {Op: "&", R: this()}, {Op: "-", L: this(), R: &Expr{Op: "empty"}}, {Op: "+", L: op(this(), "&", &Expr{Op: "norule"}), R: this()}, cu(""), ttu("", "x")}, "badtree")
		d.E, d.Raw, d.Tree = bury(t, e), "", true
	case 11: // dangling restriction
		d.Rs = Restr{K: "set", Items: append(append([]RestrItem(nil), d.Rs.Items...), pick(t, []RestrItem{{R: "undefined"}, {R: "undefined", Rel: "x", Set: true}, {R: q.Res[0].Name, Rel: "undefined", Set: true}, {R: ""}, {Set: true}}, "item"))}
	case 12:
		d.Rs = Restr{K: pick(t, []string{"empty", "none", "any"}, "rsk")}
	case 13: // a tuple to userset whose computed relation no resource defines is accepted
		d.E, d.Raw, d.Tree = ttu(d.Name, "nowhere"), "", true
	case 14: // self reference
		d.E, d.Raw, d.Tree = cu(d.Name), "", true
	case 15: // a relation with the name of another resource's relation or of a resource
		d.Name = q.Res[0].Name
	}
	return q
}

// bury puts an expression below some operators, at times many
func bury(t *rapid.T, e *Expr) *Expr {
	if chance(t, 50, "flat") {
		return e
	}
	if rare(t, 5, "deepbelow") {
		left := rapid.Bool().Draw(t, "deepside")
		for n := pick(t, []int{130, 300, 700, 1500}, "deep"); n > 0; n-- {
			if left {
				e = op(this(), "+", e)
			} else {
				e = op(e, "+", this())
			}
		}
		if !left && rapid.Bool().Draw(t, "turn") { // many operands first, the expression last
			x := this()
			for y := e; y.L != nil; y = y.L {
				x = op(x, "+", this())
				if y.L.L == nil {
					return op(x, "+", y.L)
				}
			}
		}
		return e
	}
	for n := pick(t, []int{1, 2, 3, 5, 9, 17, 40}, "below"); n > 0; n-- {
		o := pick(t, []string{"+", "&", "-"}, "bop")
		if rapid.Bool().Draw(t, "bside") {
			e = op(this(), o, e)
		} else {
			e = op(e, o, this())
		}
	}
	return e
}

// replaceLeaf puts an expression in the place of a rule
func replaceLeaf(t *rapid.T, e, x *Expr) *Expr {
	if e.L == nil || e.R == nil {
		return x
	}
	if rapid.Bool().Draw(t, "side") {
		return op(e.L, e.Op, replaceLeaf(t, e.R, x))
	}
	return op(replaceLeaf(t, e.L, x), e.Op, e.R)
}

type PolCase struct {
	Base Pol    `json:"base"`
	Rels []Rel  `json:"rels"`
	Pols []Pol  `json:"pols"`
	Upd  []bool `json:"upd"`
	Wire bool   `json:"wire,omitempty"`
}

func init() {
	register("C07", 24000, 400000,
		"Case: a stored well-formed policy with relationships, and 1-8 definitions obtained from generated well-formed ones by 0-3 structural changes (missing or duplicate names, dangling references, malformed texts and trees, dangling or absent restrictions, harmless oddities), each given to create or update, directly or through the wire encoding; the verdict is compared with an independent definition of well-formedness and the whole state with the model after every call. Non-trivial: the case has both accepted and rejected definitions.",
		func(t *rapid.T) PolCase {
			po := polOpts{nasty: chance(t, 40, "nasty"), restrict: true, maxRes: 3, maxRel: 3, maxIds: 2, depth: 2}
			u := genUniverse(t, po)
			c := PolCase{Base: genPol(t, "base", u, po), Wire: chance(t, 40, "wire")}
			for i := range c.Base.Res {
				for j := range c.Base.Res[i].Rels {
					if chance(t, 70, "any") {
						c.Base.Res[i].Rels[j].Rs = anyRestr
					}
				}
			}
			c.Rels = genRels(t, u, 0, 6, "rels")
			n := rapid.IntRange(1, 8).Draw(t, "n")
			for i := 0; i < n; i++ {
				var p Pol
				if chance(t, 60, "fresh") {
					uu := genUniverse(t, po)
					p = genPol(t, "base", uu, po)
				} else {
					p = genPol(t, "base", u, po)
				}
				p.Id = pick(t, []string{"base", "base", "p1", "p2"}, "id")
				inflate(t, &p, 10)
				for k := pick(t, []int{0, 1, 1, 1, 2, 3}, "nmut"); k > 0; k-- {
					p = mutatePol(t, p)
				}
				c.Pols = append(c.Pols, p)
				c.Upd = append(c.Upd, chance(t, 50, "upd"))
			}
			return c
		},
		func(c PolCase, st *Stats) error {
			z := newZ()
			z.Wire = c.Wire
			m := newModel()
			if err := m.step(z, Op{K: "create", Pol: &c.Base, D: []byte("base data")}); err != nil {
				return err
			}
			for i := range c.Rels {
				if err := m.step(z, Op{K: "set", P: "base", R: &c.Rels[i], D: []byte{1}}); err != nil {
					return err
				}
			}
			acc, rej := 0, 0
			for i := range c.Pols {
				o := Op{K: "create", Pol: &c.Pols[i], D: []byte{byte(i)}}
				if c.Upd[i] {
					o.K = "update"
				}
				if c.Pols[i].valid() {
					acc++
				} else {
					rej++
				}
				if err := m.step(z, o); err != nil {
					return fmt.Errorf("definition %d (well formed: %v): %w", i, c.Pols[i].valid(), err)
				}
				if err := m.compareAll(z, []string{"base", "p1", "p2", ""}, c.Rels); err != nil {
					return fmt.Errorf("after definition %d: %w", i, err)
				}
			}
			st.NonTrivial = acc > 0 && rej > 0
			st.labelIf(acc > 0, "well-formed")
			st.labelIf(rej > 0, "malformed")
			return nil
		})
}
