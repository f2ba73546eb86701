package harness

import (
	"fmt"
	"time"

	"pgregory.net/rapid"
)

// RouteCase is content (policy and relationships) and the different ways which lead to it
type RouteCase struct {
	G     GraphCase         `json:"g"`
	Ops   []Op              `json:"ops"`   // a history, completed by whatever is missing to reach the content
	Order []int             `json:"order"` // order in which the rest is completed
	Res   map[string]string `json:"res"`   // renamings
	Rel   map[string]string `json:"rel"`
	Id    map[string]string `json:"id"`
	PolId string            `json:"polid"`
	Extra []Rel             `json:"extra"` // relationships of objects nothing refers to
	More  []Rel             `json:"more"`  // relationships added when there is no difference
}

func init() {
	register("C02", 3600, 60000,
		"Case: a policy with relationships (as for C01, structured shapes included) loaded in a straight line, and again (a) through a random history of sets, overwrites, deletions, re-insertions, updates to other definitions, deletion and re-creation of the policy, other policies and rejected operations, completed in another order; (b) with policy, resources, relations and ids renamed consistently, often to adversarial names; (c) with unrelated resources and objects added; (d) without differences, with relationships added. Every Check answer of a, b and c is compared with the straight line's, every grant must survive d. Non-trivial: granted and denied answers were compared across a, b and c.",
		genRouteCase, runC02)
}

// universeOf is the vocabulary of a graph case
func universeOf(c *GraphCase) Universe {
	u := Universe{Rels: map[string][]string{}, Ids: map[string][]string{}}
	for _, r := range c.Pol.Res {
		u.Res = append(u.Res, r.Name)
		for _, d := range r.Rels {
			u.Rels[r.Name] = append(u.Rels[r.Name], d.Name)
		}
	}
	seen := map[Ent]bool{}
	add := func(r, i string) {
		e := Ent{r, i}
		if i != "" && !seen[e] && c.Pol.hasRes(r) && len(u.Ids[r]) < 6 {
			seen[e] = true
			u.Ids[r] = append(u.Ids[r], i)
		}
	}
	for _, n := range c.Nodes {
		add(n.R, n.I)
	}
	for _, s := range c.Subs {
		add(s.R, s.I)
	}
	for _, r := range c.Rels {
		add(r.O.R, r.O.I)
		add(r.S.R, r.S.I)
	}
	for _, r := range u.Res {
		if len(u.Ids[r]) == 0 {
			u.Ids[r] = []string{"lone"}
		}
	}
	return u
}

func genRouteCase(t *rapid.T) RouteCase {
	c := RouteCase{G: genGraphCase(t)}
	u := universeOf(&c.G)
	v := Vocab{U: u, Ids: []string{c.G.Pol.Id, c.G.Pol.Id + "2", "other"}, Rels: append([]Rel(nil), c.G.Rels...)}
	if len(v.Rels) > 40 {
		v.Rels = v.Rels[:40]
	}
	v.Rels = append(v.Rels, genRels(t, u, 1, 8, "noise")...)
	for i := uni(t, 5, "near"); i > 0; i-- {
		v.Rels = append(v.Rels, nearRel(t, u, pick(t, v.Rels, "base")))
	}
	po := polOpts{depth: 2}
	v.Pols = []Pol{c.G.Pol, genPol(t, "", u, po), mutatePol(t, c.G.Pol)}
	o := histOpts{kinds: map[string]int{"set": 14, "del": 8, "delsel": 1, "create": 2, "update": 3, "delpol": 1, "check": 1}}
	c.Ops = genOps(t, v, o, 0, 40)
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 1000), 1, 12).Draw(t, "order")
	c.Res, c.Rel, c.Id = map[string]string{}, map[string]string{}, map[string]string{}
	nasty := chance(t, 60, "nastyren")
	rename := func(m map[string]string, old []string, label string) {
		for i, n := range genNames(t, len(old), nasty, label) {
			m[old[i]] = n
		}
	}
	rename(c.Res, u.Res, "rres")
	rename(c.Rel, u.allRels(), "rrel")
	ids := map[string]bool{}
	for _, r := range c.G.Rels {
		ids[r.O.I] = true
		if r.S.I != "" {
			ids[r.S.I] = true
		}
	}
	for _, n := range c.G.Nodes {
		ids[n.I] = true
	}
	for _, s := range c.G.Subs {
		ids[s.I] = true
	}
	rename(c.Id, sortedKeys(ids), "rid")
	c.PolId = genPolId(t)
	for i := rapid.IntRange(0, 6).Draw(t, "nextra"); i > 0; i-- {
		r := genRel(t, u, "extra")
		r.O.I = fmt.Sprintf("unrelated%d", uni(t, 3, "un"))
		c.Extra = append(c.Extra, r)
	}
	c.More = genRels(t, u, 1, 4, "more")
	return c
}

func (c RouteCase) renamed() GraphCase {
	ren := func(m map[string]string, s string) string {
		if n, ok := m[s]; ok {
			return n
		}
		return s
	}
	var expr func(e *Expr) *Expr
	expr = func(e *Expr) *Expr {
		x := *e
		switch e.Op {
		case "cu":
			x.A = ren(c.Rel, e.A)
		case "ttu":
			x.A, x.B = ren(c.Rel, e.A), ren(c.Rel, e.B)
		case "+", "&", "-":
			x.L, x.R = expr(e.L), expr(e.R)
		}
		return &x
	}
	g := GraphCase{Wire: c.G.Wire, Pol: Pol{Id: c.PolId}}
	for _, r := range c.G.Pol.Res {
		rd := ResDef{Name: ren(c.Res, r.Name)}
		for _, d := range r.Rels {
			nd := RelDef{Name: ren(c.Rel, d.Name), E: expr(d.E), Rs: d.Rs}
			nd.Tree = d.Tree || !nd.E.textable()
			rd.Rels = append(rd.Rels, nd)
		}
		g.Pol.Res = append(g.Pol.Res, rd)
	}
	ent := func(e Ent) Ent {
		if !c.G.Pol.hasRes(e.R) { // a subject of an undefined resource stays one
			return Ent{"undefined resource", e.I}
		}
		return Ent{ren(c.Res, e.R), ren(c.Id, e.I)}
	}
	for _, r := range c.G.Rels {
		x := Rel{O: ent(r.O), Rel: ren(c.Rel, r.Rel), S: Sub{K: r.S.K, R: ren(c.Res, r.S.R)}}
		if r.S.I != "" {
			x.S.I = ren(c.Id, r.S.I)
		}
		if r.S.Rel != "" {
			x.S.Rel = ren(c.Rel, r.S.Rel)
		}
		g.Rels = append(g.Rels, x)
	}
	for _, n := range c.G.Nodes {
		g.Nodes = append(g.Nodes, Node{ren(c.Res, n.R), ren(c.Id, n.I), ren(c.Rel, n.Rel)})
	}
	for _, s := range c.G.Subs {
		g.Subs = append(g.Subs, ent(s))
	}
	return g
}

func (p Pol) noDiff() bool {
	var f func(e *Expr) bool
	f = func(e *Expr) bool { return e == nil || e.Op != "-" && f(e.L) && f(e.R) }
	for _, r := range p.Res {
		for _, d := range r.Rels {
			if !f(d.E) {
				return false
			}
		}
	}
	return true
}

// route plays a history and completes it to the content wanted
func (c RouteCase) route(z *Z) error {
	m := newModel()
	// only success is looked at here: what responses say is the business of other properties
	step := func(o Op) error {
		now := time.Now()
		_, err := z.do(o)
		ok := m.apply(o, now, now)
		if isPanic(err) || ok && err != nil && (o.K == "create" || o.K == "update" || o.K == "set") {
			return fmt.Errorf("%v: %w", o, err)
		}
		return nil
	}
	for i, o := range c.Ops {
		if err := step(o); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
	}
	id := c.G.Pol.Id
	final := c.G.Pol
	op := Op{K: "update", Pol: &final}
	if m.pols[id] == nil {
		op.K = "create"
	}
	want := map[Rel]bool{}
	for _, r := range c.G.Rels {
		want[r] = true
	}
	var rest []Op
	if p := m.pols[id]; p != nil {
		for _, r := range p.list() {
			if !want[r] {
				x := r
				rest = append(rest, Op{K: "del", P: id, R: &x})
			}
		}
	}
	for _, r := range sortedRels(c.G.Rels) {
		if m.pols[id] == nil || m.pols[id].rels[r] == nil {
			x := r
			rest = append(rest, Op{K: "set", P: id, R: &x})
		}
	}
	if err := step(op); err != nil {
		return err
	}
	for i := 0; len(rest) > 0; i++ {
		k := c.Order[i%len(c.Order)] % len(rest)
		if err := step(rest[k]); err != nil {
			return err
		}
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return nil
}

type answer struct {
	ok  bool
	err error
}

func (a answer) String() string {
	if a.err != nil {
		return "error (" + a.err.Error() + ")"
	}
	return fmt.Sprint(a.ok)
}

func answers(z *Z, id string, nodes []Node, subs []Ent, max int) ([]answer, error) {
	var out []answer
	for _, s := range subs {
		for _, n := range nodes {
			if len(out) >= max {
				return out, nil
			}
			ok, err := z.Check(id, n, s)
			if isPanic(err) {
				return nil, err
			}
			out = append(out, answer{ok, err})
		}
	}
	return out, nil
}

func runC02(c RouteCase, st *Stats) error {
	const max = 60
	straight := newZ()
	if err := c.G.load(straight); err != nil {
		return err
	}
	base, err := answers(straight, c.G.Pol.Id, c.G.Nodes, c.G.Subs, max)
	if err != nil {
		return err
	}
	g := newGraph(c.G.Pol, c.G.Rels)
	g.explore(c.G.Nodes...)
	uns := g.unstratified()
	granted, denied := 0, 0
	compare := func(what string, z *Z, id string, nodes []Node, subs []Ent) error {
		got, err := answers(z, id, nodes, subs, max)
		if err != nil {
			return err
		}
		for i := range got {
			n := c.G.Nodes[i%len(c.G.Nodes)]
			s := c.G.Subs[i/len(c.G.Nodes)]
			if uns[n] || g.err[n] && (got[i].err != nil || base[i].err != nil) {
				continue
			}
			if got[i].ok != base[i].ok || (got[i].err == nil) != (base[i].err == nil) {
				return fmt.Errorf("Check(%+v, %+v) is %v, and %v %s", n, s, base[i], got[i], what)
			}
			if got[i].err == nil && got[i].ok {
				granted++
			} else if got[i].err == nil {
				denied++
			}
		}
		return nil
	}
	// the same instance answers the same again
	if err := compare("when asked again", straight, c.G.Pol.Id, c.G.Nodes, c.G.Subs); err != nil {
		return err
	}
	z := newZ()
	z.Wire = c.G.Wire
	if err := c.route(z); err != nil {
		return err
	}
	if err := compare("after another history leading to the same content", z, c.G.Pol.Id, c.G.Nodes, c.G.Subs); err != nil {
		return err
	}
	ren := c.renamed()
	z = newZ()
	if err := ren.load(z); err != nil {
		return err
	}
	if err := compare(fmt.Sprintf("after renaming to %+v", ren), z, ren.Pol.Id, ren.Nodes, ren.Subs); err != nil {
		return err
	}
	// unrelated additions: another resource, and relationships of objects which nothing refers to
	big := c.G
	big.Pol.Res = append(append([]ResDef(nil), big.Pol.Res...), ResDef{Name: "unrelated resource", Rels: []RelDef{
		{Name: "member", E: this(), Rs: anyRestr}, {Name: "owner", E: op(this(), "+", cu("member")), Rs: anyRestr}}})
	big.Rels = append([]Rel{
		{Ent{"unrelated resource", "x"}, "member", wildcard(c.G.Pol.Res[0].Name)},
		{Ent{"unrelated resource", "x"}, "owner", entitySet("unrelated resource", "x", "member")},
	}, append(append([]Rel(nil), c.Extra...), big.Rels...)...)
	z = newZ()
	if err := big.load(z); err != nil {
		return err
	}
	if err := compare("with unrelated resources and objects", z, c.G.Pol.Id, c.G.Nodes, c.G.Subs); err != nil {
		return err
	}
	st.NonTrivial = granted > 0 && denied > 0
	if c.G.Pol.noDiff() {
		for _, r := range c.More {
			if _, err := straight.Set(c.G.Pol.Id, r, nil); err != nil {
				return fmt.Errorf("SetRelationship %+v: %w", r, err)
			}
		}
		got, err := answers(straight, c.G.Pol.Id, c.G.Nodes, c.G.Subs, max)
		if err != nil {
			return err
		}
		for i := range got {
			if base[i].err == nil && base[i].ok && got[i].err == nil && !got[i].ok {
				return fmt.Errorf("Check(%+v, %+v) was granted, and denied after adding %+v", c.G.Nodes[i%len(c.G.Nodes)], c.G.Subs[i/len(c.G.Nodes)], c.More)
			}
		}
		st.label("monotone")
	}
	st.label("shape-%s", c.G.Shape)
	labelOps(st, c.Ops)
	return nil
}
