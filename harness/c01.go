package harness

import (
	"fmt"

	"pgregory.net/rapid"
)

// GraphCase is a policy with its relationships, and the checks asked of them
type GraphCase struct {
	Shape string `json:"shape"`
	Pol   Pol    `json:"pol"`
	Rels  []Rel  `json:"rels"`
	Nodes []Node `json:"nodes"`
	Subs  []Ent  `json:"subs"`
	Wire  bool   `json:"wire,omitempty"`
	// Cx: the contexts of the queries are found cancelled when asked so often
	Cx int `json:"cx,omitempty"`
}

const maxQueries = 120

func init() {
	register("C01", 8000, 150000,
		"Case: a policy (1-4 resources, up to 5 relations each, expressions of depth <=3 over _this, computed usersets, tuple to usersets, +, &, -; half of the cases with adversarial names), relationships over a small vocabulary (entities, nested usersets, wildcards) or a structured shape (deep chains, ladders with exponentially many paths, complete cyclic graphs, wide fan outs, groups of groups of groups, folder hierarchies, conjunctions and disjunctions over cycles), and up to 120 Check queries (every object/relation against every entity; in one case of twelve their contexts are found cancelled on the way: an error or the same answer). Non-trivial: the queries of the case have both granted and denied answers compared with the reference least fixpoint.",
		func(t *rapid.T) GraphCase { return genGraphCaseN(t, true) }, runC01)
}

func genGraphCase(t *rapid.T) GraphCase { return genGraphCaseN(t, false) }

// genGraphCaseN: big allows graphs whose explanations would be too long
func genGraphCaseN(t *rapid.T, big bool) GraphCase {
	shape := pick(t, []string{"random", "random", "random", "layered", "layered", "dense", "dense", "chain", "ladder", "complete", "fan", "broad", "folders", "boolean", "knot", "knot"}, "shape")
	c := GraphCase{Shape: shape, Wire: chance(t, 20, "wire")}
	if chance(t, 8, "cancelled") {
		c.Cx = pick(t, []int{1, 2, 3, 5, 9, 20, 60}, "cx")
	}
	switch shape {
	case "random":
		o := polOpts{nasty: chance(t, 50, "nasty"), maxRes: 3, maxRel: 4, maxIds: 3, depth: 3, noDiff: chance(t, 40, "nodiff")}
		u := genUniverse(t, o)
		c.Pol = genPol(t, genPolId(t), u, o)
		inflate(t, &c.Pol, 5)
		c.Rels = genRels(t, u, 0, 30, "rels")
		c.Nodes, c.Subs = u.nodes(), withStranger(u)
	case "layered":
		genLayered(t, &c)
	case "dense":
		o := polOpts{maxRes: 1, maxRel: 4, maxIds: 3, depth: 2, noDiff: true}
		u := genUniverse(t, o)
		u.Res = append(u.Res, "account")
		u.Ids["account"] = []string{"bob", "eve"}
		c.Pol = genPol(t, "p", u, o)
		r := u.Res[0]
		c.Rels = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Rel {
			x := Rel{O: Ent{r, pick(t, u.Ids[r], "o")}, Rel: pick(t, u.Rels[r], "rel")}
			if chance(t, 25, "leaf") {
				x.S = entity("account", pick(t, u.Ids["account"], "u"))
			} else {
				x.S = entitySet(r, pick(t, u.Ids[r], "s"), pick(t, u.Rels[r], "srel"))
			}
			return x
		}), 2, 36).Draw(t, "rels")
		c.Nodes, c.Subs = u.nodes(), []Ent{{"account", "bob"}, {"account", "eve"}}
	default:
		genShape(t, &c, big)
	}
	return c
}

func genPolId(t *rapid.T) string {
	if chance(t, 30, "polnasty") {
		return genName(t, "polid")
	}
	return "policy"
}

func withStranger(u Universe) []Ent {
	out := u.entities()
	out = append(out, Ent{u.Res[0], "stranger"}, Ent{"noresource", "x"})
	return out
}

// genLayered: relation i only refers to relations j<i, nested usersets only to lower relations of higher numbered
// objects or to plain relation 0: differences are always stratified
func genLayered(t *rapid.T, c *GraphCase) {
	nrel := rapid.IntRange(2, 6).Draw(t, "nrel")
	names := []string{"l0", "l1", "l2", "l3", "l4", "l5"}[:nrel]
	if chance(t, 40, "nasty") {
		names = genNames(t, nrel, true, "l")
	}
	var rd ResDef
	rd.Name = "doc"
	for i, n := range names {
		d := RelDef{Name: n, Rs: anyRestr}
		if i == 0 {
			d.E = pick(t, []*Expr{this(), op(this(), "+", ttu(names[0], names[0]))}, "base")
		} else {
			d.E = genExpr(t, names[:i], names[:i], exprOpts{depth: 3}, fmt.Sprintf("e%d", i))
		}
		d.Tree = !d.E.textable() || chance(t, 30, "tree")
		rd.Rels = append(rd.Rels, d)
	}
	c.Pol = Pol{Id: "layered", Res: []ResDef{rd, {Name: "user"}}}
	objs := []string{"a", "b", "c"}
	users := []string{"u", "v", "w"}
	c.Rels = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Rel {
		ri := rapid.IntRange(0, nrel-1).Draw(t, "rel")
		x := Rel{O: Ent{"doc", pick(t, objs, "o")}, Rel: names[ri]}
		switch k := uni(t, 10, "sk"); {
		case k < 6:
			x.S = entity("user", pick(t, users, "u"))
		case k < 9:
			j := 0
			if ri > 0 {
				j = rapid.IntRange(0, ri-1).Draw(t, "lower")
			}
			x.S = entitySet("doc", pick(t, objs, "so"), names[j])
		default:
			x.S = wildcard("user")
		}
		return x
	}), 0, 25).Draw(t, "rels")
	for _, o := range objs {
		for _, n := range names {
			c.Nodes = append(c.Nodes, Node{"doc", o, n})
		}
	}
	for _, u := range users {
		c.Subs = append(c.Subs, Ent{"user", u})
	}
	c.Subs = append(c.Subs, Ent{"user", "x"}, Ent{"doc", "a"})
}

func genShape(t *rapid.T, c *GraphCase, big bool) {
	group := ResDef{Name: "group", Rels: []RelDef{
		{Name: "member", E: this(), Rs: anyRestr},
		{Name: "banned", E: this(), Rs: anyRestr},
		{Name: "active", E: op(cu("member"), "-", cu("banned")), Rs: anyRestr},
		{Name: "both", E: op(cu("member"), "&", cu("banned")), Rs: anyRestr},
	}}
	c.Pol = Pol{Id: "shape", Res: []ResDef{group, {Name: "user"}}}
	g := func(i int) string { return fmt.Sprintf("g%d", i) }
	nest := func(a, b int) Rel { return Rel{Ent{"group", g(a)}, "member", entitySet("group", g(b), "member")} }
	c.Subs = []Ent{{"user", "bob"}, {"user", "eve"}}
	tops := []string{"member", "active", "both"}
	switch c.Shape {
	case "chain":
		n := pick(t, []int{1, 2, 10, 40, 64, 65, 100, 130, 257, 400}, "n")
		if big && chance(t, 4, "deep") {
			n = pick(t, []int{700, 1100, 2100, 5200}, "deepn")
		}
		for i := 0; i < n; i++ {
			c.Rels = append(c.Rels, nest(i, i+1))
		}
		c.Rels = append(c.Rels, Rel{Ent{"group", g(n)}, "member", entity("user", "bob")})
		if chance(t, 40, "ban") {
			c.Rels = append(c.Rels, Rel{Ent{"group", g(0)}, "banned", entitySet("group", g(n/2), "member")})
		}
		if chance(t, 30, "loop") {
			c.Rels = append(c.Rels, nest(n, rapid.IntRange(0, n).Draw(t, "to")))
		}
	case "ladder":
		n := rapid.IntRange(1, 24).Draw(t, "n")
		for i := 0; i < n; i++ {
			for a := 0; a < 2; a++ {
				for b := 0; b < 2; b++ {
					c.Rels = append(c.Rels, nest(2*i+a, 2*i+2+b))
				}
			}
		}
		c.Rels = append(c.Rels, Rel{Ent{"group", g(2 * n)}, "member", entity("user", "bob")})
		if chance(t, 50, "ban") {
			c.Rels = append(c.Rels, Rel{Ent{"group", g(0)}, "banned", entitySet("group", g(2*n+1), "member")},
				Rel{Ent{"group", g(2*n + 1)}, "member", entity("user", "eve")})
		}
	case "complete":
		n := rapid.IntRange(2, 14).Draw(t, "n")
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i != j || chance(t, 10, "self") {
					c.Rels = append(c.Rels, nest(i, j))
				}
			}
		}
		c.Rels = append(c.Rels, Rel{Ent{"group", g(rapid.IntRange(0, n-1).Draw(t, "at"))}, "member", entity("user", "bob")})
		if chance(t, 50, "ban") {
			c.Rels = append(c.Rels, Rel{Ent{"group", g(0)}, "banned", entitySet("group", g(n-1), "member")})
		}
	case "fan":
		n := pick(t, []int{5, 63, 64, 65, 66, 100, 130, 200, 300}, "n")
		if big && chance(t, 5, "wide") {
			n = pick(t, []int{600, 1100, 2100, 5200}, "widen")
		} else if chance(t, 4, "wider") {
			n = pick(t, []int{310, 620, 1100}, "widern")
		}
		for i := 0; i < n; i++ {
			c.Rels = append(c.Rels, Rel{Ent{"group", "g0"}, "member", entity("user", fmt.Sprintf("u%d", i))})
		}
		k := rapid.IntRange(0, n-1).Draw(t, "k")
		c.Subs = append(c.Subs, Ent{"user", fmt.Sprintf("u%d", k)}, Ent{"user", "u0"}, Ent{"user", fmt.Sprintf("u%d", n-1)})
		if chance(t, 50, "ban") {
			c.Rels = append(c.Rels, Rel{Ent{"group", "g0"}, "banned", entity("user", fmt.Sprintf("u%d", k))})
		}
		if chance(t, 30, "wild") {
			c.Rels = append(c.Rels, Rel{Ent{"group", "g0"}, "banned", wildcard("user")})
		}
	case "broad": // groups within groups within a group
		n, k := rapid.IntRange(2, 30).Draw(t, "n"), rapid.IntRange(2, 30).Draw(t, "k")
		if big && chance(t, 8, "vast") {
			n, k = pick(t, []int{70, 110}, "vastn"), pick(t, []int{70, 110}, "vastk")
		}
		for i := 1; i <= n; i++ {
			c.Rels = append(c.Rels, nest(0, i))
			for j := 0; j < k; j++ {
				c.Rels = append(c.Rels, nest(i, n+1+(i-1)*k+j))
			}
		}
		for _, who := range []string{"bob", "eve"} {
			if chance(t, 80, "in") {
				c.Rels = append(c.Rels, Rel{Ent{"group", g(pick(t, []int{n*k + n, n + 1, n + 1 + uni(t, n*k, "at")}, "where"))}, "member", entity("user", who)})
			}
		}
		if chance(t, 30, "ban") {
			c.Rels = append(c.Rels, Rel{Ent{"group", g(0)}, "banned", entitySet("group", g(1+uni(t, n, "bans")), "member")})
		}
	case "folders":
		c.Pol.Res = append(c.Pol.Res, ResDef{Name: "folder", Rels: []RelDef{
			{Name: "parent", E: this(), Rs: anyRestr},
			{Name: "owner", E: this(), Rs: anyRestr},
			{Name: "blocked", E: this(), Rs: anyRestr},
			{Name: "viewer", E: op(op(op(this(), "+", cu("owner")), "+", ttu("parent", "viewer")), "-", cu("blocked")), Rs: anyRestr},
		}})
		n := pick(t, []int{1, 3, 8, 20, 64, 120}, "n")
		for i := 0; i < n; i++ {
			c.Rels = append(c.Rels, Rel{Ent{"folder", g(i)}, "parent", entity("folder", g(i+1))})
		}
		c.Rels = append(c.Rels, Rel{Ent{"folder", g(n)}, "owner", entitySet("group", "g0", "member")},
			Rel{Ent{"group", "g0"}, "member", entity("user", "bob")},
			Rel{Ent{"group", "g0"}, "member", entity("user", "eve")})
		if chance(t, 70, "blk") {
			c.Rels = append(c.Rels, Rel{Ent{"folder", g(rapid.IntRange(0, n).Draw(t, "at"))}, "blocked", entity("user", "eve")})
		}
		if big && chance(t, 12, "wide") { // a folder in many folders
			w := pick(t, []int{70, 130, 300, 600, 1100}, "w")
			at := g(uni(t, n+1, "widefrom"))
			for i := 0; i < w; i++ {
				c.Rels = append(c.Rels, Rel{Ent{"folder", at}, "parent", entity("folder", fmt.Sprintf("w%d", i))})
			}
			for _, who := range []string{"bob", "eve"} {
				c.Rels = append(c.Rels, Rel{Ent{"folder", fmt.Sprintf("w%d", uni(t, w, "wideto"))}, "owner", entity("user", who+"wide")})
				c.Subs = append(c.Subs, Ent{"user", who + "wide"})
			}
		}
		for _, i := range []int{0, n / 2, n} {
			c.Nodes = append(c.Nodes, Node{"folder", g(i), "viewer"}, Node{"folder", g(i), "owner"})
		}
	case "knot":
		genKnot(t, c)
		return
	case "boolean":
		// every combination of memberships in up to 4 relations, against a random boolean expression
		k := rapid.IntRange(1, 4).Draw(t, "k")
		names := []string{"a", "b", "c", "d"}[:k]
		var rd ResDef
		rd.Name = "doc"
		for _, n := range names {
			rd.Rels = append(rd.Rels, RelDef{Name: n, E: this(), Rs: anyRestr})
		}
		e := genExpr(t, names, names, exprOpts{depth: 4}, "top")
		rd.Rels = append(rd.Rels, RelDef{Name: "top", E: e, Tree: chance(t, 50, "tree"), Rs: anyRestr})
		c.Pol = Pol{Id: "bool", Res: []ResDef{rd, {Name: "user"}}}
		c.Subs = nil
		for m := 0; m < 1<<k; m++ {
			u := fmt.Sprintf("u%d", m)
			c.Subs = append(c.Subs, Ent{"user", u})
			for i, n := range names {
				if m>>i&1 == 1 {
					c.Rels = append(c.Rels, Rel{Ent{"doc", "x"}, n, entity("user", u)})
				}
			}
			if chance(t, 20, "t") {
				c.Rels = append(c.Rels, Rel{Ent{"doc", "x"}, "top", entity("user", u)})
			}
		}
		c.Nodes = []Node{{"doc", "x", "top"}}
		return
	}
	for _, r := range tops {
		c.Nodes = append(c.Nodes, Node{"group", "g0", r})
	}
	c.Nodes = append(c.Nodes, Node{"group", "g1", "active"})
}

// genKnot: conjunctions and disjunctions over cycles. Whether an object's y contains a user depends on the y of the
// objects its p and q lead to: what fails at first may succeed once something else did.
func genKnot(t *rapid.T, c *GraphCase) {
	name := func(i int) string { return fmt.Sprintf("o%d", i) }
	x := op(ttu("p", "y"), "&", ttu("q", "y"))
	if chance(t, 30, "x3") {
		x = op(op(ttu("p", "y"), "&", ttu("q", "y")), pick(t, []string{"+", "&"}, "x3op"), ttu("r", "y"))
	}
	y := pick(t, []*Expr{op(this(), "+", cu("x")), op(cu("x"), "+", this()), op(this(), "+", op(cu("x"), "+", cu("w")))}, "y")
	rels := []RelDef{{Name: "p", E: this()}, {Name: "q", E: this()}, {Name: "r", E: this()}, {Name: "w", E: op(this(), "+", ttu("p", "x"))},
		{Name: "x", E: x}, {Name: "y", E: y}, {Name: "z", E: op(ttu("p", "y"), "-", ttu("q", "x"))}, {Name: "v", E: op(cu("y"), "&", ttu("q", "y"))}}
	for i := range rels {
		rels[i].Rs = anyRestr
	}
	c.Pol = Pol{Id: "knot", Res: []ResDef{{Name: "doc", Rels: rels}, {Name: "user"}}}
	n := rapid.IntRange(2, 8).Draw(t, "n")
	add := func(i int, rel string, s Sub) { c.Rels = append(c.Rels, Rel{Ent{"doc", name(i)}, rel, s}) }
	for i := 0; i < n; i++ {
		for _, rel := range []string{"p", "q", "r"} {
			for k := 1 + uni(t, 3, "edges"); k > 0; k-- {
				add(i, rel, entity("doc", name(uni(t, n, "to"))))
			}
		}
		if chance(t, 30, "set") {
			add(i, pick(t, []string{"y", "w"}, "setrel"), entitySet("doc", name(uni(t, n, "setto")), pick(t, []string{"x", "y", "w", "v"}, "settorel")))
		}
		c.Nodes = append(c.Nodes, Node{"doc", name(i), "y"}, Node{"doc", name(i), "x"}, Node{"doc", name(i), "v"}, Node{"doc", name(i), "z"})
	}
	for i := 1 + uni(t, 3, "base"); i > 0; i-- {
		add(uni(t, n, "at"), pick(t, []string{"y", "w"}, "atrel"), entity("user", pick(t, []string{"bob", "eve"}, "who")))
	}
	c.Subs = []Ent{{"user", "bob"}, {"user", "eve"}}
}

func (c *GraphCase) load(z *Z) error {
	z.Wire, z.Cx = c.Wire, c.Cx
	if _, err := z.Create(c.Pol, nil); err != nil {
		return fmt.Errorf("CreatePolicy of a well formed policy failed: %w", err)
	}
	for _, r := range c.Rels {
		if _, err := z.Set(c.Pol.Id, r, nil); err != nil {
			return fmt.Errorf("SetRelationship of an admitted relationship %+v failed: %w", r, err)
		}
	}
	return nil
}

// judgeChecks compares answers with the reference; answers maps (node, subject) to a function returning the answer
func judgeChecks(c *GraphCase, ask func(n Node, s Ent) (bool, error), st *Stats, skipNegCycles bool) error {
	g := newGraph(c.Pol, c.Rels)
	g.explore(c.Nodes...)
	uns := g.unstratified()
	granted, denied, unstrat, errs, q := 0, 0, 0, 0, 0
	for _, s := range c.Subs {
		must, may := g.decide(s)
		for _, n := range c.Nodes {
			if q >= maxQueries {
				break
			}
			q++
			got, err := ask(n, s)
			if isPanic(err) {
				return fmt.Errorf("Check %+v %+v: %w", n, s, err)
			}
			if g.undef[n] {
				if err == nil {
					return fmt.Errorf("Check %+v against an undefined relation answered %v instead of an error", n, got)
				}
				continue
			}
			if err != nil {
				if g.err[n] {
					errs++
					continue
				}
				return fmt.Errorf("Check(%+v, %+v) failed: %w", n, s, err)
			}
			if uns[n] {
				unstrat++
				continue
			}
			if err := judgeDecision(n, must, may, got); err != nil {
				return fmt.Errorf("Check(%+v, %+v) %w", n, s, err)
			}
			if got {
				granted++
			} else {
				denied++
			}
		}
	}
	st.NonTrivial = granted > 0 && denied > 0
	st.labelIf(granted > 0, "granted")
	st.labelIf(denied > 0, "denied")
	st.labelIf(unstrat > 0, "cycle-through-difference")
	st.labelIf(errs > 0, "error-answer")
	for _, comp := range g.sccs {
		if len(comp) > 1 {
			st.label("cyclic")
			break
		}
	}
	st.label("shape-%s", c.Shape)
	return nil
}

func runC01(c GraphCase, st *Stats) error {
	z := newLoggingZ()
	if err := c.load(z); err != nil {
		return err
	}
	ask := func(n Node, s Ent) (bool, error) { return z.Check(c.Pol.Id, n, s) }
	if err := judgeChecks(&c, ask, st, true); err != nil {
		return err
	}
	// unknown policies, resources and relations are errors, never a denial or a grant
	bad := c.Nodes[0]
	if _, err := z.Check(c.Pol.Id+"?", bad, c.Subs[0]); err == nil || isPanic(err) {
		return fmt.Errorf("Check in an unknown policy: %v", err)
	}
	bad.Rel += "?"
	if c.Pol.find(bad.R, bad.Rel) == nil {
		if _, err := z.Check(c.Pol.Id, bad, c.Subs[0]); err == nil || isPanic(err) {
			return fmt.Errorf("Check of an unknown relation: %v", err)
		}
	}
	return nil
}
