package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

// GraphOp puts a node or an edge into a graph
type GraphOp struct {
	K string `json:"k"` // node, edge
	A int    `json:"a"` // indexes of ids
	B int    `json:"b,omitempty"`
	D string `json:"d,omitempty"` // data or label
}

type GraphsCase struct {
	Ids  []string  `json:"ids"`
	Ops  []GraphOp `json:"ops"`
	Wire bool      `json:"wire,omitempty"`
	// a policy and subjects for the helpers of the domain types
	Pol  Pol   `json:"pol"`
	Subs []Sub `json:"subs"`
}

func init() {
	register("C21", 30000, 400000,
		"Case: 1-8 ids (half of the cases adversarial), then up to 40 additions of nodes (again with other data too) and edges (self loops, repeated, opposite, between nodes which are not there) to a MapGraph and a MapDiGraph (one in four through its wire encoding before it is read), compared after every addition with a map of nodes and a set of edges; in the end the missing ends of edges are added and the MapDiGraph is drawn and read back with a DOT parser. For a random policy and up to 12 similar subjects, the exported helpers of the domain types (ids and kinds of nodes, look-up by name, rules of an expression, constructors) are compared with the data they were built from. Non-trivial: at least two edges, of which one was put in twice or has a node which was replaced or is missing.",
		genC21, runC21)
}

func genC21(t *rapid.T) GraphsCase {
	c := GraphsCase{Wire: chance(t, 25, "wire")}
	seen := map[string]bool{}
	for _, n := range genNames(t, rapid.IntRange(1, 8).Draw(t, "n"), chance(t, 50, "nasty"), "id") {
		if n = strings.ReplaceAll(n, "\x00", "0"); !seen[n] { // DOT has no way to write the null character
			seen[n] = true
			c.Ids = append(c.Ids, n)
		}
	}
	if chance(t, 10, "noid") && !seen[""] {
		c.Ids = append(c.Ids, "")
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) GraphOp {
		o := GraphOp{K: "node", A: uni(t, len(c.Ids), "a")}
		if chance(t, 60, "edge") {
			o.K, o.B = "edge", uni(t, len(c.Ids), "b")
		}
		if chance(t, 70, "data") {
			o.D = strings.ReplaceAll(pick(t, nastyNames, "d"), "\x00", "0")
		}
		return o
	}), rapid.IntRange(0, 12).Draw(t, "min"), 40).Draw(t, "ops")
	o := polOpts{nasty: chance(t, 50, "nastypol"), maxRes: 4, maxRel: 4, maxIds: 3, depth: 3}
	u := genUniverse(t, o)
	c.Pol = genPol(t, "p", u, o)
	c.Subs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Sub {
		s := genSub(t, u, "sub")
		switch uni(t, 8, "odd") {
		case 0: // the parts of a name divided differently
			if r := []rune(s.I); len(r) > 0 {
				s.R, s.I = s.R+string(r[:1]), string(r[1:])
			}
		case 1:
			s.R, s.I = s.I, s.R
		case 2:
			s.I, s.Rel = s.I+s.Rel, ""
		case 3:
			s.I = "*"
		}
		return s
	}), 2, 12).Draw(t, "subs")
	return c
}

type edge [2]string

func runC21(c GraphsCase, st *Stats) error {
	mg := types.New[string]()
	dg := types.NewMapDiGraph()
	nodes := map[string]string{}
	edges, drawn := map[edge]bool{}, map[edge]string{}
	special, twice := false, map[edge]bool{}
	for i, o := range c.Ops {
		a, b := c.Ids[o.A], c.Ids[o.B]
		at := fmt.Sprintf("step %d, %+v", i, o)
		if o.K == "node" {
			_, old := nodes[a]
			special = special || old
			nodes[a] = o.D
			mg.SetNode(a, o.D)
			dg.AddNode(&types.GraphNode{Id: a, Data: o.D})
		} else {
			_, okA := nodes[a]
			_, okB := nodes[b]
			err := mg.SetEdge(a, b)
			if (err == nil) != (okA && okB) {
				return fmt.Errorf("%s: edge %q -> %q between nodes which are there: %v %v, answered %v", at, a, b, okA, okB, err)
			}
			if err == nil {
				edges[edge{a, b}] = true
			} else {
				special = true
			}
			if twice[edge{a, b}] {
				special = true
			}
			twice[edge{a, b}] = true
			dg.AddEdge(&types.GraphEdge{Source: a, Dest: b, Label: o.D})
			drawn[edge{a, b}] = o.D
		}
		if err := sameMapGraph(&mg, c.Ids, nodes, edges); err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		if err := sameDiGraph(dg, c.Ids, nodes, drawn); err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
	}
	// drawing requires the ends of every edge
	for e := range drawn {
		for _, id := range e {
			if _, ok := nodes[id]; !ok {
				nodes[id] = ""
				dg.AddNode(&types.GraphNode{Id: id})
			}
		}
	}
	if c.Wire {
		b, err := proto.Marshal(dg)
		if err != nil {
			return fmt.Errorf("the graph cannot be encoded: %w", err)
		}
		dg = &types.MapDiGraph{}
		if err := proto.Unmarshal(b, dg); err != nil {
			return fmt.Errorf("the graph cannot be decoded: %w", err)
		}
		if err := sameDiGraph(dg, c.Ids, nodes, drawn); err != nil {
			return fmt.Errorf("decoded: %w", err)
		}
	}
	dot := types.GraphToDOT(dg)
	g, err := parseDOT(dot)
	if err != nil {
		return err
	}
	ids := map[string]string{}
	for id, l := range g.labels {
		name, err := unquote(id)
		if err != nil {
			return err
		}
		ids[id] = name
		if data, ok := nodes[name]; ok && l != data {
			return fmt.Errorf("node %q is drawn with label %q, its data is %q\n%s", name, l, data, clip(dot))
		}
		if _, ok := nodes[name]; !ok {
			return fmt.Errorf("node %q is drawn but not in the graph\n%s", name, clip(dot))
		}
	}
	got, want := map[edge]int{}, map[edge]int{}
	for e, n := range g.edges {
		src, _ := unquote(e[0])
		dst, _ := unquote(e[1])
		got[edge{src, dst}] += n
	}
	for e := range drawn {
		want[e] = 1
	}
	if err := diffCounts("edge", got, want, func(e edge) string { return fmt.Sprintf("%q -> %q", e[0], e[1]) }); err != nil {
		return fmt.Errorf("%w\n%s", err, clip(dot))
	}
	found := map[string]int{}
	for _, n := range ids {
		found[n]++
	}
	for n := range nodes {
		if found[n] != 1 {
			return fmt.Errorf("node %q is drawn %d times\n%s", n, found[n], clip(dot))
		}
	}
	if err := judgeHelpers(c); err != nil {
		return err
	}
	if err := judgeMade(c); err != nil {
		return err
	}
	st.NonTrivial = len(edges) >= 2 && special
	st.labelIf(c.Wire, "decoded")
	for e := range edges {
		if e[0] == e[1] {
			st.label("self-loop")
			break
		}
	}
	return nil
}

func sameMapGraph(g *types.MapGraph[string], ids []string, nodes map[string]string, edges map[edge]bool) error {
	for _, id := range ids {
		opt := g.GetNode(id)
		data, ok := nodes[id]
		if opt.IsEmpty() == ok {
			return fmt.Errorf("node %q is there: %v, want %v", id, !opt.IsEmpty(), ok)
		}
		if ok && opt.Value() != data {
			return fmt.Errorf("node %q has data %q, want %q", id, opt.Value(), data)
		}
		var succ, anc []string
		for e := range edges {
			if e[0] == id {
				succ = append(succ, nodes[e[1]])
			}
			if e[1] == id {
				anc = append(anc, nodes[e[0]])
			}
		}
		if err := sameBag(g.GetSucessors(id), succ); err != nil {
			return fmt.Errorf("successors of %q: %w", id, err)
		}
		if err := sameBag(g.GetAncestors(id), anc); err != nil {
			return fmt.Errorf("ancestors of %q: %w", id, err)
		}
	}
	return nil
}

func sameBag(got, want []string) error {
	got = append([]string{}, got...)
	want = append([]string{}, want...)
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Errorf("%q, want %q", got, want)
	}
	return nil
}

func sameDiGraph(g *types.MapDiGraph, ids []string, nodes map[string]string, edges map[edge]string) error {
	for _, id := range ids {
		n := g.GetNode(id)
		data, ok := nodes[id]
		if (n != nil) != ok || ok && (n.GetId() != id || n.GetData() != data) {
			return fmt.Errorf("node %q is %v, want %q (there: %v)", id, n, data, ok)
		}
	}
	if len(g.GetNodes()) != len(nodes) {
		return fmt.Errorf("%d nodes, want %d", len(g.GetNodes()), len(nodes))
	}
	for what, maps := range map[string]map[string]*types.EdgeMap{"forward": g.GetForwardEdges(), "back": g.GetBackEdges()} {
		got := map[edge]string{}
		for a, m := range maps {
			for b, e := range m.GetEdges() {
				k := edge{a, b}
				if what == "back" {
					k = edge{b, a}
				}
				if (edge{e.GetSource(), e.GetDest()}) != k {
					return fmt.Errorf("%s edge %q is filed under %q", what, edge{e.GetSource(), e.GetDest()}, k)
				}
				got[k] = e.GetLabel()
			}
		}
		for k, l := range edges {
			if x, ok := got[k]; !ok || x != l {
				return fmt.Errorf("%s edge %q has label %q (there: %v), want %q", what, k, x, ok, l)
			}
		}
		if len(got) != len(edges) {
			return fmt.Errorf("%d %s edges, want %d", len(got), what, len(edges))
		}
	}
	return nil
}

func (s Sub) relationNode() *domain.RelationNode {
	switch s.K {
	case "e":
		return &domain.RelationNode{Node: &domain.RelationNode_Entity{Entity: &domain.EntityNode{Object: domain.NewEntity(s.R, s.I)}}}
	case "s":
		return nodeProto(Node{s.R, s.I, s.Rel})
	}
	return &domain.RelationNode{Node: &domain.RelationNode_Wildcard{Wildcard: &domain.WildcardNode{Resource: s.R}}}
}

// judgeHelpers looks at the exported functions of the domain types
func judgeHelpers(c GraphsCase) error {
	norm := func(s Sub) Sub {
		switch s.K {
		case "e":
			return Sub{K: "e", R: s.R, I: s.I}
		case "s":
			return s
		}
		return Sub{K: "w", R: s.R}
	}
	ids := map[string]Sub{}
	for _, s := range c.Subs {
		s = norm(s)
		n := s.relationNode()
		for range 2 {
			id := n.Id()
			if o, ok := ids[id]; ok && o != s {
				return fmt.Errorf("nodes %+v and %+v have the same id %q", o, s, id)
			}
			ids[id] = s
			n = s.relationNode()
			if n.Id() != id {
				return fmt.Errorf("node %+v has the ids %q and %q", s, id, n.Id())
			}
			n = wire(n)
		}
		if n.IsEntity() != (s.K == "e") || n.IsTerminalNode() != (s.K != "s") {
			return fmt.Errorf("node %+v: IsEntity %v, IsTerminalNode %v", s, n.IsEntity(), n.IsTerminalNode())
		}
		o := n.GetObject()
		if s.K == "w" && o != nil || s.K != "w" && (o.GetResource() != s.R || o.GetId() != s.I) {
			return fmt.Errorf("node %+v: GetObject is %v", s, o)
		}
		if got := s.Proto().GetResourceName(); got != s.R {
			return fmt.Errorf("subject %+v: GetResourceName is %q", s, got)
		}
	}
	p := c.Pol.Proto()
	names := append([]string{}, c.Ids...)
	for _, r := range c.Pol.Res {
		names = append(names, r.Name, r.Name+" ", strings.ToUpper(r.Name))
		for _, x := range r.Rels {
			names = append(names, x.Name)
		}
	}
	for _, name := range names {
		var want *ResDef
		for i := range c.Pol.Res {
			if c.Pol.Res[i].Name == name {
				want = &c.Pol.Res[i]
			}
		}
		got := p.GetResourceByName(name)
		if (got != nil) != (want != nil) || got != nil && (got.GetName() != name || len(got.GetRelations()) != len(want.Rels)) {
			return fmt.Errorf("GetResourceByName(%q) is %v, want %+v", name, got, want)
		}
	}
	for i, r := range p.Resources {
		for _, name := range names {
			want := c.Pol.find(c.Pol.Res[i].Name, name) != nil
			got := r.GetRelationByName(name)
			if (got != nil) != want || got != nil && got.GetName() != name {
				return fmt.Errorf("resource %q: GetRelationByName(%q) is %v, want %v", r.Name, name, got, want)
			}
		}
	}
	for _, r := range c.Pol.Res {
		for _, x := range r.Rels {
			var want []string
			x.E.rules(&want)
			var got []string
			for _, rule := range x.E.Proto().GetRules() {
				switch y := rule.GetRule().(type) {
				case *domain.Rule_This:
					got = append(got, "_this")
				case *domain.Rule_Cu:
					got = append(got, fmt.Sprintf("%q", y.Cu.GetTargetRelation()))
				case *domain.Rule_Ttu:
					got = append(got, fmt.Sprintf("%q->%q", y.Ttu.GetTuplesetRelation(), y.Ttu.GetComputedUsersetRelation()))
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Errorf("GetRules of %v: %v, want %v", x.E.Proto(), got, want)
			}
		}
	}
	return nil
}

// handMade is the expression tree made without the library's constructors
func (e *Expr) handMade() *domain.RelationExpressionTree {
	leaf := func(r *domain.Rule) *domain.RelationExpressionTree {
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: r}}
	}
	switch e.Op {
	case "this":
		return leaf(&domain.Rule{Rule: &domain.Rule_This{This: &domain.This{}}})
	case "cu":
		return leaf(&domain.Rule{Rule: &domain.Rule_Cu{Cu: &domain.ComputedUserset{TargetRelation: e.A}}})
	case "ttu":
		return leaf(&domain.Rule{Rule: &domain.Rule_Ttu{Ttu: &domain.TupleToUserset{TuplesetRelation: e.A, ComputedUsersetRelation: e.B}}})
	}
	o := map[string]domain.Operator{"+": domain.Operator_UNION, "&": domain.Operator_INTERSECTION, "-": domain.Operator_DIFFERENCE}[e.Op]
	return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{Left: e.L.handMade(), Right: e.R.handMade(), Operator: o}}}
}

// judgeMade looks at what the exported constructors make
func judgeMade(c GraphsCase) error {
	for _, r := range c.Pol.Res {
		for _, x := range r.Rels {
			if got, want := x.E.Proto(), x.E.handMade(); !proto.Equal(got, want) {
				return fmt.Errorf("the constructors make %v of %v", got, want)
			}
		}
	}
	data := []byte(strings.Join(c.Ids, "\n"))
	within := func(what string, at *timestamppb.Timestamp, t0 time.Time) error {
		if at == nil || at.AsTime().Before(t0.Add(-time.Second)) || at.AsTime().After(time.Now().Add(time.Second)) {
			return fmt.Errorf("%s made between %v and %v says it was created at %v", what, t0, time.Now(), at)
		}
		return nil
	}
	t0, p := time.Now(), c.Pol.Proto()
	rec := domain.NewPolicyRecord(p, data)
	if err := within("a policy record", rec.GetCreatedAt(), t0); err != nil {
		return err
	}
	if !proto.Equal(rec.GetPolicy(), c.Pol.Proto()) || string(rec.GetAppData()) != string(data) {
		return fmt.Errorf("NewPolicyRecord(%v, %q) is %v", p, data, rec)
	}
	for i, s := range c.Subs {
		e := domain.NewEntity(s.R, s.I)
		if e.GetResource() != s.R || e.GetId() != s.I {
			return fmt.Errorf("NewEntity(%q, %q) is %v", s.R, s.I, e)
		}
		rel := &domain.Relationship{Object: e, Relation: c.Ids[i%len(c.Ids)], Subject: s.Proto()}
		want := proto.Clone(rel)
		rr := domain.NewRelationshipRecord(s.I, rel, data)
		if err := within("a relationship record", rr.GetCreatedAt(), t0); err != nil {
			return err
		}
		if rr.GetPolicyId() != s.I || !proto.Equal(rr.GetRelationship(), want) || string(rr.GetAppData()) != string(data) {
			return fmt.Errorf("NewRelationshipRecord(%q, %v, %q) is %v", s.I, want, data, rr)
		}
	}
	for _, id := range c.Ids {
		some, none, pair := types.Some(id), types.None[string](), types.NewPair(id, len(id))
		if some.IsEmpty() || !none.IsEmpty() || some.Value() != id || pair.First() != id || pair.Second() != len(id) {
			return fmt.Errorf("an Option or Pair of %q does not hold it", id)
		}
		if guard("Value", func() error { none.Value(); return nil }) == nil {
			return fmt.Errorf("an empty Option has a value")
		}
	}
	return nil
}

func (e *Expr) rules(out *[]string) {
	switch e.Op {
	case "this":
		*out = append(*out, "_this")
	case "cu":
		*out = append(*out, fmt.Sprintf("%q", e.A))
	case "ttu":
		*out = append(*out, fmt.Sprintf("%q->%q", e.A, e.B))
	default:
		e.L.rules(out)
		e.R.rules(out)
	}
}
