package harness

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// ---------------------------------------------------------------------------
// Plain data: what cases are made of. Everything is JSON serializable so that a case is a replay file.
// ---------------------------------------------------------------------------

type Ent struct {
	R string `json:"r"`
	I string `json:"i"`
}

// Sub is a relationship subject. K: "e" entity, "s" entity set, "w" wildcard (every entity of a resource)
type Sub struct {
	K   string `json:"k"`
	R   string `json:"r"`
	I   string `json:"i,omitempty"`
	Rel string `json:"rel,omitempty"`
}

type Rel struct {
	O   Ent    `json:"o"`
	Rel string `json:"rel"`
	S   Sub    `json:"s"`
}

// Expr is a relation expression. Op is one of this, cu, ttu, +, &, -
type Expr struct {
	Op string `json:"op"`
	L  *Expr  `json:"l,omitempty"`
	R  *Expr  `json:"rr,omitempty"`
	A  string `json:"a,omitempty"`
	B  string `json:"b,omitempty"`
	N  int    `json:"n,omitempty"` // the undefined operator of a "badop"
}

type RestrItem struct {
	R   string `json:"r"`
	Rel string `json:"rel,omitempty"`
	Set bool   `json:"set,omitempty"`
}

// Restr kinds: "any" universal, "set" restriction set, "none" not given
type Restr struct {
	K     string      `json:"k"`
	Items []RestrItem `json:"items,omitempty"`
}

type RelDef struct {
	Name string `json:"name"`
	Desc string `json:"desc,omitempty"`
	E    *Expr  `json:"e,omitempty"`
	Tree bool   `json:"tree,omitempty"` // give the expression as a tree instead of text
	Raw  string `json:"raw,omitempty"`  // when E is nil: verbatim text
	Rs   Restr  `json:"rs"`
}

type ResDef struct {
	Name string   `json:"name"`
	Desc string   `json:"desc,omitempty"`
	Rels []RelDef `json:"rels,omitempty"`
}

type Pol struct {
	Id    string            `json:"id"`
	Name  string            `json:"name,omitempty"`
	Desc  string            `json:"desc,omitempty"`
	Res   []ResDef          `json:"res,omitempty"`
	Attrs map[string]string `json:"attrs,omitempty"`
}

func this() *Expr                         { return &Expr{Op: "this"} }
func cu(a string) *Expr                   { return &Expr{Op: "cu", A: a} }
func ttu(a, b string) *Expr               { return &Expr{Op: "ttu", A: a, B: b} }
func op(l *Expr, o string, r *Expr) *Expr { return &Expr{Op: o, L: l, R: r} }

var anyRestr = Restr{K: "any"}

func entity(r, i string) Sub         { return Sub{K: "e", R: r, I: i} }
func entitySet(r, i, rel string) Sub { return Sub{K: "s", R: r, I: i, Rel: rel} }
func wildcard(r string) Sub          { return Sub{K: "w", R: r} }

// ---------------------------------------------------------------------------
// Conversions to and from the API messages
// ---------------------------------------------------------------------------

func (e Ent) Proto() *domain.Entity { return &domain.Entity{Resource: e.R, Id: e.I} }

func (s Sub) Proto() *domain.Subject {
	switch s.K {
	case "e":
		return &domain.Subject{Subject: &domain.Subject_Entity{Entity: &domain.Entity{Resource: s.R, Id: s.I}}}
	case "s":
		return &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{
			Entity: &domain.Entity{Resource: s.R, Id: s.I}, Relation: s.Rel}}}
	case "w":
		return &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: s.R}}}
	}
	return &domain.Subject{}
}

func (r Rel) Proto() *domain.Relationship {
	return &domain.Relationship{Object: r.O.Proto(), Relation: r.Rel, Subject: r.S.Proto()}
}

func relFromProto(p *domain.Relationship) (Rel, error) {
	if p == nil || p.Object == nil || p.Subject == nil {
		return Rel{}, fmt.Errorf("relationship with missing parts: %v", p)
	}
	r := Rel{O: Ent{p.Object.Resource, p.Object.Id}, Rel: p.Relation}
	switch s := p.Subject.Subject.(type) {
	case *domain.Subject_Entity:
		r.S = entity(s.Entity.GetResource(), s.Entity.GetId())
	case *domain.Subject_EntitySet:
		r.S = entitySet(s.EntitySet.GetEntity().GetResource(), s.EntitySet.GetEntity().GetId(), s.EntitySet.GetRelation())
	case *domain.Subject_ResourceSet:
		r.S = wildcard(s.ResourceSet.GetResourceName())
	default:
		return r, fmt.Errorf("relationship without subject: %v", p)
	}
	return r, nil
}

func (e *Expr) Proto() *domain.RelationExpressionTree {
	if e == nil {
		return nil
	}
	switch e.Op {
	case "this":
		return domain.ThisNode()
	case "cu":
		return domain.CUNode(e.A)
	case "ttu":
		return domain.TTUNode(e.A, e.B)
	case "+":
		return domain.UnionNode(e.L.Proto(), e.R.Proto())
	case "&":
		return domain.IntersectionNode(e.L.Proto(), e.R.Proto())
	case "-":
		return domain.DifferenceNode(e.L.Proto(), e.R.Proto())
	case "empty": // a node without content
		return &domain.RelationExpressionTree{}
	case "norule":
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{}}}
	case "badop":
		return domain.NewOpNode(e.L.Proto(), domain.Operator(e.N), e.R.Proto())
	}
	panic("bad expr op " + e.Op)
}

// Text renders the expression fully parenthesized
func (e *Expr) Text() string {
	switch e.Op {
	case "this":
		return "_this"
	case "cu":
		return e.A
	case "ttu":
		return e.A + "->" + e.B
	}
	return "(" + e.L.Text() + " " + e.Op + " " + e.R.Text() + ")"
}

func (rs Restr) Proto() *domain.SubjectRestriction {
	switch rs.K {
	case "any":
		return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}
	case "none":
		return nil
	case "empty":
		return &domain.SubjectRestriction{}
	}
	set := &domain.SubjectRestrictionSet{}
	for _, it := range rs.Items {
		x := &domain.SubjectRestrictionSet_Restriction{}
		if it.Set {
			x.Entry = &domain.SubjectRestrictionSet_Restriction_EntitySet{EntitySet: &domain.EntitySetRestriction{ResourceName: it.R, RelationName: it.Rel}}
		} else {
			x.Entry = &domain.SubjectRestrictionSet_Restriction_Entity{Entity: &domain.EntityRestriction{ResourceName: it.R}}
		}
		set.Restrictions = append(set.Restrictions, x)
	}
	return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{RestrictionSet: set}}
}

func (d RelDef) Proto() *domain.Relation {
	r := &domain.Relation{Name: d.Name, Description: d.Desc, SubjectRestriction: d.Rs.Proto()}
	switch {
	case d.E == nil && d.Raw == "\x00none":
		r.RelationExpression = nil
	case d.E == nil && d.Raw == "\x00empty":
		r.RelationExpression = &domain.RelationExpression{}
	case d.E == nil:
		r.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: d.Raw}}
	case d.Tree:
		r.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: d.E.Proto()}}
	default:
		r.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: d.E.Text()}}
	}
	return r
}

func (p Pol) Proto() *domain.Policy {
	m := &domain.Policy{Id: p.Id, Name: p.Name, Description: p.Desc, Attributes: map[string]string{}}
	for k, v := range p.Attrs {
		m.Attributes[k] = v
	}
	for _, r := range p.Res {
		x := &domain.Resource{Name: r.Name, Description: r.Desc}
		for _, d := range r.Rels {
			x.Relations = append(x.Relations, d.Proto())
		}
		m.Resources = append(m.Resources, x)
	}
	return m
}

// wire sends a message through its wire encoding, which is how a remote caller's message arrives.
func wire[M proto.Message](m M) M {
	b, err := proto.Marshal(m)
	if err != nil {
		return m
	}
	out := m.ProtoReflect().New().Interface()
	if err := proto.Unmarshal(b, out); err != nil {
		return m
	}
	return out.(M)
}

// ---------------------------------------------------------------------------
// Reference semantics
// ---------------------------------------------------------------------------

func (p Pol) find(res, rel string) *RelDef {
	for i := range p.Res {
		if p.Res[i].Name == res {
			for j := range p.Res[i].Rels {
				if p.Res[i].Rels[j].Name == rel {
					return &p.Res[i].Rels[j]
				}
			}
		}
	}
	return nil
}

func (p Pol) hasRes(res string) bool {
	for i := range p.Res {
		if p.Res[i].Name == res {
			return true
		}
	}
	return false
}

// Node is an object and relation: the set of subjects which have the relation over the object
type Node struct{ R, I, Rel string }

func (n Node) Pretty() string { return "(" + n.R + ":" + n.I + ", " + n.Rel + ")" }

type lit struct {
	kind byte // 't' terminal, 'n' node, 'u' error source (tupleset wildcard)
	sub  Sub
	n    Node
}

type formula struct {
	op   byte // '|' '&' '-' or 'o' (disjunction of literals)
	l, r *formula
	lits []lit
}

// Graph is the ground form of a policy and its relationships, everything reachable from a node
type Graph struct {
	pol   Pol
	idx   map[Node][]Sub
	body  map[Node]*formula
	undef map[Node]bool
	wcttu map[Node]bool
	order []Node
	scc   map[Node]int
	sccs  [][]Node
	strat bool
	err   map[Node]bool // an undefined relation or a wildcard tupleset is reachable
}

func indexRels(rels []Rel) map[Node][]Sub {
	idx := map[Node][]Sub{}
	seen := map[Rel]bool{}
	for _, r := range rels {
		if seen[r] {
			continue
		}
		seen[r] = true
		n := Node{r.O.R, r.O.I, r.Rel}
		idx[n] = append(idx[n], r.S)
	}
	return idx
}

func newGraph(p Pol, rels []Rel) *Graph {
	return &Graph{pol: p, idx: indexRels(rels), body: map[Node]*formula{}, undef: map[Node]bool{}, wcttu: map[Node]bool{}}
}

func (g *Graph) ground(n Node, e *Expr) *formula {
	switch e.Op {
	case "this":
		f := &formula{op: 'o'}
		for _, s := range g.idx[n] {
			if s.K == "s" {
				f.lits = append(f.lits, lit{kind: 'n', n: Node{s.R, s.I, s.Rel}})
			} else {
				f.lits = append(f.lits, lit{kind: 't', sub: s})
			}
		}
		return f
	case "cu":
		return &formula{op: 'o', lits: []lit{{kind: 'n', n: Node{n.R, n.I, e.A}}}}
	case "ttu":
		f := &formula{op: 'o'}
		for _, s := range g.idx[Node{n.R, n.I, e.A}] {
			if s.K == "w" {
				g.wcttu[n] = true
				f.lits = append(f.lits, lit{kind: 'u', sub: s})
			} else {
				f.lits = append(f.lits, lit{kind: 'n', n: Node{s.R, s.I, e.B}})
			}
		}
		return f
	case "+":
		return &formula{op: '|', l: g.ground(n, e.L), r: g.ground(n, e.R)}
	case "&":
		return &formula{op: '&', l: g.ground(n, e.L), r: g.ground(n, e.R)}
	case "-":
		return &formula{op: '-', l: g.ground(n, e.L), r: g.ground(n, e.R)}
	}
	panic("ground: " + e.Op)
}

func (f *formula) walk(neg bool, fn func(l lit, neg bool)) {
	switch f.op {
	case 'o':
		for _, l := range f.lits {
			fn(l, neg)
		}
	case '-':
		f.l.walk(neg, fn)
		f.r.walk(true, fn)
	default:
		f.l.walk(neg, fn)
		f.r.walk(neg, fn)
	}
}

// explore grounds everything reachable from the given nodes and computes strongly connected components
func (g *Graph) explore(roots ...Node) {
	work := append([]Node(nil), roots...)
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if _, ok := g.body[n]; ok {
			continue
		}
		d := g.pol.find(n.R, n.Rel)
		if d == nil {
			g.undef[n] = true
			g.body[n] = &formula{op: 'o'}
			g.order = append(g.order, n)
			continue
		}
		e := d.E
		if e == nil {
			e, _ = refParse(d.Raw)
		}
		f := g.ground(n, e)
		g.body[n] = f
		g.order = append(g.order, n)
		f.walk(false, func(l lit, _ bool) {
			if l.kind == 'n' {
				work = append(work, l.n)
			}
		})
	}
	g.tarjan()
}

func (g *Graph) tarjan() {
	// iterative Tarjan; components come out in reverse topological order (dependencies first)
	index := map[Node]int{}
	low := map[Node]int{}
	on := map[Node]bool{}
	var stack []Node
	g.scc = map[Node]int{}
	g.sccs = nil
	counter := 0
	succs := func(n Node) []Node {
		var out []Node
		g.body[n].walk(false, func(l lit, _ bool) {
			if l.kind == 'n' {
				out = append(out, l.n)
			}
		})
		return out
	}
	type frame struct {
		n  Node
		ss []Node
		i  int
	}
	for _, root := range g.order {
		if _, ok := index[root]; ok {
			continue
		}
		frames := []*frame{{n: root, ss: succs(root)}}
		index[root], low[root] = counter, counter
		counter++
		stack = append(stack, root)
		on[root] = true
		for len(frames) > 0 {
			fr := frames[len(frames)-1]
			if fr.i < len(fr.ss) {
				m := fr.ss[fr.i]
				fr.i++
				if _, ok := index[m]; !ok {
					index[m], low[m] = counter, counter
					counter++
					stack = append(stack, m)
					on[m] = true
					frames = append(frames, &frame{n: m, ss: succs(m)})
				} else if on[m] && index[m] < low[fr.n] {
					low[fr.n] = index[m]
				}
				continue
			}
			frames = frames[:len(frames)-1]
			if len(frames) > 0 {
				p := frames[len(frames)-1].n
				if low[fr.n] < low[p] {
					low[p] = low[fr.n]
				}
			}
			if low[fr.n] == index[fr.n] {
				var comp []Node
				for {
					m := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[m] = false
					g.scc[m] = len(g.sccs)
					comp = append(comp, m)
					if m == fr.n {
						break
					}
				}
				g.sccs = append(g.sccs, comp)
			}
		}
	}
	g.err = map[Node]bool{}
	for ci, comp := range g.sccs {
		bad := false
		for _, n := range comp {
			if g.undef[n] || g.wcttu[n] {
				bad = true
			}
			g.body[n].walk(false, func(l lit, _ bool) {
				if l.kind == 'n' && g.scc[l.n] != ci && g.err[l.n] {
					bad = true
				}
			})
		}
		for _, n := range comp {
			g.err[n] = bad
		}
	}
}

// unstratified returns the nodes from which a cycle through a difference's right side is reachable
func (g *Graph) unstratified() map[Node]bool {
	out := map[Node]bool{}
	for ci, comp := range g.sccs {
		bad := false
		for _, n := range comp {
			g.body[n].walk(false, func(l lit, neg bool) {
				if l.kind != 'n' {
					return
				}
				if g.scc[l.n] == ci && neg {
					bad = true
				}
				if g.scc[l.n] != ci && out[l.n] {
					bad = true
				}
			})
		}
		for _, n := range comp {
			if bad {
				out[n] = true
			}
		}
	}
	return out
}

// eval tells whether the formula holds for the goal for certain, and whether it may hold, given what is known of nodes
func (f *formula) eval(goal Ent, must, may map[Node]bool) (bool, bool) {
	switch f.op {
	case 'o':
		possible := false
		for _, l := range f.lits {
			switch l.kind {
			case 't':
				if l.sub.R == goal.R && (l.sub.K == "w" || l.sub.I == goal.I) {
					return true, true
				}
			case 'n':
				if must[l.n] {
					return true, true
				}
				possible = possible || may[l.n]
			default:
				possible = true
			}
		}
		return false, possible
	}
	lm, lp := f.l.eval(goal, must, may)
	rm, rp := f.r.eval(goal, must, may)
	switch f.op {
	case '|':
		return lm || rm, lp || rp
	case '&':
		return lm && rm, lp && rp
	default:
		return lm && !rp, lp && !rm
	}
}

// decide computes, for a goal, which explored nodes have it for certain, and which may have it, depending on relations
// which are not defined (least fixpoints, component by component)
func (g *Graph) decide(goal Ent) (must, may map[Node]bool) {
	must, may = map[Node]bool{}, map[Node]bool{}
	for _, comp := range g.sccs {
		for changed := true; changed; {
			changed = false
			for _, n := range comp {
				if must[n] {
					continue
				}
				a, b := g.body[n].eval(goal, must, may)
				b = b || g.undef[n]
				if a && !must[n] || b && !may[n] {
					changed = true
				}
				must[n], may[n] = a, may[n] || b
			}
			if len(comp) == 1 && !changed {
				break
			}
		}
	}
	return must, may
}

// members are the nodes which have the goal, relations which are not defined being empty
func (g *Graph) members(goal Ent) map[Node]bool {
	must, _ := g.decide(goal)
	return must
}

// judgeAnswer judges a decision for a node which is defined and free of cycles through a subtracted side
func (g *Graph) judgeAnswer(n Node, goal Ent, got bool) error {
	must, may := g.decide(goal)
	return judgeDecision(n, must, may, got)
}

func judgeDecision(n Node, must, may map[Node]bool, got bool) error {
	if must[n] != may[n] {
		return fmt.Errorf("decided %v, though that depends on a relation which is not defined (an error was due)", got)
	}
	if got != must[n] {
		return fmt.Errorf("decided %v, the policy and relationships define %v", got, must[n])
	}
	return nil
}

// ---------------------------------------------------------------------------
// Admission
// ---------------------------------------------------------------------------

func (s Sub) complete() bool {
	switch s.K {
	case "e":
		return s.R != "" && s.I != ""
	case "s":
		return s.R != "" && s.I != "" && s.Rel != ""
	case "w":
		return s.R != ""
	}
	return false
}

func (r Rel) complete() bool {
	return r.O.R != "" && r.O.I != "" && r.Rel != "" && r.S.complete()
}

// admits tells whether the policy accepts the relationship
func (p Pol) admits(r Rel) bool {
	if !r.complete() {
		return false
	}
	d := p.find(r.O.R, r.Rel)
	if d == nil {
		return false
	}
	switch r.S.K {
	case "e", "w":
		if !p.hasRes(r.S.R) {
			return false
		}
	case "s":
		if p.find(r.S.R, r.S.Rel) == nil {
			return false
		}
	}
	switch d.Rs.K {
	case "any":
		return true
	case "set":
		for _, it := range d.Rs.Items {
			if it.R != r.S.R {
				continue
			}
			if it.Set == (r.S.K == "s") && (!it.Set || it.Rel == r.S.Rel) {
				return true
			}
		}
	}
	return false
}

func (e *Expr) wellFormed(p Pol, res string) bool {
	if e == nil {
		return false
	}
	switch e.Op {
	case "this":
		return true
	case "cu":
		return p.find(res, e.A) != nil
	case "ttu":
		return p.find(res, e.A) != nil
	case "+", "&", "-":
		return e.L.wellFormed(p, res) && e.R.wellFormed(p, res)
	}
	return false
}

// valid tells whether the policy is well formed
func (p Pol) valid() bool {
	if p.Id == "" {
		return false
	}
	names := map[string]bool{}
	for _, r := range p.Res {
		if r.Name == "" || names[r.Name] {
			return false
		}
		names[r.Name] = true
		rn := map[string]bool{}
		for _, d := range r.Rels {
			if d.Name == "" || rn[d.Name] {
				return false
			}
			rn[d.Name] = true
		}
	}
	for _, r := range p.Res {
		for _, d := range r.Rels {
			switch d.Rs.K {
			case "any", "none":
			case "set":
				for _, it := range d.Rs.Items {
					if it.Set && p.find(it.R, it.Rel) == nil || !it.Set && !p.hasRes(it.R) {
						return false
					}
				}
			default:
				return false
			}
			e := d.E
			if e == nil {
				var ok bool
				if strings.HasPrefix(d.Raw, "\x00") {
					return false
				}
				e, ok = refParse(d.Raw)
				if !ok {
					return false
				}
			}
			if !e.wellFormed(p, r.Name) {
				return false
			}
		}
	}
	return true
}

func sortedRels(rs []Rel) []Rel {
	out := append([]Rel(nil), rs...)
	sort.Slice(out, func(i, j int) bool { return fmt.Sprintf("%q", out[i]) < fmt.Sprintf("%q", out[j]) })
	return out
}
