package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"regexp"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// ExplainCase is a graph, the checks to explain and the roots to expand
type ExplainCase struct {
	G      GraphCase `json:"g"`
	Q      []int     `json:"q"`      // indexes of (node, subject) pairs
	Expand []Sub     `json:"expand"` // roots
}

func init() {
	register("C11", 4500, 80000,
		"Case: a policy with relationships as for C01 (names often adversarial, cyclic, shared, deep and wide shapes), up to 5 ExplainCheck requests in all three formats and up to 4 Expand roots (usersets, entities, wildcards). JSON is decoded and DOT parsed into trees, which must be the same tree; the tree must start at the request, the children of an explored node must be what the reference grounding gives for it, operator results must follow from their operands, success and failure must agree with reference membership, the decision with Check and the reference; an expansion must contain exactly the reachable nodes, all explored. Non-trivial: a successful and a failed explanation were judged, with a tree of at least 5 nodes.",
		func(t *rapid.T) ExplainCase {
			c := ExplainCase{G: genGraphCase(t)}
			for i := rapid.IntRange(1, 5).Draw(t, "nq"); i > 0; i-- {
				c.Q = append(c.Q, uni(t, len(c.G.Nodes)*len(c.G.Subs), "q"))
			}
			u := universeOf(&c.G)
			for i := rapid.IntRange(0, 4).Draw(t, "nx"); i > 0; i-- {
				if chance(t, 70, "set") {
					n := pick(t, c.G.Nodes, "xn")
					c.Expand = append(c.Expand, entitySet(n.R, n.I, n.Rel))
				} else {
					c.Expand = append(c.Expand, genSub(t, u, "x"))
				}
			}
			return c
		}, runC11)
}

// gnode is a node of a goal tree as a document shows it
type gnode struct {
	kind   string // path, or, and, op (or/and), diff
	sub    *Sub   // of a path
	label  string // of a path in DOT
	result string
	reason string
	kids   []*gnode
}

func (n *gnode) size() int {
	s := 1
	for _, k := range n.kids {
		s += k.size()
	}
	return s
}

func decodeJSONTree(text string) (*gnode, error) {
	var v any
	if err := json.Unmarshal([]byte(text), &v); err != nil {
		return nil, fmt.Errorf("not valid JSON: %w\n%s", err, clip(text))
	}
	return jsonNode(v)
}

// field gets a member of an object, whatever the case of its first letter
func field(v any, name string) any {
	m, _ := v.(map[string]any)
	if x, ok := m[name]; ok {
		return x
	}
	return m[strings.ToLower(name)]
}

func text(v any, name string) string {
	s, _ := field(v, name).(string)
	return s
}

func jsonNode(v any) (*gnode, error) {
	if _, ok := v.(map[string]any); !ok {
		return nil, fmt.Errorf("a JSON node which is no object: %v", clip(fmt.Sprint(v)))
	}
	n := &gnode{result: text(v, "Result"), reason: text(v, "Reason")}
	var kids []any
	switch rn := field(v, "RelationNode"); {
	case rn != nil:
		n.kind = "path"
		x := field(rn, "Node")
		var s Sub
		if es := field(x, "EntitySet"); es != nil {
			s = entitySet(text(field(es, "Object"), "Resource"), text(field(es, "Object"), "Id"), text(es, "Relation"))
		} else if e := field(x, "Entity"); e != nil {
			s = entity(text(field(e, "Object"), "Resource"), text(field(e, "Object"), "Id"))
		} else if w := field(x, "Wildcard"); w != nil {
			s = wildcard(text(w, "Resource"))
		} else {
			return nil, fmt.Errorf("JSON path without relation node: %v", clip(fmt.Sprint(v)))
		}
		n.sub = &s
		if p := field(v, "Path"); p != nil {
			kids = append(kids, p)
		}
	case field(v, "Left") != nil || field(v, "Right") != nil:
		n.kind = "diff"
		kids = []any{field(v, "Left"), field(v, "Right")}
	default:
		n.kind = "op"
		kids, _ = field(v, "Paths").([]any)
	}
	switch n.result {
	case "SUCCESS", "FAILURE", "UNKNOWN":
	default:
		return nil, fmt.Errorf("JSON node with result %q", n.result)
	}
	for _, k := range kids {
		c, err := jsonNode(k)
		if err != nil {
			return nil, err
		}
		n.kids = append(n.kids, c)
	}
	return n, nil
}

var resultRe = regexp.MustCompile(`(?s)\nresult: (SUCCESS|FAILURE|UNKNOWN)$`)

func decodeDOTTree(text string) (*gnode, error) {
	g, err := parseDOT(text)
	if err != nil {
		return nil, err
	}
	kids := map[string][]string{}
	in := map[string]int{}
	for e, c := range g.edges {
		if c != 1 {
			return nil, fmt.Errorf("DOT tree with %d edges %v", c, e)
		}
		kids[e[0]] = append(kids[e[0]], e[1])
		in[e[1]]++
	}
	if len(kids["root"]) != 1 {
		return nil, fmt.Errorf("DOT tree with %d trees under the root", len(kids["root"]))
	}
	seen := 0
	var build func(id string) (*gnode, error)
	build = func(id string) (*gnode, error) {
		if in[id] != 1 {
			return nil, fmt.Errorf("DOT node %s has %d parents", id, in[id])
		}
		seen++
		l := g.labels[id]
		m := resultRe.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("DOT label without result: %q", clip(l))
		}
		n := &gnode{result: m[1], label: l}
		switch {
		case strings.HasPrefix(l, "PathNode\n"):
			n.kind = "path"
		case strings.HasPrefix(l, "ORNode\n"):
			n.kind = "or"
		case strings.HasPrefix(l, "ANDNode\n"):
			n.kind = "and"
		case strings.HasPrefix(l, "DifferenceNode\n"):
			n.kind = "diff"
		default:
			return nil, fmt.Errorf("DOT node of unknown kind: %q", clip(l))
		}
		for _, k := range kids[id] {
			c, err := build(k)
			if err != nil {
				return nil, err
			}
			n.kids = append(n.kids, c)
		}
		return n, nil
	}
	t, err := build(kids["root"][0])
	if err != nil {
		return nil, err
	}
	if seen != len(g.labels)-1 {
		return nil, fmt.Errorf("DOT tree has %d nodes, %d of them under the root", len(g.labels)-1, seen)
	}
	return t, nil
}

func pathLabel(s Sub) string {
	switch s.K {
	case "s":
		return setLabel(Ent{s.R, s.I}, s.Rel)
	case "e":
		return objLabel(Ent{s.R, s.I})
	}
	return subLabels(s)
}

// canon is a hash of the tree in which the order of siblings does not matter
func (n *gnode) canon() uint64 {
	h := fnv.New64a()
	kind := n.kind
	if kind == "or" || kind == "and" {
		kind = "op"
	}
	var what string
	if kind == "path" {
		if n.sub != nil {
			what = "relation node: " + pathLabel(*n.sub) + "\nreason: " + dotText(n.reason) + "\n"
		} else {
			what = strings.TrimPrefix(resultRe.ReplaceAllString(n.label, "\n"), "PathNode\n")
		}
	}
	fmt.Fprintf(h, "%s %s %s", kind, n.result, what)
	var ks []uint64
	for _, k := range n.kids {
		ks = append(ks, k.canon())
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	fmt.Fprint(h, ks)
	return h.Sum64()
}

// consistent: operator results follow from their operands (exact for DOT, which tells OR from AND)
func (n *gnode) consistent() error {
	suc, fail, unk := 0, 0, 0
	for _, k := range n.kids {
		switch k.result {
		case "SUCCESS":
			suc++
		case "FAILURE":
			fail++
		default:
			unk++
		}
		if err := k.consistent(); err != nil {
			return err
		}
	}
	bad := false
	switch n.kind {
	case "path":
		bad = len(n.kids) > 1 || len(n.kids) == 1 && n.kids[0].result != n.result
	case "or":
		bad = n.result == "SUCCESS" && suc == 0 || n.result != "SUCCESS" && suc > 0
	case "and":
		bad = n.result == "SUCCESS" && suc < len(n.kids) || n.result != "SUCCESS" && len(n.kids) > 0 && suc == len(n.kids)
	case "op":
		bad = n.result == "SUCCESS" && suc == 0 || n.result != "SUCCESS" && len(n.kids) > 0 && suc == len(n.kids)
	case "diff":
		if len(n.kids) != 2 {
			return fmt.Errorf("a difference with %d operands", len(n.kids))
		}
		l, r := n.kids[0].result, n.kids[1].result
		if n.label != "" { // DOT: the order of the operands is not given
			bad = n.result == "SUCCESS" && !(suc == 1) || n.result == "FAILURE" && false
		} else {
			bad = (n.result == "SUCCESS") != (l == "SUCCESS" && r == "FAILURE")
		}
	}
	if bad {
		return fmt.Errorf("a %s node has result %s with operands of which %d succeed, %d fail and %d are unknown", n.kind, n.result, suc, fail, unk)
	}
	return nil
}

// below lists the nearest paths below a node
func (n *gnode) below(fn func(*gnode)) {
	for _, k := range n.kids {
		if k.kind == "path" {
			fn(k)
		} else {
			k.below(fn)
		}
	}
}

func (n *gnode) paths(fn func(*gnode)) {
	if n.kind == "path" {
		fn(n)
	}
	for _, k := range n.kids {
		k.paths(fn)
	}
}

// successors of a node according to the reference
func (g *Graph) successors(n Node) map[Sub]bool {
	out := map[Sub]bool{}
	if g.body[n] == nil {
		g.explore(n)
	}
	g.body[n].walk(false, func(l lit, _ bool) {
		if l.kind == 'n' {
			out[entitySet(l.n.R, l.n.I, l.n.Rel)] = true
		} else if l.kind == 't' {
			out[l.sub] = true
		}
	})
	return out
}

// judgeChildren: the children of every explored node are what its expression leads to
func (g *Graph) judgeChildren(tree *gnode) (err error) {
	tree.paths(func(p *gnode) {
		if err != nil || len(p.kids) == 0 {
			return
		}
		if p.sub.K != "s" {
			err = fmt.Errorf("%+v has children", *p.sub)
			return
		}
		got := map[Sub]bool{}
		p.below(func(k *gnode) { got[*k.sub] = true })
		want := g.successors(Node{p.sub.R, p.sub.I, p.sub.Rel})
		for s := range want {
			if !got[s] {
				err = fmt.Errorf("the explored node %+v has no child %+v", *p.sub, s)
			}
		}
		for s := range got {
			if !want[s] {
				err = fmt.Errorf("the explored node %+v has a child %+v which its expression does not lead to", *p.sub, s)
			}
		}
	})
	return
}

func (g *Graph) judgeResults(tree *gnode, goal Ent) (err error) {
	uns := g.unstratified()
	mem := g.members(goal)
	cyclic := map[Node]bool{}
	for _, comp := range g.sccs {
		for _, n := range comp {
			self := len(comp) > 1
			g.body[n].walk(false, func(l lit, _ bool) {
				if l.kind == 'n' && l.n == n {
					self = true
				}
			})
			cyclic[n] = self
		}
	}
	tree.paths(func(p *gnode) {
		if err != nil || p.result == "UNKNOWN" {
			return
		}
		s := *p.sub
		var want bool
		if s.K == "s" {
			n := Node{s.R, s.I, s.Rel}
			if uns[n] || g.body[n] == nil || cyclic[n] && p.result == "FAILURE" {
				return
			}
			want = mem[n]
		} else {
			want = s.R == goal.R && (s.K == "w" || s.I == goal.I)
		}
		if want != (p.result == "SUCCESS") {
			err = fmt.Errorf("the node %+v is reported as %s, %+v is a member: %v", s, p.result, goal, want)
		}
	})
	return
}

var spewRe = regexp.MustCompile(`SearchResult\)\s*(SUCCESS|FAILURE|UNKNOWN)`)

var wordRe = regexp.MustCompile(`^[A-Za-z0-9]+$`)

// judgeText: the text form mentions every node of the tree
func judgeText(doc string, tree *gnode) (err error) {
	tree.paths(func(p *gnode) {
		for _, s := range []string{p.sub.R, p.sub.I, p.sub.Rel} {
			if err == nil && wordRe.MatchString(s) && !strings.Contains(doc, s) {
				err = fmt.Errorf("the text form lacks the node %+v", *p.sub)
			}
		}
	})
	return err
}

func runC11(c ExplainCase, st *Stats) error {
	z := newZ()
	if err := c.G.load(z); err != nil {
		return err
	}
	id := c.G.Pol.Id
	suc, fail, big := 0, 0, 0
	for _, q := range c.Q {
		n := c.G.Nodes[q%len(c.G.Nodes)]
		s := c.G.Subs[q/len(c.G.Nodes)%len(c.G.Subs)]
		g := newGraph(c.G.Pol, c.G.Rels)
		g.explore(n)
		what := fmt.Sprintf("ExplainCheck(%+v, %+v)", n, s)
		check, cerr := z.Check(id, n, s)
		var jt, dt *gnode
		var text string
		for _, f := range []api.ExplainFormat{api.ExplainFormat_JSON, api.ExplainFormat_DOT, api.ExplainFormat_SPEW} {
			resp, err := z.Explain(id, n, s, f)
			if isPanic(err) {
				return err
			}
			if (err == nil) != (cerr == nil) {
				return fmt.Errorf("%s in format %v: error %v, Check's error %v", what, f, err, cerr)
			}
			if err != nil {
				if !g.err[n] {
					return fmt.Errorf("%s failed: %w", what, err)
				}
				continue
			}
			if resp.GetFormat() != f {
				return fmt.Errorf("%s in format %v names format %v", what, f, resp.GetFormat())
			}
			if resp.GetAuthorized() != check {
				return fmt.Errorf("%s in format %v decides %v, Check %v", what, f, resp.GetAuthorized(), check)
			}
			if !g.unstratified()[n] {
				if err := g.judgeAnswer(n, s, resp.GetAuthorized()); err != nil {
					return fmt.Errorf("%s %w", what, err)
				}
			}
			doc := resp.GetGoalTree()
			switch f {
			case api.ExplainFormat_JSON:
				jt, err = decodeJSONTree(doc)
			case api.ExplainFormat_DOT:
				dt, err = decodeDOTTree(doc)
			default:
				text = doc
				m := spewRe.FindStringSubmatch(doc)
				if doc == "" || m != nil && (m[1] == "SUCCESS") != check {
					err = fmt.Errorf("the text starts with the result %v", m)
				}
			}
			if err != nil {
				return fmt.Errorf("%s in format %v: %w", what, f, err)
			}
		}
		if jt == nil || dt == nil {
			continue
		}
		for _, tr := range []*gnode{jt, dt} {
			if tr.kind != "path" || (tr.result == "SUCCESS") != check {
				return fmt.Errorf("%s: the root is a %s with result %s, the decision is %v", what, tr.kind, tr.result, check)
			}
			if err := tr.consistent(); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
		if want := entitySet(n.R, n.I, n.Rel); *jt.sub != want {
			return fmt.Errorf("%s: the tree starts at %+v", what, *jt.sub)
		}
		if jt.canon() != dt.canon() {
			return fmt.Errorf("%s: the JSON and the DOT tree differ", what)
		}
		if err := judgeText(text, jt); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := g.judgeChildren(jt); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if len(jt.kids) != 1 {
			return fmt.Errorf("%s: the request is not explored", what)
		}
		if err := g.judgeResults(jt, s); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if jt.size() >= 5 {
			big++
		}
		if check {
			suc++
		} else {
			fail++
		}
	}
	for _, root := range c.Expand {
		if err := judgeExpand(z, c.G, root, st); err != nil {
			return fmt.Errorf("Expand(%+v): %w", root, err)
		}
	}
	st.NonTrivial = suc > 0 && fail > 0 && big > 0
	st.labelIf(suc > 0, "success")
	st.labelIf(fail > 0, "failure")
	st.label("shape-%s", c.G.Shape)
	return nil
}

func subNode(s Sub) *domain.RelationNode {
	switch s.K {
	case "s":
		return nodeProto(Node{s.R, s.I, s.Rel})
	case "e":
		return &domain.RelationNode{Node: &domain.RelationNode_Entity{Entity: &domain.EntityNode{Object: &domain.Entity{Resource: s.R, Id: s.I}}}}
	}
	return &domain.RelationNode{Node: &domain.RelationNode_Wildcard{Wildcard: &domain.WildcardNode{Resource: s.R}}}
}

func judgeExpand(z *Z, c GraphCase, root Sub, st *Stats) error {
	g := newGraph(c.Pol, c.Rels)
	want := map[Sub]bool{root: true}
	mayFail := false
	if root.K == "s" {
		n := Node{root.R, root.I, root.Rel}
		g.explore(n)
		for _, m := range g.order {
			want[entitySet(m.R, m.I, m.Rel)] = true
			for s := range g.successors(m) {
				want[s] = true
			}
		}
		mayFail = g.err[n]
	}
	var trees []*gnode
	var text string
	for _, f := range []api.ExplainFormat{api.ExplainFormat_JSON, api.ExplainFormat_DOT, api.ExplainFormat_SPEW} {
		req := subNode(root)
		before := proto.Clone(req)
		resp, err := z.Expand(c.Pol.Id, req, f)
		if isPanic(err) {
			return err
		}
		if err != nil {
			if mayFail {
				st.label("expand-error")
				return nil
			}
			return fmt.Errorf("format %v failed: %w", f, err)
		}
		if !proto.Equal(req, before) {
			return fmt.Errorf("changed its request")
		}
		if resp.GetFormat() != f {
			return fmt.Errorf("format %v names format %v", f, resp.GetFormat())
		}
		var tree *gnode
		switch f {
		case api.ExplainFormat_JSON:
			tree, err = decodeJSONTree(resp.GetGoalTree())
		case api.ExplainFormat_DOT:
			tree, err = decodeDOTTree(resp.GetGoalTree())
		default:
			text = resp.GetGoalTree()
			if text == "" {
				err = fmt.Errorf("empty")
			}
		}
		if err != nil {
			return fmt.Errorf("format %v: %w", f, err)
		}
		trees = append(trees, tree)
	}
	jt := trees[0]
	if err := judgeText(text, jt); err != nil {
		return err
	}
	if jt.canon() != trees[1].canon() {
		return fmt.Errorf("the JSON and the DOT tree differ")
	}
	if jt.kind != "path" || *jt.sub != root {
		return fmt.Errorf("the tree starts at %+v", jt.sub)
	}
	if mayFail {
		return nil // where an error is due, which part of the graph is left out is not defined
	}
	if err := g.judgeChildren(jt); err != nil {
		return err
	}
	got, explored := map[Sub]bool{}, map[Sub]bool{}
	jt.paths(func(p *gnode) {
		got[*p.sub] = true
		if len(p.kids) > 0 {
			explored[*p.sub] = true
		}
	})
	for s := range want {
		if !got[s] {
			return fmt.Errorf("%+v is reachable and not in the tree", s)
		}
		if s.K == "s" && !explored[s] {
			return fmt.Errorf("%+v is in the tree but not expanded", s)
		}
	}
	for s := range got {
		if !want[s] {
			return fmt.Errorf("%+v is in the tree and not reachable", s)
		}
	}
	st.label("expanded-%s", root.K)
	return nil
}
