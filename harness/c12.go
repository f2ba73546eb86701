package harness

import (
	"fmt"
	"sort"
	"strings"

	"github.com/awalterschulze/gographviz"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Reading DOT
// ---------------------------------------------------------------------------

type dotGraph struct {
	labels map[string]string // node id -> label
	edges  map[[2]string]int
}

// unquote reads a DOT string: \" and \\ stand for themselves, other escapes are kept
func unquote(s string) (string, error) {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return s, nil
	}
	return strings.NewReplacer(`\\`, `\`, `\"`, `"`, standIn, "\ufffd").Replace(s[1 : len(s)-1]), nil
}

const standIn = "\U000f1234"

func parseDOT(dot string) (*dotGraph, error) {
	// the parser takes U+FFFD for a decoding error, which is its limitation: another rune stands in for it
	dot = strings.ReplaceAll(dot, "\ufffd", standIn)
	ast, err := gographviz.ParseString(dot)
	if err != nil {
		return nil, fmt.Errorf("not a valid DOT document: %v\n%s", err, clip(dot))
	}
	g := gographviz.NewGraph()
	if err := gographviz.Analyse(ast, g); err != nil {
		return nil, fmt.Errorf("not a valid DOT graph: %v\n%s", err, clip(dot))
	}
	if !g.Directed {
		return nil, fmt.Errorf("the DOT graph is not directed:\n%s", clip(dot))
	}
	out := &dotGraph{labels: map[string]string{}, edges: map[[2]string]int{}}
	for _, n := range g.Nodes.Nodes {
		l, err := unquote(n.Attrs["label"])
		if err != nil {
			return nil, err
		}
		out.labels[n.Name] = l
	}
	for _, e := range g.Edges.Edges {
		out.edges[[2]string{e.Src, e.Dst}]++
	}
	return out, nil
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// ---------------------------------------------------------------------------
// C12 dump
// ---------------------------------------------------------------------------

// labels of nodes, as users see them
func objLabel(e Ent) string { return dotText(fmt.Sprintf("(%s:%s)", e.R, e.I)) }

func setLabel(e Ent, rel string) string { return dotText(fmt.Sprintf("(%s:%s, %s)", e.R, e.I, rel)) }

// DOT cannot hold the null character
func dotText(s string) string { return strings.ReplaceAll(s, "\x00", `\0`) }

func subLabels(s Sub) string {
	switch s.K {
	case "e":
		return objLabel(Ent{s.R, s.I})
	case "s":
		return setLabel(Ent{s.R, s.I}, s.Rel)
	}
	return dotText(fmt.Sprintf("(%s:*)", s.R))
}

func judgeDump(dot string, rels []Rel) error {
	g, err := parseDOT(dot)
	if err != nil {
		return err
	}
	// the synthetic root is the node without incoming edges labelled root, whose edges lead to the trees
	in := map[string]int{}
	for e := range g.edges {
		in[e[1]]++
	}
	var roots []string
	for id, l := range g.labels {
		if l == "root" && in[id] == 0 {
			roots = append(roots, id)
		}
	}
	if len(roots) != 1 {
		return fmt.Errorf("the dump has %d root nodes:\n%s", len(roots), clip(dot))
	}
	root := roots[0]
	// distinct nodes of the graph are distinct in the dump: compare the edges between nodes, by label, as multisets
	type key [2]string
	got := map[key]int{}
	for e, n := range g.edges {
		if e[0] == root {
			continue
		}
		if n != 1 {
			return fmt.Errorf("the dump has %d edges from %q to %q", n, g.labels[e[0]], g.labels[e[1]])
		}
		got[key{g.labels[e[0]], g.labels[e[1]]}] += n
	}
	want := map[key]int{}
	nodes := map[string]map[string]bool{} // label -> distinct nodes
	add := func(label, id string) {
		if nodes[label] == nil {
			nodes[label] = map[string]bool{}
		}
		nodes[label][id] = true
	}
	for r := range relSet(rels) {
		a, b := setLabel(r.O, r.Rel), subLabels(r.S)
		want[key{a, b}]++
		add(a, fmt.Sprintf("s %q %q %q", r.O.R, r.O.I, r.Rel))
		add(b, fmt.Sprintf("%s %q %q %q", r.S.K, r.S.R, r.S.I, r.S.Rel))
	}
	if err := diffCounts("edge", got, want, func(k key) string { return fmt.Sprintf("%q -> %q", k[0], k[1]) }); err != nil {
		return fmt.Errorf("%w\n%s", err, clip(dot))
	}
	gotNodes, wantNodes := map[string]int{}, map[string]int{}
	for id, l := range g.labels {
		if id != root {
			gotNodes[l]++
		}
	}
	for l, ids := range nodes {
		wantNodes[l] = len(ids)
	}
	if err := diffCounts("node", gotNodes, wantNodes, func(k string) string { return fmt.Sprintf("%q", k) }); err != nil {
		return fmt.Errorf("%w\n%s", err, clip(dot))
	}
	// every node is reachable from the root
	reach := map[string]bool{}
	work := []string{root}
	adj := map[string][]string{}
	for e := range g.edges {
		adj[e[0]] = append(adj[e[0]], e[1])
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if reach[n] {
			continue
		}
		reach[n] = true
		work = append(work, adj[n]...)
	}
	for id, l := range g.labels {
		if !reach[id] {
			return fmt.Errorf("node %q is not reachable from the root\n%s", l, clip(dot))
		}
	}
	return nil
}

func diffCounts[K comparable](what string, got, want map[K]int, show func(K) string) error {
	var bad []string
	for k, n := range want {
		if got[k] != n {
			bad = append(bad, fmt.Sprintf("%s %s: %d, want %d", what, show(k), got[k], n))
		}
	}
	for k, n := range got {
		if _, ok := want[k]; !ok {
			bad = append(bad, fmt.Sprintf("%s %s: %d, want none", what, show(k), n))
		}
	}
	if len(bad) == 0 {
		return nil
	}
	sort.Strings(bad)
	return fmt.Errorf("%s", strings.Join(bad, "; "))
}

func relSet(rels []Rel) map[Rel]bool {
	out := map[Rel]bool{}
	for _, r := range rels {
		out[r] = true
	}
	return out
}

func init() {
	register("C12", 14000, 200000,
		"Case: a graph as in C01 (random with adversarial names, dense cyclic, chains, ladders with exponentially many paths, complete graphs, fans), dumped and read back with a DOT parser; the multiset of labelled edges and nodes apart from the root is compared with the relationships, and every node must be reachable from the root. Non-trivial: at least 3 relationships of which one leads to another (or to itself).",
		func(t *rapid.T) GraphCase {
			c := genGraphCaseN(t, chance(t, 20, "big"))
			if chance(t, 30, "nearby") && len(c.Rels) > 0 {
				r := pick(t, c.Rels, "base")
				c.Rels = append(c.Rels, Rel{r.O, r.Rel, entitySet(r.O.R, r.O.I, r.Rel)})
			}
			return c
		},
		func(c GraphCase, st *Stats) error {
			z := newZ()
			if err := c.load(z); err != nil {
				return err
			}
			dot, err := z.Dump(c.Pol.Id)
			if err != nil {
				return fmt.Errorf("DumpRelationships failed: %w", err)
			}
			if err := judgeDump(dot, c.Rels); err != nil {
				return err
			}
			if _, err := z.Dump(c.Pol.Id + "?"); err == nil || isPanic(err) {
				return fmt.Errorf("DumpRelationships of an unknown policy: %v", err)
			}
			objs := map[Node]bool{}
			for _, r := range c.Rels {
				objs[Node{r.O.R, r.O.I, r.Rel}] = true
			}
			for _, r := range c.Rels {
				if r.S.K == "s" && objs[Node{r.S.R, r.S.I, r.S.Rel}] && len(c.Rels) >= 3 {
					st.NonTrivial = true
				}
			}
			st.label("shape-%s", c.Shape)
			return nil
		})
}
