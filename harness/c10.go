package harness

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// YamlCase is a policy, a way of writing it as YAML, and malformed variants of the document
type YamlCase struct {
	Pol   Pol      `json:"pol"`
	Style []int    `json:"style"` // choices of the writer, used in turn
	Upd   bool     `json:"upd"`   // give it to update instead of create
	Rels  []Rel    `json:"rels"`
	Nodes []Node   `json:"nodes"`
	Subs  []Ent    `json:"subs"`
	Bad   []string `json:"bad"` // malformed variants of the document
	Wire  bool     `json:"wire,omitempty"`
	Share bool     `json:"share,omitempty"` // write repeated values with anchors and aliases, and merged mappings
}

func init() {
	register("C10", 16000, 250000,
		"Case: a generated policy (texts only; docs, attributes and names often adversarial; valid or with one defect) written as YAML by an independent writer which varies key order, block and flow style, plain, single and double quoted, literal and explicit-key forms, indentation, line ends, raw tabs, comments, document markers, anchors with aliases and merged mappings, and given to create or update; the stored policy is compared with the structured one (order of resources and relations apart) and with what the same document gives elsewhere, then acceptance of relationships and Check answers with the reference; plus 0-4 documents made malformed on purpose (unknown fields at any level, duplicate keys, wrong node kinds, broken syntax), which must be errors that store nothing. Non-trivial: an accepted policy with at least one restriction, or at least one malformed document.",
		genYamlCase, runC10)
}

func yamlName(s string) bool { return s != "*" && !strings.Contains(s, ":") }

func genDoc(t *rapid.T, label string) string {
	if chance(t, 60, label) {
		return ""
	}
	if chance(t, 40, label+"n") {
		return genName(t, label)
	}
	return pick(t, []string{"a doc", "line one\nline two", "tabs\tand \"quotes\" 'single'", "# not a comment", "key: value", "- item", "[x]", "{x: y}", "yes", "null", "~", "1e3", "0x10", "2001-01-01", "true", " leading", "trailing ", "%percent", "@at", "`tick", "é ü 日本", "a  b", "\n", "line\n", "\n\nx\n\n", "...", "---"}, label+"d")
}

func genYamlCase(t *rapid.T) YamlCase {
	nasty := chance(t, 40, "nasty")
	po := polOpts{nasty: nasty, restrict: true, maxRes: 4, maxRel: 4, maxIds: 3, depth: 3}
	u := genUniverse(t, po)
	for i, r := range u.Res {
		if !yamlName(r) {
			n := fmt.Sprintf("res%d", i)
			u.Rels[n], u.Ids[n] = u.Rels[r], u.Ids[r]
			u.Res[i] = n
		}
	}
	p := genPol(t, genPolId(t), u, po)
	p.Name, p.Desc = genDoc(t, "name"), genDoc(t, "desc")
	for i := range p.Res {
		p.Res[i].Desc = genDoc(t, "rdesc")
		for j := range p.Res[i].Rels {
			d := &p.Res[i].Rels[j]
			d.Desc = genDoc(t, "reldesc")
			if !d.E.textable() {
				d.E = this()
			}
			d.Tree = false
			if d.Rs.K == "none" {
				d.Rs = Restr{K: "set"}
			}
			if chance(t, 35, "anyrs") {
				d.Rs = anyRestr
			}
		}
	}
	for i := rapid.IntRange(0, 3).Draw(t, "nattr"); i > 0; i-- {
		if p.Attrs == nil {
			p.Attrs = map[string]string{}
		}
		p.Attrs[genName(t, "ak")] = genDoc(t, "av")
	}
	if chance(t, 25, "mut") {
		q := mutatePol(t, p)
		if q.yamlable() {
			p = q
		}
	}
	inflate(t, &p, 8)
	c := YamlCase{Pol: p, Upd: chance(t, 40, "upd"), Wire: chance(t, 20, "wire"), Share: chance(t, 30, "share")}
	c.Style = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int { return uni(t, 32, "s") }), 1, 24).Draw(t, "style")
	c.Rels = genRels(t, u, 0, 8, "rels")
	for i := range c.Rels {
		if chance(t, 50, "aim") {
			aimRel(t, p, u, &c.Rels[i])
		}
	}
	c.Nodes, c.Subs = u.nodes(), u.entities()
	for i := rapid.IntRange(0, 4).Draw(t, "nbad"); i > 0; i-- {
		c.Bad = append(c.Bad, pick(t, badKinds, "bad"))
	}
	return c
}

// yamlable: the policy can be written as YAML so that it means the same
func (p Pol) yamlable() bool {
	seen := map[string]bool{}
	for _, r := range p.Res {
		if seen[r.Name] || !yamlName(r.Name) {
			return false
		}
		seen[r.Name] = true
		rs := map[string]bool{}
		for _, d := range r.Rels {
			if rs[d.Name] || d.Tree || strings.HasPrefix(d.Raw, "\x00") || d.Rs.K == "none" || d.Rs.K == "empty" {
				return false
			}
			rs[d.Name] = true
			for _, it := range d.Rs.Items {
				if !yamlName(it.R) || strings.HasPrefix(it.R, "*") {
					return false
				}
			}
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// YAML writer
// ---------------------------------------------------------------------------

type ynode struct {
	scalar string
	keys   []string
	vals   []*ynode
	seq    []*ynode
	kind   byte   // 's' scalar, 'm' mapping, 'q' sequence, 'r' raw text, '0' null
	raw    string // for 'r'
}

func ys(s string) *ynode { return &ynode{kind: 's', scalar: s} }

func (n *ynode) add(k string, v *ynode) { n.keys = append(n.keys, k); n.vals = append(n.vals, v) }

type yw struct {
	style   []int
	pos     int
	share   bool              // repeated values are written with anchors and aliases
	anchors map[string]string // what has an anchor, by content
}

const mergeKey = "\x00<<" // written as <<, the key which merges another mapping into this one

// content identifies the value a node stands for
func (n *ynode) content() string {
	s := fmt.Sprintf("%c%q", n.kind, n.scalar)
	for i, k := range n.keys {
		s += fmt.Sprintf("%q:%s,", k, n.vals[i].content())
	}
	for _, x := range n.seq {
		s += x.content() + ";"
	}
	if n.kind == 'r' {
		return "raw" + n.raw
	}
	return s + "."
}

// shared returns the alias of a value written before, or the anchor to write before this one
func (w *yw) shared(n *ynode) (alias, anchor string) {
	if !w.share || n.kind == 'r' {
		return "", ""
	}
	k := n.content()
	if strings.Contains(k, "raw") && strings.Contains(k, "*") {
		return "", ""
	}
	if a, ok := w.anchors[k]; ok {
		if w.next(4) != 0 {
			return "*" + a, ""
		}
		return "", ""
	}
	if w.next(2) == 0 {
		if w.anchors == nil {
			w.anchors = map[string]string{}
		}
		w.anchors[k] = fmt.Sprintf("a%d", len(w.anchors))
		return "", "&" + w.anchors[k] + " "
	}
	return "", ""
}

func (w *yw) key(k string) string {
	if k == mergeKey {
		return "<<"
	}
	return w.scalar(k)
}

func (w *yw) next(n int) int {
	v := w.style[w.pos%len(w.style)] + w.pos/len(w.style)
	w.pos++
	return v % n
}

var plainRe = regexp.MustCompile(`^[A-Za-z_(][A-Za-z0-9_+&()/>-]*( [A-Za-z0-9_+&()/>-]+)*$`)

// tabs between other characters are kept as they are
var innerTabs = regexp.MustCompile(`^[!-~][ -~]*[!-~]\t[!-~][ -~]*$`)
var literalRe = regexp.MustCompile(`^[!-~][ -~]*(\n+[ -~]+)*\n*$`)
var reserved = map[string]bool{"null": true, "Null": true, "NULL": true, "true": true, "True": true, "TRUE": true, "false": true, "False": true, "FALSE": true, "yes": true, "no": true, "on": true, "off": true, "y": true, "n": true}

func quoteYaml(s string, ascii bool) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r >= ' ' && r < 0x7f:
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t' && ascii:
			b.WriteString(`\t`)
		case !ascii && (r == '\t' && innerTabs.MatchString(s) || r >= 0xc0 && r < 0x24f || r >= 0x3040 && r < 0x9fff):
			b.WriteRune(r)
		case r < 0x10000:
			fmt.Fprintf(&b, `\u%04X`, r)
		default:
			fmt.Fprintf(&b, `\U%08X`, r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (w *yw) scalar(s string) string {
	switch w.next(4) {
	case 0, 1:
		if plainRe.MatchString(s) && !reserved[s] {
			return s
		}
	case 2:
		ok := true
		for _, r := range s {
			if (r < ' ' || r > 0x7e) && !(r == '\t' && innerTabs.MatchString(s)) {
				ok = false
			}
		}
		if ok {
			return "'" + strings.ReplaceAll(s, "'", "''") + "'"
		}
	}
	return quoteYaml(s, w.next(2) == 0)
}

func (w *yw) flow(n *ynode) string {
	alias, anchor := w.shared(n)
	if alias != "" {
		return alias
	}
	return anchor + w.flow1(n)
}

func (w *yw) flow1(n *ynode) string {
	switch n.kind {
	case 's':
		return w.scalar(n.scalar)
	case 'r':
		return n.raw
	case '0':
		return "null"
	case 'q':
		var out []string
		for _, x := range n.seq {
			out = append(out, w.flow(x))
		}
		s := "[" + strings.Join(out, ", ")
		if len(out) > 0 && w.next(4) == 0 {
			s += ","
		}
		return s + "]"
	}
	var out []string
	for i, k := range n.keys {
		ks := w.key(k)
		if len(ks) > 500 || w.next(8) == 0 {
			ks = "? " + ks + " "
		}
		out = append(out, ks+": "+w.flow(n.vals[i]))
	}
	return "{" + strings.Join(out, ", ") + "}"
}

func (w *yw) block(b *strings.Builder, n *ynode, ind string) {
	step := []string{"  ", " ", "    "}[w.next(3)]
	comment := func() string {
		if w.next(6) == 0 {
			return " # comment: [x"
		}
		return ""
	}
	if n.kind == 'q' {
		for _, x := range n.seq {
			fmt.Fprintf(b, "%s- %s%s\n", ind, w.flow(x), comment())
		}
		return
	}
	for i, k := range n.keys {
		if w.next(9) == 0 {
			b.WriteString("\n" + ind + "# a comment\n")
		}
		ks := w.key(k)
		if len(ks) > 500 || w.next(9) == 0 {
			b.WriteString(ind + "? " + ks + "\n" + ind + ":")
		} else {
			b.WriteString(ind + ks + ":")
		}
		v := n.vals[i]
		switch {
		case v.kind == 'm' && len(v.keys) > 0 && w.next(4) != 0:
			alias, anchor := w.shared(v)
			if alias != "" {
				b.WriteString(" " + alias + comment() + "\n")
				break
			}
			if anchor != "" {
				b.WriteString(" " + strings.TrimSpace(anchor))
			}
			b.WriteString(comment() + "\n")
			w.block(b, v, ind+step)
		case v.kind == 'q' && len(v.seq) > 0 && w.next(2) == 0:
			b.WriteString(comment() + "\n")
			sub := ind + step
			if w.next(3) == 0 {
				sub = ind // a sequence may be indented like its key
			}
			w.block(b, v, sub)
		case v.kind == '0' && w.next(2) == 0:
			b.WriteString("\n")
		case v.kind == 's' && plainRe.MatchString(v.scalar) && w.next(5) == 0:
			b.WriteString(" |-\n" + ind + step + v.scalar + "\n")
		case v.kind == 's' && len(v.scalar) < 4000 && literalRe.MatchString(v.scalar) && w.next(4) == 0:
			text, chomp := strings.TrimRight(v.scalar, "\n"), "-"
			switch len(v.scalar) - len(text) {
			case 0:
			case 1:
				chomp = ""
			default:
				chomp = "+"
			}
			b.WriteString(" |" + chomp + "\n")
			for _, line := range strings.Split(text, "\n") {
				b.WriteString(ind + step + line + "\n")
			}
			if chomp == "+" {
				b.WriteString(strings.Repeat("\n", len(v.scalar)-len(text)-1))
			}
		default:
			b.WriteString(" " + w.flow(v) + comment() + "\n")
		}
	}
}

// shuffle orders the keys of every mapping
func (w *yw) shuffle(n *ynode) {
	for i := len(n.keys) - 1; i > 0; i-- {
		j := w.next(i + 1)
		n.keys[i], n.keys[j] = n.keys[j], n.keys[i]
		n.vals[i], n.vals[j] = n.vals[j], n.vals[i]
	}
	for _, v := range n.vals {
		w.shuffle(v)
	}
}

func (p Pol) yamlTree(w *yw) *ynode {
	root := &ynode{kind: 'm'}
	str := func(n *ynode, k, v string) {
		if v != "" || w.next(3) == 0 {
			n.add(k, ys(v))
		}
	}
	str(root, "id", p.Id)
	str(root, "name", p.Name)
	str(root, "doc", p.Desc)
	if len(p.Attrs) > 0 {
		a := &ynode{kind: 'm'}
		for _, k := range sortedKeys(p.Attrs) {
			a.add(k, ys(p.Attrs[k]))
		}
		root.add("attributes", a)
	}
	res := &ynode{kind: 'm'}
	for _, r := range p.Res {
		rn := &ynode{kind: 'm'}
		str(rn, "doc", r.Desc)
		rels := &ynode{kind: 'm'}
		for _, d := range r.Rels {
			dn := &ynode{kind: 'm'}
			str(dn, "doc", d.Desc)
			text := d.Raw
			if d.E != nil {
				text = d.E.Text()
			}
			str(dn, "expr", text)
			types := &ynode{kind: 'q'}
			if d.Rs.K == "any" {
				if w.next(4) == 0 { // the universal type makes the others irrelevant
					types.seq = append(types.seq, ys("whatever"))
				}
				types.seq = append(types.seq, ys("*"))
				if w.next(4) == 0 {
					types.seq = append(types.seq, ys("what:ever"))
				}
			}
			for _, it := range d.Rs.Items {
				s := it.R
				if it.Set {
					s += ":" + it.Rel
				}
				types.seq = append(types.seq, ys(s))
			}
			if len(types.seq) > 0 || w.next(2) == 0 {
				dn.add("types", types)
			}
			if len(dn.keys) == 0 {
				dn.kind = '0'
			} else if w.share && w.next(3) == 0 {
				// some of the fields come from a merged mapping, which loses against those given here
				base := &ynode{kind: 'm'}
				n := w.next(len(dn.keys) + 1)
				for i, k := range dn.keys {
					if i < n {
						base.add(k, dn.vals[i])
					} else if k != "types" && w.next(2) == 0 {
						base.add(k, ys("overridden"))
					}
				}
				if len(base.keys) > 0 {
					dn.keys, dn.vals = dn.keys[n:], dn.vals[n:]
					dn.add(mergeKey, base)
				}
			}
			rels.add(d.Name, dn)
		}
		if len(rels.keys) > 0 {
			rn.add("relations", rels)
		} else if w.next(3) == 0 {
			rn.add("relations", &ynode{kind: '0'})
		}
		if len(rn.keys) == 0 && w.next(2) == 0 {
			rn.kind = '0'
		}
		res.add(r.Name, rn)
	}
	if len(res.keys) > 0 {
		root.add("resources", res)
	}
	w.shuffle(root)
	return root
}

func (w *yw) document(root *ynode) string {
	if len(root.keys) == 0 || w.next(8) == 0 {
		return w.flow(root) + "\n"
	}
	var b strings.Builder
	if w.next(4) == 0 {
		b.WriteString("# policy\n---\n")
	}
	w.block(&b, root, "")
	if w.next(6) == 0 {
		b.WriteString("...\n")
	}
	if w.next(10) == 0 {
		return strings.ReplaceAll(b.String(), "\n", "\r\n")
	}
	return b.String()
}

var badKinds = []string{"unknown-top", "unknown-top2", "unknown-resource", "unknown-relation", "dup-top", "dup-resource", "dup-relation", "id-seq", "resources-seq", "resources-scalar", "resource-seq", "relations-seq", "relation-seq", "types-map", "expr-map", "attr-seq", "attr-nested", "open-quote", "open-bracket", "bad-indent", "tab", "alias", "root-seq", "root-scalar", "empty", "control", "case", "two-docs"}

// malform makes the document malformed in a given way; the result describes no policy
func malform(kind string, root *ynode, w *yw) (string, bool) {
	get := func(n *ynode, k string) *ynode {
		for i := range n.keys {
			if n.keys[i] == k {
				return n.vals[i]
			}
		}
		return nil
	}
	set := func(n *ynode, k string, v *ynode) {
		for i := range n.keys {
			if n.keys[i] == k {
				n.vals[i] = v
				return
			}
		}
		n.add(k, v)
	}
	fresh := func() *ynode { m := &ynode{kind: 'm'}; m.add("doc", ys("d")); return m }
	resources := get(root, "resources")
	if resources == nil {
		resources = &ynode{kind: 'm'}
		root.add("resources", resources)
	}
	if len(resources.keys) == 0 {
		resources.add("r", fresh())
	}
	i := w.next(len(resources.keys))
	if resources.vals[i].kind != 'm' {
		resources.vals[i] = fresh()
	}
	res := resources.vals[i]
	rels := get(res, "relations")
	if rels == nil || rels.kind != 'm' || len(rels.keys) == 0 {
		rels = &ynode{kind: 'm'}
		rels.add("x", fresh())
		set(res, "relations", rels)
	}
	j := w.next(len(rels.keys))
	if rels.vals[j].kind != 'm' {
		rels.vals[j] = fresh()
	}
	rel := rels.vals[j]
	raw := func(s string) *ynode { return &ynode{kind: 'r', raw: s} }
	switch kind {
	case "unknown-top":
		root.add([]string{"version", "actors", "unknown", "ID", "attribute"}[w.next(5)], ys("x"))
	case "unknown-top2":
		root.add("permissions", raw("{a: b}"))
	case "unknown-resource":
		res.add([]string{"permissions", "name", "relation", "Doc"}[w.next(4)], raw("{}"))
	case "unknown-relation":
		rel.add([]string{"type", "expression", "name", "Expr", "manages"}[w.next(5)], ys("_this"))
	case "case":
		rel.add("TYPES", raw("[]"))
	case "dup-top":
		root.add("name", ys("a"))
		root.add("name", ys("b"))
	case "dup-resource":
		resources.add(resources.keys[i], fresh())
	case "dup-relation":
		rels.add(rels.keys[j], fresh())
	case "id-seq":
		set(root, "id", raw("[a, b]"))
	case "resources-seq":
		set(root, "resources", raw("[user, file]"))
	case "resources-scalar":
		set(root, "resources", ys("user"))
	case "resource-seq":
		resources.vals[i] = raw("[doc]")
	case "relations-seq":
		set(res, "relations", raw("[reader]"))
	case "relation-seq":
		rels.vals[j] = raw("[_this]")
	case "types-map":
		set(rel, "types", raw("{user: x}"))
	case "expr-map":
		set(rel, "expr", raw("{_this: x}"))
	case "attr-seq":
		set(root, "attributes", raw("[a]"))
	case "attr-nested":
		set(root, "attributes", raw("{a: {b: c}}"))
	case "open-quote":
		return "id: x\ndoc: y\nname: " + []string{"\"", "'"}[w.next(2)] + "never closed\nresources:\n  user:\n", true
	case "open-bracket":
		set(rel, "types", raw("[user"))
		return w.document(root) + "\n]]", true
	case "bad-indent":
		return "id: x\n  name: y\n doc: z\n", true
	case "tab":
		return "id: x\nresources:\n\tuser:\n", true
	case "alias":
		set(root, "name", raw("*undefined"))
	case "two-docs": // the policy is the first document, which has no id
		for i, k := range root.keys {
			if k == "id" {
				root.keys = append(root.keys[:i:i], root.keys[i+1:]...)
				root.vals = append(root.vals[:i:i], root.vals[i+1:]...)
				break
			}
		}
		var b strings.Builder
		b.WriteString("---\n")
		w.block(&b, root, "")
		return b.String() + "---\nid: x\nname: y\n", true
	case "root-seq":
		return "- id: x\n- name: y\n", true
	case "root-scalar":
		return "just text\n", true
	case "empty":
		return []string{"", "\n", "# nothing\n"}[w.next(3)], true
	case "control":
		return "id: x\nname: a\x00b\n", true
	}
	return w.document(root), true
}

// sortPolicy returns the policy with resources and relations sorted: a YAML mapping has no order
func sortPolicy(p *domain.Policy) *domain.Policy {
	q := proto.Clone(p).(*domain.Policy)
	sort.SliceStable(q.Resources, func(i, j int) bool { return q.Resources[i].GetName() < q.Resources[j].GetName() })
	for _, r := range q.Resources {
		sort.SliceStable(r.Relations, func(i, j int) bool { return r.Relations[i].GetName() < r.Relations[j].GetName() })
	}
	return q
}

func runC10(c YamlCase, st *Stats) error {
	w := &yw{style: c.Style, share: c.Share}
	text := w.document(c.Pol.yamlTree(w))
	if !utf8.ValidString(text) {
		return nil
	}
	z := newZ()
	z.Wire = c.Wire
	m := newModel()
	pre := Pol{Id: c.Pol.Id, Name: "before", Res: []ResDef{{Name: "old", Rels: []RelDef{{Name: "r", E: this(), Rs: anyRestr}}}}}
	old := Rel{Ent{"old", "x"}, "r", entity("old", "y")}
	if c.Upd && pre.valid() {
		if err := m.step(z, Op{K: "create", Pol: &pre, D: []byte("old")}); err != nil {
			return err
		}
		if err := m.step(z, Op{K: "set", P: pre.Id, R: &old}); err != nil {
			return err
		}
	}
	give := func(text string) (err error) {
		if c.Upd {
			return z.UpdateDef(yamlDef(text), []byte("new"))
		}
		_, err = z.CreateDef(yamlDef(text), []byte("new"))
		return err
	}
	// malformed documents first: they must leave no trace
	for _, k := range c.Bad {
		bw := &yw{style: c.Style, pos: 3, share: c.Share}
		bad, ok := malform(k, c.Pol.yamlTree(bw), bw)
		if !ok {
			continue
		}
		err := give(bad)
		if isPanic(err) {
			return fmt.Errorf("%w\nfor the document\n%s", err, bad)
		}
		if err == nil {
			return fmt.Errorf("a malformed document (%s) was accepted:\n%s", k, bad)
		}
		if err := m.compareAll(z, []string{c.Pol.Id, "x"}, nil); err != nil {
			return fmt.Errorf("after a malformed document (%s): %w", k, err)
		}
		st.label("malformed-%s", k)
		st.NonTrivial = true
	}
	err := give(text)
	if isPanic(err) {
		return fmt.Errorf("%w\nfor the document\n%s", err, text)
	}
	want := c.Pol.valid() && (!c.Upd || pre.valid())
	if (err == nil) != want {
		return fmt.Errorf("accepted: %v (%v), the structured policy is well formed: %v; document:\n%s", err == nil, err, want, text)
	}
	if err != nil {
		st.label("invalid-policy")
		return m.compareAll(z, []string{c.Pol.Id}, nil)
	}
	st.label("accepted")
	if strings.Contains(text, "*a") && c.Share {
		st.label("aliases")
	}
	if c.Share && strings.Contains(text, "<<") {
		st.label("merged-mapping")
	}
	rec, err := z.GetPol(c.Pol.Id)
	if err != nil {
		return fmt.Errorf("GetPolicy: %w", err)
	}
	if !proto.Equal(sortPolicy(rec.GetPolicy()), sortPolicy(c.Pol.Proto())) {
		return fmt.Errorf("stored %v, want %v; document:\n%s", rec.GetPolicy(), c.Pol.Proto(), text)
	}
	// the same document gives the same policy every time
	for i := 0; i < 2; i++ {
		z2 := newZ()
		if _, err := z2.CreateDef(yamlDef(text), nil); err != nil {
			return fmt.Errorf("creating the policy from the same document elsewhere: %w; document:\n%s", err, text)
		}
		rec2, err := z2.GetPol(c.Pol.Id)
		if err != nil {
			return fmt.Errorf("GetPolicy: %w", err)
		}
		if !proto.Equal(rec2.GetPolicy(), rec.GetPolicy()) {
			return fmt.Errorf("the same document gave %v and then %v; document:\n%s", rec.GetPolicy(), rec2.GetPolicy(), text)
		}
	}
	if string(rec.GetAppData()) != "new" {
		return fmt.Errorf("app data %q", rec.GetAppData())
	}
	// it behaves as the structured policy does
	has := map[Rel]bool{}
	if c.Upd {
		has[old] = true
	}
	for i, r := range c.Rels {
		_, err := z.Set(c.Pol.Id, r, nil)
		if isPanic(err) {
			return err
		}
		if (err == nil) != c.Pol.admits(r) {
			return fmt.Errorf("relationship %d %+v accepted: %v (%v), the structured policy admits it: %v; document:\n%s", i, r, err == nil, err, c.Pol.admits(r), text)
		}
		if err == nil {
			has[r] = true
		}
	}
	var rels []Rel
	for r := range has {
		rels = append(rels, r)
	}
	if err := checkSweep(z, c.Pol.Id, c.Pol, rels, c.Nodes, c.Subs, 20); err != nil {
		return fmt.Errorf("%w; document:\n%s", err, text)
	}
	for _, r := range c.Pol.Res {
		for _, d := range r.Rels {
			if d.Rs.K == "set" {
				st.NonTrivial = true
			}
		}
	}
	return nil
}
