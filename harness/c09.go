package harness

import (
	"fmt"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// TextCase is an expression text. Deep > 0 repeats it to a large size.
type TextCase struct {
	Text string `json:"text"`
	Deep int    `json:"deep,omitempty"`
	Way  string `json:"way,omitempty"`
}

func (c TextCase) text() string {
	if c.Deep == 0 {
		return c.Text
	}
	switch c.Way {
	case "paren":
		return strings.Repeat("(", c.Deep) + c.Text + strings.Repeat(")", c.Deep)
	case "chain":
		return c.Text + strings.Repeat(" - "+c.Text, c.Deep)
	case "right":
		return strings.Repeat("("+c.Text+" + ", c.Deep) + c.Text + strings.Repeat(")", c.Deep)
	case "left":
		return strings.Repeat("(", c.Deep) + c.Text + strings.Repeat(" & "+c.Text+")", c.Deep)
	case "space":
		return strings.Repeat(" ", c.Deep) + c.Text
	}
	return strings.Repeat(c.Text, c.Deep)
}

func init() {
	register("C09", 30000, 500000,
		"Case: an expression text: derived from the grammar (nesting, any operator order, random white space, identifiers starting with digits, underscores or _this, unicode letters), or a derived text with one token or character dropped, doubled, swapped or replaced, or a soup of tokens or characters; 1 in 40 repeated to a depth or length of up to 400, a few to just below or above ten thousand tokens. Acceptance is compared with an independent recursive descent parser; an accepted text is evaluated by Check for every combination of memberships in its first 4 relations, as text and as the equivalent tree; the tree written as a text must parse to the same meaning. Non-trivial: accepted with at least two operators and both granted and denied decisions, or rejected at a distance of one edit from an accepted text.",
		genText, runC09)
}

var identPool = []string{"a", "b", "c", "d", "a1", "1", "2b", "_", "__", "_a", "_thi", "_this_", "_thisx", "this", "_This", "x_this", "é", "ñandú", "日本", "٣", "A", "aa", "ab", "ba", "owner_of_the_document"}

func genText(t *rapid.T) TextCase {
	var ids []string
	for i := rapid.IntRange(1, 4).Draw(t, "nid"); i > 0; i-- {
		ids = append(ids, pick(t, identPool, "id"))
	}
	k := uni(t, 100, "kind")
	switch {
	case k < 45:
		return TextCase{Text: genExprText(t, ids, 4)}
	case k < 70:
		return TextCase{Text: editText(t, genExprText(t, ids, 3))}
	case k < 85:
		toks := append([]string{"_this", "->", "+", "-", "&", "(", ")", "-", ">", " ", ""}, ids...)
		return TextCase{Text: strings.Join(rapid.SliceOfN(rapid.SampledFrom(toks), 0, 9).Draw(t, "soup"), pick(t, []string{"", " "}, "sep"))}
	case k < 97:
		return TextCase{Text: rapid.StringOfN(rapid.RuneFrom([]rune("ab_this->+-&() \t\n\r\u00a0é1\u0301²Ⅷ€\u200d\u0903#*/|\"'\x00,.;:")), 0, 12, -1).Draw(t, "chars")}
	case uni(t, 12, "limit") == 0:
		// around the largest number of tokens
		ways := map[string]int{"paren": 4999, "chain": 4999, "right": 2499, "left": 2499, "repeat": 9999}
		way := pick(t, []string{"paren", "chain", "right", "left", "repeat"}, "lway")
		return TextCase{Text: pick(t, ids, "unit"), Way: way, Deep: ways[way] + rapid.IntRange(-2, 2).Draw(t, "off")}
	default:
		return TextCase{Text: pick(t, append([]string{"_this", "(", ")", "a+", "a->b"}, ids...), "unit"), Deep: rapid.IntRange(1, 400).Draw(t, "deep"),
			Way: pick(t, []string{"paren", "chain", "right", "left", "space", "repeat"}, "way")}
	}
}

func ws(t *rapid.T) string {
	return pick(t, []string{"", "", "", " ", "  ", "\t", "\n", " \r\n ", "\u00a0", "\u2003"}, "ws")
}

func genExprText(t *rapid.T, ids []string, depth int) string {
	n := rapid.IntRange(1, 4).Draw(t, "nterms")
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(ws(t) + pick(t, []string{"+", "&", "-"}, "op") + ws(t))
		}
		k := uni(t, 10, "term")
		switch {
		case k < 3:
			b.WriteString("_this")
		case k < 6:
			b.WriteString(pick(t, ids, "cu"))
		case k < 8 || depth <= 0:
			b.WriteString(pick(t, ids, "ts") + ws(t) + "->" + ws(t) + pick(t, ids, "cr"))
		default:
			b.WriteString("(" + ws(t) + genExprText(t, ids, depth-1) + ws(t) + ")")
		}
	}
	return ws(t) + b.String() + ws(t)
}

func editText(t *rapid.T, s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return "+"
	}
	i := rapid.IntRange(0, len(rs)-1).Draw(t, "at")
	switch uni(t, 5, "edit") {
	case 0:
		return string(rs[:i]) + string(rs[i+1:])
	case 1:
		return string(rs[:i+1]) + string(rs[i:])
	case 2:
		return string(rs[:i]) + pick(t, []string{"(", ")", "+", "-", "->", "&", " ", "_this", "#", "|", ">", "\u0301", "\u200d", "²", "Ⅷ", "€", "\u0903"}, "ins") + string(rs[i:])
	case 3:
		return string(rs[:i]) + pick(t, []string{"(", ")", "+", "-", "->", "&", " ", "_this", "#", "|", ">", "\u0301", "\u200d", "²", "Ⅷ", "€", "\u0903"}, "rep") + string(rs[i+1:])
	default:
		if i > 0 {
			rs[i], rs[i-1] = rs[i-1], rs[i]
		}
		return string(rs)
	}
}

func (e *Expr) idents(fn func(string)) {
	switch e.Op {
	case "cu":
		fn(e.A)
	case "ttu":
		fn(e.A)
		fn(e.B)
	case "this":
	default:
		e.L.idents(fn)
		e.R.idents(fn)
	}
}

func (e *Expr) size() int {
	if e.L == nil {
		return 0
	}
	return 1 + e.L.size() + e.R.size()
}

func (e *Expr) depth() int {
	if e.L == nil {
		return 0
	}
	return 1 + max(e.L.depth(), e.R.depth())
}

func runC09(c TextCase, st *Stats) error {
	text := c.text()
	ref, ok := refParse(text)
	// relations which the expression may refer to: its identifiers, or those of the text if it is not an expression
	seen := map[string]bool{}
	var names []string
	add := func(n string) {
		if n != "" && n != "top" && !seen[n] {
			seen[n] = true
			names = append(names, n)
		}
	}
	if ok {
		ref.idents(add)
	} else {
		for _, w := range strings.FieldsFunc(text, func(r rune) bool { return !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_') }) {
			add(w)
		}
		add("a")
	}
	doc := ResDef{Name: "doc"}
	for _, n := range names {
		doc.Rels = append(doc.Rels, RelDef{Name: n, E: this(), Rs: anyRestr})
	}
	top := RelDef{Name: "top", Raw: text, Rs: anyRestr}
	p := Pol{Id: "text", Res: []ResDef{doc, {Name: "user"}}}
	p.Res[0].Rels = append(append([]RelDef(nil), doc.Rels...), top)
	z := newZ()
	_, err := z.Create(p, nil)
	if isPanic(err) {
		return err
	}
	if (err == nil) != ok {
		return fmt.Errorf("expression %q accepted: %v (%v), the grammar derives it: %v", clip(text), err == nil, err, ok)
	}
	st.labelIf(c.Deep > 0, "deep-"+c.Way)
	if !ok {
		st.label("rejected")
		st.NonTrivial = len(text) > 0
		return nil
	}
	st.label("accepted")
	// the stored definition still has the text
	rec, err := z.GetPol("text")
	if err != nil || rec.GetPolicy().GetResourceByName("doc").GetRelationByName("top").GetRelationExpression().GetExpr() != text {
		return fmt.Errorf("the stored expression is %v (%v), want %q", rec.GetPolicy(), err, clip(text))
	}
	// the same policy with the expression as a tree
	q := Pol{Id: "tree", Res: []ResDef{doc, {Name: "user"}}}
	q.Res[0].Rels = append(append([]RelDef(nil), doc.Rels...), RelDef{Name: "top", E: ref, Tree: true, Rs: anyRestr})
	ids := []string{"text", "tree"}
	if _, err := z.Create(q, nil); isPanic(err) {
		return err
	} else if d := ref.depth(); (err == nil) != (d <= 4000) {
		return fmt.Errorf("the tree of %q, nested %d levels deep, was accepted: %v (%v)", clip(text), d, err == nil, err)
	} else if err != nil {
		ids = []string{"text", "text"} // too deep for a tree, see C07
	} else if err := judgeWritten(z, ref, doc, &ids); err != nil {
		return fmt.Errorf("the tree of %q: %w", clip(text), err)
	}
	k := len(names)
	if k > 4 {
		k = 4
	}
	var rels []Rel
	var subs []Ent
	x := Ent{"doc", "x"}
	// memberships of each user: in the first k relations, and directly in top; "other" is where tuplesets lead
	for m := 0; m < 1<<(k+1); m++ {
		u := fmt.Sprintf("u%d", m)
		subs = append(subs, Ent{"user", u})
		for i := 0; i < k; i++ {
			if m>>i&1 == 1 {
				rels = append(rels, Rel{x, names[i], entity("user", u)})
			}
			if (m*5+i*3)%7 < 3 {
				rels = append(rels, Rel{Ent{"doc", "other"}, names[i], entity("user", u)})
			}
		}
		if m>>k&1 == 1 {
			rels = append(rels, Rel{x, "top", entity("user", u)})
		}
	}
	ref.ttus(func(ts string) {
		// tuplesets hold an object of the same resource only; users in it would make the tuple to userset an error
		for i := 0; i < len(rels); {
			if rels[i].O == x && rels[i].Rel == ts {
				rels = append(rels[:i:i], rels[i+1:]...)
			} else {
				i++
			}
		}
		rels = append(rels, Rel{x, ts, entitySet("doc", "other", ts)})
	})
	for _, r := range rels {
		for _, id := range ids {
			if _, err := z.Set(id, r, nil); err != nil {
				return fmt.Errorf("SetRelationship %+v: %w", r, err)
			}
		}
	}
	rp := q
	g := newGraph(rp, rels)
	n := Node{"doc", "x", "top"}
	g.explore(n)
	uns := g.unstratified()[n]
	granted, denied := 0, 0
	for _, s := range subs {
		a, err1 := z.Check("text", n, s)
		b, err2 := z.Check(ids[1], n, s)
		if isPanic(err1) || isPanic(err2) {
			return fmt.Errorf("%v %v", err1, err2)
		}
		if g.err[n] && (err1 != nil || err2 != nil) {
			continue
		}
		if err1 != nil || err2 != nil {
			return fmt.Errorf("Check of %q failed: %v %v", clip(text), err1, err2)
		}
		if uns {
			continue
		}
		want := g.members(s)[n]
		if len(ids) > 2 {
			if w, err := z.Check(ids[2], n, s); err != nil || w != want {
				return fmt.Errorf("expression %q, written from its tree as %q: Check for %v is %v (%v), want %v", clip(text), ref.Proto().RelationExpression(), s, w, err, want)
			}
		}
		if a != want || b != want {
			return fmt.Errorf("expression %q: Check for %v is %v as text and %v as tree, want %v", clip(text), s, a, b, want)
		}
		if want {
			granted++
		} else {
			denied++
		}
	}
	st.NonTrivial = ref.size() >= 2 && granted > 0 && denied > 0
	st.labelIf(ref.size() >= 2, "two-operators")
	return nil
}

// judgeWritten writes the tree as a text: it is an expression which means the same. One which differs in more than
// parentheses is judged by the decisions of a policy of its own.
func judgeWritten(z *Z, ref *Expr, doc ResDef, ids *[]string) error {
	var text string
	if err := guard("RelationExpression", func() error { text = ref.Proto().RelationExpression(); return nil }); err != nil {
		return err
	}
	e, ok := refParse(text)
	if !ok {
		if toks, _ := refLex(text); len(toks) > 10000 {
			return nil
		}
		return fmt.Errorf("it is written as %q, which is no expression", clip(text))
	}
	if e.same(ref) {
		return nil
	}
	p := Pol{Id: "written", Res: []ResDef{doc, {Name: "user"}}}
	p.Res[0].Rels = append(append([]RelDef(nil), doc.Rels...), RelDef{Name: "top", Raw: text, Rs: anyRestr})
	if _, err := z.Create(p, nil); err != nil {
		return fmt.Errorf("it is written as %q: %w", clip(text), err)
	}
	*ids = append(*ids, "written")
	return nil
}

func (e *Expr) same(f *Expr) bool {
	if e.Op != f.Op || e.A != f.A || e.B != f.B || (e.L == nil) != (f.L == nil) {
		return false
	}
	return e.L == nil || e.L.same(f.L) && e.R.same(f.R)
}

func (e *Expr) ttus(fn func(string)) {
	switch e.Op {
	case "ttu":
		fn(e.A)
	case "cu", "this":
	default:
		e.L.ttus(fn)
		e.R.ttus(fn)
	}
}
