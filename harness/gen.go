package harness

import (
	"fmt"
	"os"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Names
// ---------------------------------------------------------------------------

// adversarial names: any non empty valid UTF-8 string names something
var nastyNames = []string{
	"a", "b", "ab", "A", "aa", "a/", "/a", "a/b", "/", "//", "///", "a//b", "b/a",
	"a:b", ":", "a#b", "#", "*", "**", "_this", "a->b", "a b", " a", "a ", "  ", "\t", "\n", "a\n",
	"\x00", "a\x00", "\x00a", "a\x00b", "\"", "\\", "\\\"", "'", "a\"b", "\\n", "%s", "%v%d", "{}", "<a>", "&", "a&b",
	"é", "e\u0301", "É", "ß", "ss", "ﬁ", "fi", "日本", "\U0001F600", "\u200b", "a\u200b", "\u00a0", "\ufeff", "\u202e", "\uffff", "\U0010ffff",
	"root", "user", "User", "USER", "in", "out", "1", "2", "01", "1/", "nil", "null", "true", "0",
	strings.Repeat("x", 300), strings.Repeat("x", 300) + "y", strings.Repeat("x", 299) + "/", strings.Repeat("long/", 80), strings.Repeat("z", 4000),
	strings.Repeat("x", 127), strings.Repeat("x", 128), strings.Repeat("k", 63), strings.Repeat("k", 64), strings.Repeat("k", 65), strings.Repeat("k", 255), strings.Repeat("k", 256),
}

// rapid's integer ranges and samples are biased towards small values, its bools are not: uni is uniform over [0,n)
// (up to rounding) and shrinks to 0
func uni(t *rapid.T, n int, label string) int {
	v := 0
	for m := 4 * (n - 1); m > 0; m >>= 1 {
		v <<= 1
		if rapid.Bool().Draw(t, label) {
			v |= 1
		}
	}
	return v % n
}

func pick[T any](t *rapid.T, xs []T, label string) T { return xs[uni(t, len(xs), label)] }

// chance is true in the given percentage of draws and shrinks to false: it compares random bits with the
// threshold until they differ
func chance(t *rapid.T, percent int, label string) bool {
	limit := (100 - percent) * 256 / 100
	for bit := 128; bit > 0; bit >>= 1 {
		b := rapid.Bool().Draw(t, label)
		if b != (limit&bit != 0) {
			return b
		}
	}
	return true
}

func genName(t *rapid.T, label string) string {
	switch uni(t, 10, label+"K") {
	case 0, 1, 2, 3, 4, 5:
		return pick(t, nastyNames, label)
	case 6, 7:
		return rapid.StringOfN(rapid.RuneFrom([]rune("ab/:#*\x00 _->\"\\")), 1, 6, -1).Draw(t, label)
	case 8:
		s := rapid.StringN(1, 8, -1).Draw(t, label)
		if s == "" {
			return "s"
		}
		return s
	default:
		return pick(t, nastyNames, label) + pick(t, nastyNames, label+"2")
	}
}

// names as applications choose them
var plainPools = map[string][]string{
	"res": {"user", "group", "file", "folder", "document", "org", "project", "User"},
	"rel": {"owner", "member", "reader", "writer", "viewer", "parent", "admin", "banned"},
	"id":  {"alice", "bob", "readme", "admin", "1", "2", "root", "Alice", "me", "public", "anonymous"},
	"pid": {"policy", "test", "default", "1", "prod", "policy2"},
}

// genFamily draws names which some notion of sameness confuses: case, white space, normal forms, separators at the
// ends, common prefixes or suffixes of some length, permutations, quoting, numbers
func genFamily(t *rapid.T, label string) []string {
	b := pick(t, []string{"a", "user", "Doc", "x1", "ab", "straße", "caf\u00e9", "10", "a/b"}, label+"base")
	rev := []rune(b)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	all := []string{
		strings.ToUpper(b), strings.ToLower(b), strings.Title(b), b + " ", " " + b, b + "\n", "\t" + b, b + "\x00", "\x00" + b,
		b + "/", "/" + b, b + ":", b + "#", b + ".", b + "*", b + "_", b + "-", b + "s", b + b, string(rev), "0" + b, b + "0", b + "1",
		"\"" + b + "\"", "'" + b + "'", "%" + b, b + "%20", b + "\u200b", b + "\u0301", "cafe\u0301", "strasse", "STRASSE", "K" /* kelvin below */, "\u212a", "k",
		"Aa", "BB", "１０", "+" + b, "-" + b, b + ",", b + "|", b + "\\", b + "\r",
	}
	for _, n := range []int{7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024} {
		if len(b) < n {
			all = append(all, b+strings.Repeat("p", n-len(b)), strings.Repeat("p", n)+b)
		}
	}
	// a pair which is the same up to one such notion comes first, so that it is drawn whatever the number of names
	var out []string
	switch uni(t, 6, label+"pair") {
	case 0: // long, with a common prefix or suffix
		out = longPair(t, label)
	case 1, 2, 3:
		out = append(out, pick(t, samePairs, label+"same")...)
	default:
		out = append(out, b)
	}
	for i := 0; i < 5; i++ {
		out = append(out, pick(t, all, label+"var"))
	}
	return append(out, b)
}

// rare is true once in 2^k draws and shrinks to false
func rare(t *rapid.T, k int, label string) bool {
	for ; k > 0; k-- {
		if !rapid.Bool().Draw(t, label) {
			return false
		}
	}
	return true
}

// hugeOK: the property's cases may have names and data which exceed what a remote caller can send in one message
var hugeOK = contains([]string{"C01", "C03", "C04", "C05", "C06", "C07", "C08"}, os.Getenv("VERIF_PROP"))

// largeOK: its cases may have large policies
var largeOK = hugeOK || contains([]string{"C10", "C11", "C18"}, os.Getenv("VERIF_PROP"))

var docFill = func() []int {
	if largeOK {
		return []int{1, 30, 200}
	}
	return []int{1, 8}
}()

// longPair draws two long names which differ in their last or in their first character only
func longPair(t *rapid.T, label string) []string {
	n := pick(t, []int{7, 8, 15, 16, 20, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4096}, label+"len") + uni(t, 2, label+"off")
	if hugeOK && rare(t, 6, label+"huge") {
		n = pick(t, []int{16383, 65535}, label+"hugelen") + uni(t, 2, label+"off")
	}
	long := strings.Repeat("p", n)
	if chance(t, 60, label+"prefix") {
		return []string{long + "1", long + "2", long}
	}
	return []string{"1" + long, "2" + long, long}
}

// samePairs are names which are the same, or look the same, under some normalisation
var samePairs = [][]string{
	{"caf\u00e9", "cafe\u0301"}, {"a\u200bb", "ab"}, {"\u212a", "K", "k"}, {"\u00c5", "A\u030a", "\u212b"}, {"\ufb01x", "fix"}, {"stra\u00dfe", "strasse"},
	{"\uff11", "1"}, {"a\u00a0b", "a b"}, {"\ufeffa", "a"}, {"a\u00adb", "ab"}, {"\u0130", "i\u0307", "I"}, {"\u03a3", "\u03c3", "\u03c2"}, {"a\u0000", "a"}, {"a\u00a0", "a", "a "},
	{"\u0430", "a"}, {"%61", "a"}, {"a+b", "a b", "a%20b"}, {"&amp;", "&"}, {"\\u0061", "a"}, {"\\n", "\n"}, {"\U0001f44d", "\U0001f44d\ufe0f"}, {"a\u2028b", "a\nb"}, {"a\r\nb", "a\nb", "a\rb"}, {"a\tb", "a b"},
}

// genNames draws n distinct names. Some sets are built so that concatenations of two or three of them collide.
func genNames(t *rapid.T, n int, nasty bool, label string) []string {
	out := make([]string, 0, n)
	seen := map[string]bool{}
	add := func(s string) {
		if s != "" && !seen[s] && len(out) < n && validUTF8(s) {
			seen[s] = true
			out = append(out, s)
		}
	}
	if !nasty && label == "id" && chance(t, 8, label+"long") { // such as urns
		for _, s := range longPair(t, label) {
			add(s)
		}
	}
	if !nasty {
		if pool := plainPools[label]; pool != nil && chance(t, 50, label+"real") {
			off := uni(t, len(pool), label+"off")
			for i := range pool {
				add(pool[(off+i)%len(pool)])
			}
		}
		for i := 0; i < n; i++ {
			add(fmt.Sprintf("%s%d", label, i))
		}
		return out
	}
	if chance(t, 40, label+"fam") {
		for _, s := range genFamily(t, label) {
			add(s)
		}
	}
	if chance(t, 35, label+"col") {
		sep := pick(t, []string{"", "/", "//", ":", "#", "\x00", " ", "-", "|", ",", "."}, label+"sep")
		a, b := pick(t, []string{"a", "x", "ab", "user"}, label+"a"), pick(t, []string{"b", "y", "a", "1"}, label+"b")
		for _, s := range []string{a, b, a + sep + b, b + sep + a, a + sep + b + sep + a, sep + a, a + sep, a + sep + a} {
			add(s)
		}
	}
	for i := 0; len(out) < n; i++ {
		add(genName(t, fmt.Sprintf("%s%d", label, i)))
		if i > 4*n {
			add(fmt.Sprintf("%s_%d", label, i))
		}
	}
	return out
}

func validUTF8(s string) bool { return strings.ToValidUTF8(s, "") == s }

func genData(t *rapid.T, label string) []byte {
	switch uni(t, 6, label+"K") {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte{0}
	case 3:
		return []byte(strings.Repeat("d", rapid.IntRange(1, 3000).Draw(t, label+"n")))
	default:
		if chance(t, 1, label+"big") {
			n := pick(t, []int{1000, 8000, 30000}, label+"bigN")
			if hugeOK && rare(t, 5, label+"huge") {
				n = 130000
			}
			return []byte(strings.Repeat("big data\n", n))
		}
		return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, label)
	}
}

// ---------------------------------------------------------------------------
// Policies and relationships
// ---------------------------------------------------------------------------

// Universe is the vocabulary of a case
type Universe struct {
	Res  []string            // resources
	Rels map[string][]string // relations of each resource
	Ids  map[string][]string // object ids of each resource

	cross *string  // the separator with which names of different roles collide
	same  []string // two ids of every resource which some normalisation makes the same
}

type exprOpts struct {
	depth  int
	noDiff bool
	noAnd  bool
	noThis bool
}

func genExpr(t *rapid.T, rels []string, all []string, o exprOpts, label string) *Expr {
	if o.depth <= 0 || chance(t, 45, label+"leaf") {
		k := uni(t, 10, label+"rule")
		switch {
		case k < 4 && !o.noThis:
			return this()
		case k < 7:
			return cu(pick(t, rels, label+"cu"))
		default:
			return ttu(pick(t, rels, label+"ts"), pick(t, all, label+"cr"))
		}
	}
	ops := []string{"+"}
	if !o.noAnd {
		ops = append(ops, "&")
	}
	if !o.noDiff {
		ops = append(ops, "-")
	}
	d := o
	d.depth--
	return op(genExpr(t, rels, all, d, label+"l"), pick(t, ops, label+"op"), genExpr(t, rels, all, d, label+"r"))
}

// isIdentName: the name can be written in an expression's text
func isIdentName(s string) bool {
	toks, ok := refLex(s)
	return ok && len(toks) == 1 && toks[0] == s && isIdent(s)
}

func (e *Expr) textable() bool {
	switch e.Op {
	case "this":
		return true
	case "cu":
		return isIdentName(e.A)
	case "ttu":
		return isIdentName(e.A) && isIdentName(e.B)
	}
	return e.L.textable() && e.R.textable()
}

type polOpts struct {
	nasty    bool
	restrict bool // subject restrictions other than universal
	maxRes   int
	maxRel   int
	maxIds   int
	depth    int
	noDiff   bool
}

func genUniverse(t *rapid.T, o polOpts) Universe {
	nr := rapid.IntRange(1, o.maxRes).Draw(t, "nres")
	u := Universe{Rels: map[string][]string{}, Ids: map[string][]string{}}
	u.Res = genNames(t, nr, o.nasty, "res")
	var shared []string
	if o.nasty {
		shared = genNames(t, o.maxRel+2, true, "rel")
	} else {
		shared = []string{"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7"}
	}
	if !o.nasty && chance(t, 50, "relreal") {
		off := uni(t, 8, "reloff")
		shared = append(append([]string(nil), plainPools["rel"][off:]...), plainPools["rel"][:off]...)
	}
	ids := genNames(t, o.maxIds, o.nasty, "id")
	if o.nasty && chance(t, 25, "cross") {
		// names which collide across roles: (x, y.z) and (x.y, z)
		sep := pick(t, []string{"", "/", ":", "#", ".", "\x00", "->", "//", "@", "|"}, "xsep")
		x, y, z := pick(t, []string{"a", "user", "x"}, "xx"), pick(t, []string{"b", "1", "a"}, "xy"), pick(t, []string{"c", "b", "2"}, "xz")
		u.Res = uniq([]string{x, x + sep + y}, u.Res)[:nr]
		shared = uniq([]string{y + sep + z, z, y}, shared)[:len(shared)]
		ids = uniq([]string{y, y + sep + z, x + sep + y, z}, ids)[:len(ids)]
		u.cross = &sep
		if chance(t, 50, "xperm") {
			shared[0], shared[1] = shared[1], shared[0]
		}
	}
	if o.nasty && u.cross == nil && o.maxIds > 1 && chance(t, 20, "same") {
		if chance(t, 30, "samelong") {
			u.same = longPair(t, "same")[:2]
		} else {
			u.same = pick(t, samePairs, "samepair")[:2]
		}
		ids = uniq(u.same, ids)[:len(ids)]
	}
	for i, r := range u.Res {
		n := rapid.IntRange(0, o.maxRel).Draw(t, fmt.Sprintf("nrel%d", i))
		if i == 0 && n == 0 {
			n = 1
		}
		if n > len(shared) {
			n = len(shared)
		}
		// relations share names across resources, which is what makes tuple to userset and confusions interesting
		u.Rels[r] = append([]string(nil), shared[:n]...)
		m := rapid.IntRange(1, o.maxIds).Draw(t, fmt.Sprintf("nid%d", i))
		if u.same != nil && m < 2 {
			m = 2
		}
		u.Ids[r] = ids[:m]
	}
	return u
}

func uniq(lists ...[]string) []string {
	seen := map[string]bool{}
	var out []string
	for _, l := range lists {
		for _, s := range l {
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	return out
}

func (u Universe) allRels() []string {
	seen := map[string]bool{}
	var out []string
	for _, r := range u.Res {
		for _, x := range u.Rels[r] {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	return out
}

func genRestr(t *rapid.T, u Universe, label string) Restr {
	switch uni(t, 5, label+"k") {
	case 0:
		return anyRestr
	case 1:
		if chance(t, 30, label+"none") {
			return Restr{K: "none"}
		}
	}
	n := rapid.IntRange(0, 3).Draw(t, label+"n")
	rs := Restr{K: "set"}
	for i := 0; i < n; i++ {
		r := pick(t, u.Res, fmt.Sprintf("%sr%d", label, i))
		it := RestrItem{R: r}
		if len(u.Rels[r]) > 0 && chance(t, 50, fmt.Sprintf("%ss%d", label, i)) {
			it.Set, it.Rel = true, pick(t, u.Rels[r], fmt.Sprintf("%srl%d", label, i))
		}
		rs.Items = append(rs.Items, it)
	}
	return rs
}

func genPol(t *rapid.T, id string, u Universe, o polOpts) Pol {
	p := Pol{Id: id}
	all := u.allRels()
	for i, r := range u.Res {
		rd := ResDef{Name: r}
		for j, n := range u.Rels[r] {
			l := fmt.Sprintf("x%d.%d", i, j)
			d := RelDef{Name: n, Rs: anyRestr}
			d.E = genExpr(t, u.Rels[r], all, exprOpts{depth: o.depth, noDiff: o.noDiff}, l)
			d.Tree = !d.E.textable() || chance(t, 30, l+"tree")
			if o.restrict {
				d.Rs = genRestr(t, u, l+"rs")
			}
			rd.Rels = append(rd.Rels, d)
		}
		p.Res = append(p.Res, rd)
	}
	return p
}

// inflate makes a policy larger in one respect: resources, relations, subject restrictions, operands of an expression,
// attributes or documentation
func inflate(t *rapid.T, p *Pol, percent int) {
	if !chance(t, percent, "inflate") || len(p.Res) == 0 {
		return
	}
	n := pick(t, []int{6, 9, 17, 33, 40, 65}, "fill")
	if largeOK && chance(t, 25, "fillmore") {
		n = pick(t, []int{101, 130, 130, 130, 260, 700}, "fillmany")
	}
	front := chance(t, 60, "fillfront")
	name := func(i int) string { return fmt.Sprintf("fill%02d", i) }
	resources := func() {
		var more []ResDef
		for i := 0; i < n; i++ {
			more = append(more, ResDef{Name: name(i), Rels: []RelDef{{Name: "r", E: this(), Rs: anyRestr}}})
		}
		if front {
			p.Res = append(more, p.Res...)
		} else {
			p.Res = append(append([]ResDef(nil), p.Res...), more...)
		}
	}
	ri := uni(t, len(p.Res), "fillres")
	r := &p.Res[ri]
	r.Rels = append([]RelDef(nil), r.Rels...)
	relations := func() {
		var more []RelDef
		for i := 0; i < n; i++ {
			more = append(more, RelDef{Name: name(i), E: this(), Rs: anyRestr})
		}
		if front {
			r.Rels = append(more, r.Rels...)
		} else {
			r.Rels = append(r.Rels, more...)
		}
	}
	k := uni(t, 6, "fillkind")
	if len(r.Rels) == 0 && (k == 2 || k == 3) {
		k -= 2
	}
	switch k {
	case 0:
		resources()
	case 1:
		relations()
	case 2:
		d := &r.Rels[uni(t, len(r.Rels), "fillrel")]
		if d.Rs.K != "set" {
			return
		}
		var more []RestrItem
		for i := 0; i < n; i++ {
			more = append(more, RestrItem{R: name(i), Rel: pick(t, []string{"", "r"}, "fillset")})
			more[i].Set = more[i].Rel != ""
		}
		if front {
			d.Rs.Items = append(more, d.Rs.Items...)
		} else {
			d.Rs.Items = append(append([]RestrItem(nil), d.Rs.Items...), more...)
		}
		resources()
	case 4: // attributes
		more := map[string]string{}
		for k, v := range p.Attrs {
			more[k] = v
		}
		for i := 0; i < n; i++ {
			more[name(i)] = fmt.Sprint(i)
		}
		p.Attrs = more
	case 5: // documentation
		doc := strings.Repeat("what ", n*pick(t, docFill, "filldoc")) + "it is for"
		switch j := uni(t, 3, "fillwhere"); {
		case j == 0:
			p.Desc = doc
		case j == 1 || len(r.Rels) == 0:
			rs := append([]ResDef(nil), p.Res...)
			rs[ri].Desc = doc
			p.Res = rs
		default:
			r.Rels[uni(t, len(r.Rels), "fillrel")].Desc = doc
		}
	case 3:
		d := &r.Rels[uni(t, len(r.Rels), "fillrel")]
		if d.E == nil {
			return
		}
		e := cu(name(0))
		for i := 1; i < n; i++ {
			e = op(e, "+", cu(name(i)))
		}
		if front {
			d.E = op(e, "+", d.E)
		} else {
			d.E = op(d.E, pick(t, []string{"+", "&", "-"}, "fillop"), e)
		}
		relations()
	}
}

func (u Universe) withRels() []string {
	var out []string
	for _, r := range u.Res {
		if len(u.Rels[r]) > 0 {
			out = append(out, r)
		}
	}
	return out
}

// genRel draws a relationship over the vocabulary (admitted by a policy with universal restrictions)
func genRel(t *rapid.T, u Universe, label string) Rel {
	or := pick(t, u.withRels(), label+"or")
	r := Rel{O: Ent{or, pick(t, u.Ids[or], label+"oi")}, Rel: pick(t, u.Rels[or], label+"rel")}
	r.S = genSub(t, u, label)
	return r
}

func genSub(t *rapid.T, u Universe, label string) Sub {
	switch k := uni(t, 20, label+"sk"); {
	case k < 10:
		sr := pick(t, u.Res, label+"sr")
		return entity(sr, pick(t, u.Ids[sr], label+"si"))
	case k < 18:
		sr := pick(t, u.withRels(), label+"sr")
		return entitySet(sr, pick(t, u.Ids[sr], label+"si"), pick(t, u.Rels[sr], label+"srel"))
	default:
		return wildcard(pick(t, u.Res, label+"sr"))
	}
}

func genRels(t *rapid.T, u Universe, min, max int, label string) []Rel {
	out := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Rel { return genRel(t, u, "") }), min, max).Draw(t, label)
	for i := 0; i < 2 && u.same != nil && len(out)+2 <= max; i++ {
		r := genRel(t, u, label+"same")
		q := r
		if r.S.K != "w" && chance(t, 50, label+"ofsub") {
			r.S.I, q.S.I = u.same[0], u.same[1]
		} else {
			r.O.I, q.O.I = u.same[0], u.same[1]
		}
		out = append(out, r, q)
	}
	if u.cross == nil {
		return out
	}
	// relationships which are the same when their parts are joined by the separator
	pairs := u.twins()
	for i := 0; i < 3 && len(pairs) > 0 && len(out)+2 <= max; i++ {
		p := pick(t, pairs, label+"twin")
		out = append(out, p[0], p[1])
	}
	return out
}

// twins lists pairs of relationships which joining their parts confuses
func (u Universe) twins() [][2]Rel {
	join := func(ss ...string) string { return strings.Join(ss, *u.cross) }
	// subjects, and objects with a relation, by their joined form
	subs, objs := map[string][]Sub{}, map[string][]Node{}
	var subKeys, objKeys []string
	addSub := func(k string, s Sub) {
		if subs[k] == nil {
			subKeys = append(subKeys, k)
		}
		subs[k] = append(subs[k], s)
	}
	for _, e := range u.entities() {
		addSub(join(e.R, e.I), entity(e.R, e.I))
	}
	for _, n := range u.nodes() {
		addSub(join(n.R, n.I, n.Rel), entitySet(n.R, n.I, n.Rel))
		k := join(n.R, n.I, n.Rel)
		if objs[k] == nil {
			objKeys = append(objKeys, k)
		}
		objs[k] = append(objs[k], n)
	}
	for _, r := range u.Res {
		addSub(join(r, "*"), wildcard(r))
	}
	var out [][2]Rel
	rel := func(n Node, s Sub) Rel { return Rel{O: Ent{n.R, n.I}, Rel: n.Rel, S: s} }
	for _, k := range objKeys {
		for i := 1; i < len(objs[k]); i++ {
			for _, q := range subKeys {
				out = append(out, [2]Rel{rel(objs[k][0], subs[q][0]), rel(objs[k][i], subs[q][0])})
			}
		}
		for _, q := range subKeys {
			for i := 1; i < len(subs[q]); i++ {
				out = append(out, [2]Rel{rel(objs[k][0], subs[q][0]), rel(objs[k][0], subs[q][i])})
			}
		}
	}
	// the relation and the subject's resource
	for _, k := range objKeys {
		for _, q := range subKeys {
			n, s := objs[k][0], subs[q][0]
			for _, k2 := range objKeys {
				m := objs[k2][0]
				if m.R != n.R || m.I != n.I || m.Rel == n.Rel {
					continue
				}
				for _, q2 := range subKeys {
					if s2 := subs[q2][0]; s2.K == s.K && join(n.Rel, s.R, s.I, s.Rel) == join(m.Rel, s2.R, s2.I, s2.Rel) {
						out = append(out, [2]Rel{rel(n, s), rel(m, s2)})
					}
				}
			}
		}
	}
	return out
}

func (u Universe) nodes() []Node {
	var out []Node
	for _, r := range u.Res {
		for _, i := range u.Ids[r] {
			for _, x := range u.Rels[r] {
				out = append(out, Node{r, i, x})
			}
		}
	}
	return out
}

func (u Universe) entities() []Ent {
	var out []Ent
	for _, r := range u.Res {
		for _, i := range u.Ids[r] {
			out = append(out, Ent{r, i})
		}
	}
	return out
}
