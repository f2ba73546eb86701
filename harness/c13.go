package harness

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// RawReq is a request in its wire encoding, or a huge one described by Giant and N
type RawReq struct {
	M     string `json:"m"`
	B     []byte `json:"b,omitempty"`
	Giant string `json:"giant,omitempty"`
	N     int    `json:"n,omitempty"`
	// Cx: the context of the call is found cancelled from the Cx-th time on that it is asked; 0 is never
	Cx int `json:"cx,omitempty"`
	// Rep: so often the call is made again
	Rep int `json:"rep,omitempty"`
}

// FuzzCase: a history of valid operations, then arbitrary requests
type FuzzCase struct {
	Ids  []string `json:"ids"`
	Ops  []Op     `json:"ops"`
	Reqs []RawReq `json:"reqs"`
}

var requestTypes = []func() proto.Message{
	func() proto.Message { return &api.CreatePolicyRequest{} },
	func() proto.Message { return &api.UpdatePolicyRequest{} },
	func() proto.Message { return &api.DeletePolicyRequest{} },
	func() proto.Message { return &api.GetPolicyRequest{} },
	func() proto.Message { return &api.ListPolicyIdsRequest{} },
	func() proto.Message { return &api.SetRelationshipRequest{} },
	func() proto.Message { return &api.DeleteRelationshipRequest{} },
	func() proto.Message { return &api.GetRelationshipRequest{} },
	func() proto.Message { return &api.FindRelationshipRecordsRequest{} },
	func() proto.Message { return &api.DeleteRelationshipsRequest{} },
	func() proto.Message { return &api.CheckRequest{} },
	func() proto.Message { return &api.ExplainCheckRequest{} },
	func() proto.Message { return &api.ExpandRequest{} },
	func() proto.Message { return &api.DumpRelationshipsRequest{} },
}

func newRequest(name string) proto.Message {
	for _, f := range requestTypes {
		if m := f(); string(m.ProtoReflect().Descriptor().Name()) == name {
			return m
		}
	}
	panic("request " + name)
}

func (r RawReq) message() proto.Message {
	if r.Giant != "" {
		return r.giant()
	}
	m := newRequest(r.M)
	if err := proto.Unmarshal(r.B, m); err != nil {
		return nil // not encodable
	}
	return m
}

var giantKinds = []string{"parens", "open", "chain", "arrows", "spaces", "ident", "deeptree", "deeptree-right", "yamlnest", "yamlflow", "yamlalias", "yamlbig", "resources", "relations", "restrictions", "name"}

func (r RawReq) giant() proto.Message {
	n := r.N
	pol := func(expr *domain.RelationExpression) *domain.Policy {
		return &domain.Policy{Id: "giant", Resources: []*domain.Resource{{Name: "r", Relations: []*domain.Relation{{Name: "x", RelationExpression: expr,
			SubjectRestriction: anyRestr.Proto()}}}}}
	}
	text := func(s string) *domain.Policy {
		return pol(&domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: s}})
	}
	create := func(d *api.PolicyDefinition) proto.Message {
		if r.M == "UpdatePolicyRequest" {
			return &api.UpdatePolicyRequest{PolicyDefinition: d}
		}
		return &api.CreatePolicyRequest{PolicyDefinition: d}
	}
	switch r.Giant {
	case "parens":
		return create(polDef(text(strings.Repeat("(", n) + "_this" + strings.Repeat(")", n))))
	case "open":
		return create(polDef(text(strings.Repeat("(", n))))
	case "chain":
		return create(polDef(text("_this" + strings.Repeat(" - _this", n))))
	case "arrows":
		return create(polDef(text("x" + strings.Repeat("->x", n))))
	case "spaces":
		return create(polDef(text(strings.Repeat(" \t\n", n) + "_this")))
	case "ident":
		return create(polDef(text(strings.Repeat("x", n))))
	case "deeptree", "deeptree-right":
		if n > 9000 {
			n = 9000
		}
		e := domain.ThisNode()
		for i := 0; i < n; i++ {
			if r.Giant == "deeptree" {
				e = domain.UnionNode(e, domain.ThisNode())
			} else {
				e = domain.DifferenceNode(domain.ThisNode(), e)
			}
		}
		return create(polDef(pol(&domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: e}})))
	case "yamlnest":
		return create(yamlDef(strings.Repeat("- ", n) + "a"))
	case "yamlflow":
		return create(yamlDef("id: " + strings.Repeat("[", n)))
	case "yamlalias":
		var b strings.Builder
		b.WriteString("id: giant\nattributes:\n  a0: &a0 x\n")
		for i := 1; i <= n%40; i++ {
			fmt.Fprintf(&b, "  a%d: &a%d [%s]\n", i, i, strings.Repeat(fmt.Sprintf("*a%d,", i-1), 9))
		}
		return create(yamlDef(b.String()))
	case "yamlbig":
		return create(yamlDef("id: giant\nattributes:\n" + strings.Repeat("  a: b\n", n)))
	case "resources":
		p := &domain.Policy{Id: "giant"}
		for i := 0; i < n%3000; i++ {
			p.Resources = append(p.Resources, &domain.Resource{Name: fmt.Sprint("r", i)})
		}
		return create(polDef(p))
	case "relations":
		p := pol(&domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: "_this"}})
		for i := 0; i < n%1000; i++ {
			p.Resources[0].Relations = append(p.Resources[0].Relations, &domain.Relation{Name: fmt.Sprint("y", i), SubjectRestriction: anyRestr.Proto(),
				RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: fmt.Sprintf("x + y%d + x->y%d", (i*7)%(n%1000), i)}}})
		}
		return create(polDef(p))
	case "restrictions":
		p := pol(&domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: "_this"}})
		rs := Restr{K: "set"}
		for i := 0; i < n%3000; i++ {
			rs.Items = append(rs.Items, RestrItem{R: "r", Rel: "x", Set: i%2 == 0})
		}
		p.Resources[0].Relations[0].SubjectRestriction = rs.Proto()
		return create(polDef(p))
	case "name":
		big := strings.Repeat("n", n)
		p := text(big + "+" + big)
		p.Id = big
		p.Resources[0].Name = big
		p.Resources[0].Relations[0].Name = big
		return create(polDef(p))
	}
	panic("giant " + r.Giant)
}

// pools of values, by what they are used for
type fuzzPools struct {
	ids, names, exprs []string
	yaml              []string
}

var fuzzExprs = []string{"_this", "", " ", "x", "_this + x", "x->y", "x->", "->x", "(", ")", "()", "(_this", "_this)", "_this + ", "+ _this", "_this _this", "x -> y -> z", "_this & (x - y->z)",
	"\x00", "é", "_this\u00a0+ x", "%", "x.y", "x:y", "x#y", "--", "- -", "_", "__this", "this", "r0", "r0 - r1", "r0->r1 & r1", "((r0))"}

var fuzzYaml = []string{"", " ", "id: a", "id: a\nresources:\n", "id: a\nresources: {}\n", "id: a\nresources:\n  r:\n", "id: a\nresources:\n  r:\n    relations:\n", "id: a\nresources:\n  r:\n    relations:\n      x:\n",
	"id: a\nresources:\n  r:\n    relations:\n      x:\n        expr: _this\n        types:\n", "id: a\nresources:\n  r:\n    relations:\n      x:\n        expr: _this\n        types: [r, 'r:x', '*', ':', 'r:', ':x', 'a:b:c', '']\n",
	"id: a\nresources:\n  r:\n    relations:\n      x: {expr: [1], types: {}}\n", "[", "]", "{", "- - -", "!!binary x", "!!str 3", "id: !!null", "id: null", "id: ~\nname: ~", "a: &a *a", "*a", "&a", "id: &i a\nname: *i", "---\n...\n", "--- a\n--- b",
	"id: a\n\tname: b", "\x00", "\ufeffid: a", "%YAML 1.2\n---\nid: a", "id: [a]", "id: {a: b}", "? id\n: a", "id: a\nid: b", "<<: {id: a}", "id: 1e400", "id: 0x10", "id: 2001-01-01", "id: >\n  a\n  b", "id: |+\n  a\n\n",
	"resources: 1", "resources: [1,2]", "attributes: [a]", "attributes: {a: [b]}", "id: a\nattributes: {a: 1, b: null, 3: c}", "id: a\nresources: {'': {relations: {'': {expr: _this}}}}", "id: a\nresources: {r: {relations: {x: null}}}",
	"id: a\nresources: {r: null}", "id: a\nresources: {r: {doc: 1}}", "id: a\nresources: {r: {relations: [x]}}", "id: a\nunknown: b"}

func (p fuzzPools) str(t *rapid.T, fd protoreflect.FieldDescriptor) string {
	if chance(t, 8, "empty") {
		return ""
	}
	if chance(t, 10, "nasty") {
		return genName(t, "str")
	}
	switch fd.Name() {
	case "policy_id":
		return pick(t, p.ids, "pid")
	case "expr":
		return pick(t, p.exprs, "expr")
	case "policy_yaml":
		return pick(t, p.yaml, "yaml")
	case "id":
		if strings.HasSuffix(string(fd.ContainingMessage().Name()), "Request") || fd.ContainingMessage().Name() == "Policy" {
			return pick(t, p.ids, "pid")
		}
	}
	return pick(t, p.names, "name")
}

func (p fuzzPools) scalar(t *rapid.T, fd protoreflect.FieldDescriptor) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(p.str(t, fd))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(genData(t, "bytes"))
	case protoreflect.EnumKind:
		if chance(t, 25, "oddenum") {
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(pick(t, []int32{-1, 99, 1 << 30, -1 << 31}, "enum")))
		}
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(uni(t, vs.Len(), "enum")).Number())
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(rapid.Bool().Draw(t, "bool"))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(rapid.Int64().Draw(t, "i64"))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(rapid.Uint64().Draw(t, "u64"))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(rapid.Uint32().Draw(t, "u32"))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(rapid.Int32().Draw(t, "i32"))
	}
	panic("kind " + fd.Kind().String())
}

// fill sets fields of m at random. full is the probability of setting a field.
func (p fuzzPools) fill(t *rapid.T, m protoreflect.Message, depth, full int) {
	fds := m.Descriptor().Fields()
	oneofs := map[protoreflect.Name]bool{}
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if od := fd.ContainingOneof(); od != nil {
			if oneofs[od.Name()] {
				continue
			}
			oneofs[od.Name()] = true
			fd = od.Fields().Get(uni(t, od.Fields().Len(), "oneof"))
		}
		if chance(t, 100-full, "skip") || depth <= 0 && fd.Kind() == protoreflect.MessageKind && chance(t, 80, "cut") {
			continue
		}
		p.set(t, m, fd, depth, full)
	}
}

func (p fuzzPools) set(t *rapid.T, m protoreflect.Message, fd protoreflect.FieldDescriptor, depth, full int) {
	switch {
	case fd.IsMap():
		mp := m.Mutable(fd).Map()
		for i := rapid.IntRange(0, 2).Draw(t, "nmap"); i > 0; i-- {
			mp.Set(p.scalar(t, fd.MapKey()).MapKey(), p.scalar(t, fd.MapValue()))
		}
	case fd.IsList():
		l := m.Mutable(fd).List()
		for i := rapid.IntRange(0, 3).Draw(t, "nlist"); i > 0; i-- {
			if fd.Kind() == protoreflect.MessageKind {
				e := l.NewElement()
				p.fill(t, e.Message(), depth-1, full)
				l.Append(e)
			} else {
				l.Append(p.scalar(t, fd))
			}
		}
	case fd.Kind() == protoreflect.MessageKind:
		v := m.NewField(fd)
		p.fill(t, v.Message(), depth-1, full)
		m.Set(fd, v)
	default:
		m.Set(fd, p.scalar(t, fd))
	}
}

// slots lists the fields within m, set or not
type slot struct {
	m  protoreflect.Message
	fd protoreflect.FieldDescriptor
}

func slots(m protoreflect.Message, out []slot) []slot {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		out = append(out, slot{m, fd})
		if fd.Kind() != protoreflect.MessageKind || !m.Has(fd) || fd.IsMap() {
			continue
		}
		if fd.IsList() {
			l := m.Get(fd).List()
			for j := 0; j < l.Len(); j++ {
				out = slots(l.Get(j).Message(), out)
			}
		} else {
			out = slots(m.Get(fd).Message(), out)
		}
	}
	return out
}

// mutate changes a few fields of a message
func (p fuzzPools) mutate(t *rapid.T, m proto.Message) {
	for n := rapid.IntRange(1, 3).Draw(t, "nmut"); n > 0; n-- {
		ss := slots(m.ProtoReflect(), nil)
		if len(ss) == 0 {
			return
		}
		s := pick(t, ss, "slot")
		switch uni(t, 4, "mut") {
		case 0, 1:
			s.m.Clear(s.fd)
		case 2:
			p.set(t, s.m, s.fd, 2, 70)
		case 3:
			if s.fd.Kind() == protoreflect.MessageKind && !s.fd.IsList() && !s.fd.IsMap() {
				s.m.Set(s.fd, s.m.NewField(s.fd)) // present, empty
			} else if s.fd.IsList() && s.fd.Kind() == protoreflect.MessageKind {
				l := s.m.Mutable(s.fd).List()
				if l.Len() > 0 && chance(t, 60, "dup") {
					l.Append(l.Get(uni(t, l.Len(), "dupi")))
				} else {
					l.Append(l.NewElement())
				}
			} else if s.fd.Kind() == protoreflect.StringKind && !s.fd.IsList() && !s.fd.IsMap() {
				s.m.Set(s.fd, protoreflect.ValueOfString(""))
			} else {
				s.m.Clear(s.fd)
			}
		}
	}
}

func init() {
	register("C13", 20000, 300000,
		"Case: a short valid history (1-3 policies with relationships, cycles, wildcards, undefined references), then up to 12 requests of any operation: mutations of valid requests, messages filled at random by reflection (missing and empty parts, unknown enum values, odd strings, expressions and YAML), raw bytes, and now and then huge ones (deep nesting, long texts). None may panic, hang or end the process; an error must leave the observable state unchanged, a success must leave everything readable, a read must change nothing; at the end a fresh policy must work. The context of one call in twenty is found cancelled at some point of it; one call in a hundred, if rejected or a simple read, is repeated up to 1100 times. Non-trivial: at least one request was answered with an error and one was accepted.",
		genC13, runC13)
}

func genC13(t *rapid.T) FuzzCase {
	o := histOpts{ids: rapid.IntRange(1, 3).Draw(t, "nids"), nasty: 30, restrict: true, variants: 2, rels: 8,
		kinds: map[string]int{"set": 12, "update": 1, "del": 1}}
	v := genVocab(t, o)
	c := FuzzCase{Ids: v.Ids, Ops: genOps(t, v, o, 4, 16)}
	p := poolsOf(v)
	o.kinds = map[string]int{"create": 4, "update": 4, "delpol": 1, "getpol": 1, "list": 1, "set": 4, "del": 3, "get": 2, "find": 3, "delsel": 3, "check": 4, "explain": 3, "expand": 3, "dump": 1}
	n := rapid.IntRange(1, 12).Draw(t, "nreqs")
	for i := 0; i < n; i++ {
		c.Reqs = append(c.Reqs, rapid.Custom(func(t *rapid.T) RawReq {
			r := genRawReq(t, v, o, p)
			if chance(t, 5, "cancelled") {
				r.Cx = 1 + uni(t, 6, "cx")
			}
			if chance(t, 1, "again") {
				r.Rep = pick(t, []int{40, 70, 130, 260, 600, 1100}, "rep")
			}
			return r
		}).Draw(t, "req"))
	}
	if chance(t, 4, "giant") {
		g := RawReq{M: pick(t, []string{"CreatePolicyRequest", "CreatePolicyRequest", "UpdatePolicyRequest"}, "gm"), Giant: pick(t, giantKinds, "gk")}
		g.N = pick(t, []int{50, 400, 1000, 4990, 9990, 10010, 30000, 100000}, "gn") + uni(t, 16, "gd")
		c.Reqs = append([]RawReq{g}, c.Reqs...)
	}
	return c
}

func poolsOf(v Vocab) fuzzPools {
	p := fuzzPools{ids: append(append([]string{}, v.Ids...), "giant", "missing"), exprs: fuzzExprs, yaml: fuzzYaml}
	for _, r := range v.U.Res {
		p.names = append(p.names, r)
		p.names = append(p.names, v.U.Rels[r]...)
		p.names = append(p.names, v.U.Ids[r]...)
	}
	return p
}

func rawReq(m proto.Message) RawReq {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return RawReq{M: string(m.ProtoReflect().Descriptor().Name()), B: b}
}

func genRawReq(t *rapid.T, v Vocab, o histOpts, p fuzzPools) RawReq {
	var m proto.Message
	switch k := uni(t, 20, "how"); {
	case k < 13:
		op := genOp(t, v, o)
		m = op.request()
		if op.K == "create" || op.K == "update" {
			if chance(t, 20, "yaml") {
				d := yamlDef(pick(t, p.yaml, "y"))
				m = &api.CreatePolicyRequest{PolicyDefinition: d}
				if op.K == "update" {
					m = &api.UpdatePolicyRequest{PolicyDefinition: d}
				}
			}
		}
		if !chance(t, 15, "valid") {
			p.mutate(t, m)
		}
	case k < 19:
		m = pick(t, requestTypes, "type")()
		p.fill(t, m.ProtoReflect(), 6, pick(t, []int{60, 85, 97}, "full"))
	default:
		m = pick(t, requestTypes, "type")()
		return RawReq{M: string(m.ProtoReflect().Descriptor().Name()), B: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")}
	}
	return rawReq(m)
}

// snapshot reads everything observable without knowing what it should be
func (z *Z) snapshot(ids []string) (map[string]string, error) {
	out := map[string]string{}
	listed, err := z.List()
	if err != nil {
		return nil, fmt.Errorf("ListPolicyIds: %w", err)
	}
	out["list"] = fmt.Sprintf("%q", listed)
	all := map[string]bool{}
	for _, id := range listed {
		if all[id] {
			return nil, fmt.Errorf("policy %q listed twice", id)
		}
		all[id] = true
	}
	for _, id := range ids {
		if _, ok := all[id]; !ok {
			all[id] = false
		}
	}
	for _, id := range sortedKeys(all) {
		rec, err := z.GetPol(id)
		if err != nil && (all[id] || isPanic(err)) {
			return nil, fmt.Errorf("GetPolicy %q: %w", id, err)
		}
		if (rec != nil) != all[id] {
			return nil, fmt.Errorf("policy %q is listed: %v, but GetPolicy returned %v", id, all[id], rec)
		}
		if rec != nil {
			if rec.GetPolicy().GetId() != id {
				return nil, fmt.Errorf("GetPolicy %q returned policy %q", id, rec.GetPolicy().GetId())
			}
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(rec)
			if err != nil {
				return nil, fmt.Errorf("policy %q is not encodable: %w", id, err)
			}
			out["policy "+id] = string(b)
		}
		recs, err := z.Find(id, anySelector())
		if err != nil && (all[id] || isPanic(err)) {
			return nil, fmt.Errorf("FindRelationshipRecords %q: %w", id, err)
		}
		var rs []string
		for _, r := range recs {
			if _, err := relFromProto(r.GetRelationship()); err != nil {
				return nil, err
			}
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(r)
			if err != nil {
				return nil, fmt.Errorf("record of policy %q is not encodable: %w", id, err)
			}
			rs = append(rs, string(b))
		}
		sort.Strings(rs)
		for i := 1; i < len(rs); i++ {
			if rs[i] == rs[i-1] {
				return nil, fmt.Errorf("policy %q: relationship listed twice", id)
			}
		}
		out["rels "+id] = fmt.Sprintf("%q", rs)
	}
	return out, nil
}

func sameSnapshot(a, b map[string]string) error {
	keys := map[string]bool{}
	for k := range a {
		keys[k] = true
	}
	for k := range b {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if a[k] != b[k] {
			return fmt.Errorf("%q changed from %.600q to %.600q", k, a[k], b[k])
		}
	}
	return nil
}

func isRead(m proto.Message) bool {
	switch m.(type) {
	case *api.CreatePolicyRequest, *api.UpdatePolicyRequest, *api.DeletePolicyRequest, *api.SetRelationshipRequest, *api.DeleteRelationshipRequest, *api.DeleteRelationshipsRequest:
		return false
	}
	return true
}

// quick: a read which takes little time
func quick(m proto.Message) bool {
	switch m.(type) {
	case *api.ExplainCheckRequest, *api.ExpandRequest, *api.DumpRelationshipsRequest:
		return false
	}
	return true
}

func runC13(c FuzzCase, st *Stats) error {
	z := newLoggingZ()
	// where contexts are cancelled, a twin gets the same calls with a context which never is
	var twin *Z
	for _, r := range c.Reqs {
		if r.Cx > 0 {
			twin = newZ()
		}
	}
	if len(c.Reqs) > 0 && c.Reqs[0].Giant != "" {
		twin = nil
	}
	for i, o := range c.Ops {
		if _, err := z.do(o); isPanic(err) {
			return fmt.Errorf("step %d: %w", i, err)
		}
		if twin != nil {
			twin.do(o)
		}
	}
	ids := append(append([]string{}, c.Ids...), "giant", "missing", "")
	before, err := z.snapshot(ids)
	if err != nil {
		return err
	}
	errs, oks := 0, 0
	for i, r := range c.Reqs {
		m := r.message()
		if m == nil {
			st.label("undecodable")
			continue
		}
		name := string(m.ProtoReflect().Descriptor().Name())
		what := fmt.Sprintf("request %d, %s %.700v", i, name, m)
		if r.Giant != "" {
			what = fmt.Sprintf("request %d, %s %s %d", i, name, r.Giant, r.N)
			st.label("giant-%s", r.Giant)
		}
		cz, gaveUp := z, func() bool { return false }
		if r.Cx > 0 {
			st.label("cancelled")
			what += fmt.Sprintf(", its context cancelled when asked for the %d. time", r.Cx)
			c := newCountdown(r.Cx - 1)
			defer c.cancel()
			cz = z.under(c)
			gaveUp = c.over
		}
		orig := proto.Clone(m)
		resp, err := cz.send(m)
		if isPanic(err) {
			return fmt.Errorf("%s: %w", what, err)
		}
		if twin != nil {
			tresp, terr := twin.send(proto.Clone(orig))
			if isPanic(terr) {
				return fmt.Errorf("%s: %w", what, terr)
			}
			if gaveUp() && err != nil {
				if _, again := z.send(proto.Clone(orig)); isPanic(again) {
					return fmt.Errorf("%s, again: %w", what, again)
				}
			} else if r.Cx > 0 {
				if (err == nil) != (terr == nil) {
					return fmt.Errorf("%s: error %v, without that %v", what, err, terr)
				}
				if err == nil {
					if got, want := canonResp(resp, false), canonResp(tresp, false); got != want {
						return fmt.Errorf("%s: answered %.500q, without that %.500q", what, got, want)
					}
				}
			}
			if r.Cx > 0 {
				if e := sameStored(z, twin, ids); e != nil {
					return fmt.Errorf("%s: the state is not the one without that: %w", what, e)
				}
			}
		}
		for k := 0; k < r.Rep && r.Cx == 0 && (err != nil || isRead(m) && quick(m)); k++ {
			rm := proto.Clone(orig)
			_, rerr := z.send(rm)
			if isPanic(rerr) {
				return fmt.Errorf("%s, for the %d. time: %w", what, k+2, rerr)
			}
			if (rerr == nil) != (err == nil) {
				return fmt.Errorf("%s: error %v, for the %d. time %v", what, err, k+2, rerr)
			}
		}
		st.labelIf(r.Rep > 0, "repeated")
		if err == nil && resp == nil {
			return fmt.Errorf("%s: neither a response nor an error", what)
		}
		if err == nil {
			if _, e := proto.Marshal(resp); e != nil {
				return fmt.Errorf("%s: the response cannot be encoded: %w", what, e)
			}
		}
		after, serr := z.snapshot(ids)
		if serr != nil {
			return fmt.Errorf("after %s (error %v): %w", what, err, serr)
		}
		// a write which was given up may have done some of its work, as if it had been interrupted
		if err != nil && !gaveUp() || isRead(m) {
			if e := sameSnapshot(before, after); e != nil {
				return fmt.Errorf("%s (error %v) changed the state: %w", what, err, e)
			}
		}
		if r.Giant != "" && err == nil {
			if e := useGiant(z, m, r.N); e != nil {
				return fmt.Errorf("using the policy of %s: %w", what, e)
			}
			if after, serr = z.snapshot(ids); serr != nil {
				return fmt.Errorf("after using the policy of %s: %w", what, serr)
			}
		}
		before = after
		if err != nil {
			errs++
			st.label("error-%s", name)
		} else {
			oks++
			st.label("ok-%s", name)
		}
	}
	st.NonTrivial = errs > 0 && oks > 0
	return z.health(ids)
}

// useGiant calls every operation on the policy of an accepted request
func useGiant(z *Z, m proto.Message, n0 int) error {
	id, res, rel := "giant", "r", "x"
	if c, ok := m.(*api.CreatePolicyRequest); ok && c.GetPolicyDefinition().GetPolicy() != nil {
		p := c.GetPolicyDefinition().GetPolicy()
		id = p.Id
		if len(p.Resources) > 0 {
			res = p.Resources[0].Name
			if len(p.Resources[0].Relations) > 0 {
				rel = p.Resources[0].Relations[0].Name
			}
		}
	}
	r := Rel{O: Ent{res, "1"}, Rel: rel, S: entitySet(res, "2", rel)}
	n := Node{res, "1", rel}
	e := Ent{res, "3"}
	ops := []Op{{K: "set", P: id, R: &r}, {K: "check", P: id, N: &n, E: &e}, {K: "dump", P: id}}
	// explanations are indented, hence their size is quadratic in the depth of the expression: kept within bounds
	for f := int32(0); f < 3 && n0 <= 1200; f++ {
		ops = append(ops, Op{K: "explain", P: id, N: &n, E: &e, F: f}, Op{K: "expand", P: id, N: &n, F: f})
	}
	for _, o := range ops {
		if _, err := z.do(o); isPanic(err) {
			return err
		}
	}
	return nil
}

// health uses a fresh policy from creation to deletion
func (z *Z) health(used []string) error {
	id := "health"
	for contains(used, id) {
		id += "+"
	}
	if rec, _ := z.GetPol(id); rec != nil {
		id += "++"
	}
	m := newModel()
	p := Pol{Id: id, Res: []ResDef{{Name: "u"}, {Name: "f", Rels: []RelDef{{Name: "a", E: op(this(), "+", cu("b")), Rs: anyRestr}, {Name: "b", E: this(), Rs: anyRestr}}}}}
	r := Rel{O: Ent{"f", "1"}, Rel: "b", S: entity("u", "1")}
	for _, o := range []Op{
		{K: "create", Pol: &p},
		{K: "set", P: id, R: &r, D: []byte("x")},
		{K: "check", P: id, N: &Node{"f", "1", "a"}, E: &Ent{"u", "1"}},
		{K: "check", P: id, N: &Node{"f", "2", "a"}, E: &Ent{"u", "1"}},
		{K: "find", P: id, Sel: &anySel},
		{K: "del", P: id, R: &r},
		{K: "check", P: id, N: &Node{"f", "1", "a"}, E: &Ent{"u", "1"}},
		{K: "delpol", P: id},
		{K: "getpol", P: id},
	} {
		if err := m.step(z, o); err != nil {
			return fmt.Errorf("afterwards, on a fresh policy: %w", err)
		}
	}
	return nil
}

func contains[T comparable](xs []T, x T) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}
