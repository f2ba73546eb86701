package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/sourcenetwork/zanzi/pkg/api"
)

// canonResp renders a response so that two responses which mean the same are equal: lists of records are sets, documents
// are compared as the trees and graphs they hold. times: also compare creation times.
func canonResp(resp proto.Message, times bool) string {
	if resp == nil {
		return "nil"
	}
	m := proto.Clone(resp)
	if !times {
		clearTimes(m.ProtoReflect())
	}
	text := func(m proto.Message) string {
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
		if err != nil {
			return "not encodable: " + err.Error()
		}
		return string(b)
	}
	extra := ""
	switch r := m.(type) {
	case *api.ListPolicyIdsResponse:
		sort.Slice(r.Records, func(i, j int) bool { return text(r.Records[i]) < text(r.Records[j]) })
	case *api.FindRelationshipRecordsResponse:
		if r.Result != nil {
			rs := r.Result.Records
			sort.Slice(rs, func(i, j int) bool { return text(rs[i]) < text(rs[j]) })
		}
	case *api.ExplainCheckResponse:
		extra = canonDoc(r.GetGoalTree(), r.GetFormat())
		r.GoalTree = ""
	case *api.ExpandResponse:
		extra = canonDoc(r.GetGoalTree(), r.GetFormat())
		r.GoalTree = ""
	case *api.DumpRelationshipResponse:
		extra = canonDOT(r.GetDot())
		r.Dump = nil
	}
	return fmt.Sprintf("%s %q %s", m.ProtoReflect().Descriptor().Name(), text(m), extra)
}

// canonDoc: the tree in a document. The debug format holds memory addresses and is only compared as present.
func canonDoc(doc string, f api.ExplainFormat) string {
	var tr *gnode
	var err error
	switch f {
	case api.ExplainFormat_JSON:
		tr, err = decodeJSONTree(doc)
	case api.ExplainFormat_DOT:
		tr, err = decodeDOTTree(doc)
	default:
		return fmt.Sprintf("text %v", doc != "")
	}
	if err != nil {
		return "unreadable"
	}
	return fmt.Sprintf("tree %x of %d", tr.canon(), tr.size())
}

func canonDOT(dot string) string {
	g, err := parseDOT(dot)
	if err != nil {
		return "unreadable"
	}
	var out []string
	for e, n := range g.edges {
		out = append(out, fmt.Sprintf("%q->%q*%d", g.labels[e[0]], g.labels[e[1]], n))
	}
	for _, l := range g.labels {
		out = append(out, fmt.Sprintf("%q", l))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func clearTimes(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Kind() != protoreflect.MessageKind || fd.IsMap() {
			return true
		}
		switch {
		case fd.Message().FullName() == (&timestamppb.Timestamp{}).ProtoReflect().Descriptor().FullName():
			m.Set(fd, protoreflect.ValueOfMessage((&timestamppb.Timestamp{}).ProtoReflect()))
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				clearTimes(v.List().Get(i).Message())
			}
		default:
			clearTimes(v.Message())
		}
		return true
	})
}

// scramble changes everything within a message in place. With some bits set in mask it leaves parts as they are: a stale
// copy which is recognised by a name must not escape because the name was changed too.
func scramble(m protoreflect.Message, mask *uint32) {
	keep := func() bool {
		if *mask == 0 {
			return false
		}
		*mask = *mask*1664525 + 1013904223 | 1
		return *mask>>16&1 == 0
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		scalar := func(v protoreflect.Value) protoreflect.Value {
			if keep() {
				return v
			}
			switch fd.Kind() {
			case protoreflect.StringKind:
				return protoreflect.ValueOfString(v.String() + " changed")
			case protoreflect.BytesKind:
				b := v.Bytes()
				for i := range b {
					b[i] ^= 0x5a
				}
				return protoreflect.ValueOfBytes(b)
			case protoreflect.EnumKind:
				return protoreflect.ValueOfEnum(v.Enum() + 1)
			case protoreflect.BoolKind:
				return protoreflect.ValueOfBool(!v.Bool())
			case protoreflect.Int64Kind:
				return protoreflect.ValueOfInt64(v.Int() + 1000000)
			case protoreflect.Uint64Kind:
				return protoreflect.ValueOfUint64(v.Uint() + 1000000)
			case protoreflect.Int32Kind:
				return protoreflect.ValueOfInt32(int32(v.Int()) + 1000)
			}
			return v
		}
		switch {
		case fd.IsMap():
			if keep() {
				return true
			}
			var ks []protoreflect.MapKey
			v.Map().Range(func(k protoreflect.MapKey, _ protoreflect.Value) bool { ks = append(ks, k); return true })
			for _, k := range ks {
				v.Map().Clear(k)
			}
			if fd.MapKey().Kind() == protoreflect.StringKind && fd.MapValue().Kind() == protoreflect.StringKind {
				v.Map().Set(protoreflect.ValueOfString("changed").MapKey(), protoreflect.ValueOfString("changed"))
			}
		case fd.IsList():
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				if fd.Kind() == protoreflect.MessageKind {
					scramble(l.Get(i).Message(), mask)
				} else {
					l.Set(i, scalar(l.Get(i)))
				}
			}
			if l.Len() > 1 && !keep() {
				a := l.Get(0)
				l.Set(0, l.Get(1))
				l.Set(1, a)
			}
		case fd.Kind() == protoreflect.MessageKind:
			scramble(v.Message(), mask)
		default:
			m.Set(fd, scalar(v))
		}
		return true
	})
}

func init() {
	register("C19", 14000, 250000,
		"Case: a history of up to 30 operations of every kind over 1-3 policies. After every call its request and response are changed in place, entirely or about half of their parts, and all later answers must be those of a model of what was given. In half of the cases the store records its accesses: a read may not write, no operation may leave an iterator open, and a read repeated at once must give the same answer (lists as sets, documents as the trees they hold). Half of these go on with modifications which the store interrupts, after which reads may not write either. The other half runs on the in-memory store of the library. Non-trivial: at least two modifications succeeded, each followed by some read, and at least three reads.",
		func(t *rapid.T) AliasCase {
			o := histOpts{ids: rapid.IntRange(1, 3).Draw(t, "nids"), nasty: 25, restrict: chance(t, 30, "restrict"), variants: 2, rels: 7,
				kinds: map[string]int{"set": 10, "del": 2, "create": 2, "update": 3, "delpol": 1, "delsel": 1, "getpol": 3, "list": 2, "get": 4, "find": 4, "check": 5, "explain": 3, "expand": 3, "dump": 2}}
			v := genVocab(t, o)
			c := AliasCase{Ids: v.Ids, Rels: v.Rels, Nodes: v.U.nodes(), Subs: v.U.entities(), Ops: genOps(t, v, o, 6, 30), Mem: chance(t, 50, "mem"), Mask: pick(t, []uint32{0, 1, 3, 5, 7, 9, 11, 13}, "mask")}
			if !c.Mem && chance(t, 50, "part") {
				for _, op := range genOps(t, v, histOpts{kinds: map[string]int{"set": 3, "del": 4, "update": 1, "delpol": 2, "delsel": 3}}, 2, 6) {
					if op.K != "create" {
						c.Part = append(c.Part, op)
					}
				}
				c.Cut = rapid.IntRange(0, 3).Draw(t, "cut")
			}
			return c
		}, runC19)
}

type AliasCase struct {
	Ids   []string `json:"ids"`
	Rels  []Rel    `json:"rels"`
	Nodes []Node   `json:"nodes"`
	Subs  []Ent    `json:"subs"`
	Ops   []Op     `json:"ops"`
	Mem   bool     `json:"mem,omitempty"`
	// Cut: afterwards these modifications are interrupted by a store which refuses all writes but the first Cut
	Part []Op   `json:"part,omitempty"`
	Cut  int    `json:"cut,omitempty"`
	Mask uint32 `json:"mask,omitempty"` // 0: messages are changed entirely, otherwise about half of their parts, chosen by it
}

func runC19(c AliasCase, st *Stats) error {
	kv := newMapKV()
	var z *Z
	if c.Mem {
		z = newZOn(rcdb.NewMemKV())
	} else {
		z = newZOn(kv)
	}
	m := newModel()
	mods, reads, pending := 0, 0, false
	mask := c.Mask
	for i, o := range c.Ops {
		what := fmt.Sprintf("step %d (%v)", i, o)
		kv.log, kv.writes = true, nil
		req := proto.Clone(o.request()) // shares no memory with the model
		pre := m.clone()
		t0 := time.Now()
		resp, err := z.send(req)
		t1 := time.Now()
		ok := m.apply(o, t0, t1)
		if e := m.judge(pre, o, ok, resp, err); e != nil {
			return fmt.Errorf("%s: %w", what, e)
		}
		if kv.open != 0 {
			return fmt.Errorf("%s left %d iterators open", what, kv.open)
		}
		if o.mutates() {
			if ok && err == nil {
				mods++
				pending = true
			}
		} else {
			if len(kv.writes) > 0 {
				return fmt.Errorf("%s is a read and wrote to the store: %s %q", what, kv.writes[0].Kind, kv.writes[0].Key)
			}
			reads++
			first := canonResp(resp, true)
			again, err2 := z.send(o.request())
			if (err == nil) != (err2 == nil) {
				return fmt.Errorf("%s: error %v, repeated at once: error %v", what, err, err2)
			}
			if second := canonResp(again, true); first != second {
				return fmt.Errorf("%s answered %.600s, repeated at once %.600s", what, first, second)
			}
			if len(kv.writes) > 0 {
				return fmt.Errorf("%s is a read and wrote to the store when repeated: %s %q", what, kv.writes[0].Kind, kv.writes[0].Key)
			}
			if err2 == nil {
				scramble(again.ProtoReflect(), &mask)
			}
		}
		// the caller reuses its messages
		scramble(req.ProtoReflect(), &mask)
		if err == nil {
			scramble(resp.ProtoReflect(), &mask)
		}
		if o.mutates() {
			if e := m.compareAll(z, c.Ids, c.Rels); e != nil {
				return fmt.Errorf("after %s and a change of its messages: %w", what, e)
			}
		}
	}
	for _, id := range m.ids() {
		p := m.pols[id]
		kv.writes = nil
		if err := checkSweep(z, id, p.pol, p.list(), c.Nodes, c.Subs, 40); err != nil {
			return fmt.Errorf("at the end, policy %q: %w", id, err)
		}
		dot, err := z.Dump(id)
		if err != nil {
			return fmt.Errorf("at the end, dump of %q: %w", id, err)
		}
		if err := judgeDump(dot, p.list()); err != nil {
			return fmt.Errorf("at the end, dump of %q: %w", id, err)
		}
		if len(kv.writes) > 0 {
			return fmt.Errorf("checks and dumps of %q wrote to the store: %s %q", id, kv.writes[0].Kind, kv.writes[0].Key)
		}
	}
	if err := m.compareAll(z, c.Ids, c.Rels); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	for i, o := range c.Part {
		left, hit := c.Cut, false
		kv.hook = func(a kvAccess) error {
			if !a.isWrite() {
				return nil
			}
			if left--; left < 0 {
				hit = true
				return &faultError{c.Cut}
			}
			return nil
		}
		z.do(o)
		kv.hook = nil
		if hit {
			st.label("interrupted")
		}
		kv.writes = nil
		if err := readAll(z, &c); err != nil {
			return fmt.Errorf("after %v, interrupted: %w", o, err)
		}
		if len(kv.writes) > 0 {
			return fmt.Errorf("after operation %d, %v, interrupted by the store, reads wrote to the store: %s %q", i, o, kv.writes[0].Kind, kv.writes[0].Key)
		}
	}
	st.NonTrivial = mods >= 2 && reads >= 3 && pending
	labelOps(st, c.Ops)
	st.labelIf(c.Mem, "library-store")
	return nil
}

// readAll runs every read over the vocabulary of a case
func readAll(z *Z, c *AliasCase) error {
	ops := []Op{{K: "list"}}
	for _, id := range c.Ids {
		ops = append(ops, Op{K: "getpol", P: id}, Op{K: "find", P: id, Sel: &anySel}, Op{K: "dump", P: id})
		for _, r := range c.Rels {
			if r := r; r.complete() {
				ops = append(ops, Op{K: "get", P: id, R: &r})
			}
		}
		for i, n := range c.Nodes {
			if i%3 == 0 && len(c.Subs) > 0 {
				n := n
				ops = append(ops, Op{K: "check", P: id, N: &n, E: &c.Subs[i%len(c.Subs)]}, Op{K: "explain", P: id, N: &n, E: &c.Subs[i%len(c.Subs)], F: int32(i % 3)}, Op{K: "expand", P: id, N: &n, F: int32(i % 3)})
			}
		}
	}
	for _, o := range ops {
		if _, err := z.do(o); isPanic(err) {
			return err
		}
	}
	return nil
}
