package harness

import (
	"fmt"
	"sort"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// Sel is a relationship selector. Kinds: O any/res/obj, R any/name, S any/res/sub; "none" leaves the part out,
// "empty" gives a part without content
type Sel struct {
	O   string `json:"o"`
	OE  Ent    `json:"oe"`
	R   string `json:"r"`
	Rel string `json:"rel,omitempty"`
	S   string `json:"s"`
	SS  Sub    `json:"ss"`
}

func (s Sel) Proto() *domain.RelationshipSelector {
	out := &domain.RelationshipSelector{}
	switch s.O {
	case "any":
		out.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
	case "res":
		out.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ResourceSpec{ResourceSpec: s.OE.R}}
	case "obj":
		out.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{ObjectSpec: s.OE.Proto()}}
	case "empty":
		out.ObjectSelector = &domain.ObjectSelector{}
	}
	switch s.R {
	case "any":
		out.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
	case "name":
		out.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: s.Rel}}
	case "empty":
		out.RelationSelector = &domain.RelationSelector{}
	}
	switch s.S {
	case "any":
		out.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
	case "res":
		out.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_ResourceSpec{ResourceSpec: s.SS.R}}
	case "sub":
		out.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_SubjectSpec{SubjectSpec: s.SS.Proto()}}
	case "empty":
		out.SubjectSelector = &domain.SubjectSelector{}
	}
	return out
}

// complete: every part is given
func (s Sel) complete() bool {
	ok := func(k string) bool { return k != "none" && k != "empty" }
	return ok(s.O) && ok(s.R) && ok(s.S) && (s.S != "sub" || s.SS.K != "")
}

// valid: the policy defines what the selector names
func (s Sel) valid(p Pol) bool {
	if !s.complete() {
		return false
	}
	if s.O != "any" && !p.hasRes(s.OE.R) {
		return false
	}
	if s.R == "name" {
		found := false
		for _, r := range p.Res {
			if (s.O == "any" || r.Name == s.OE.R) && p.find(r.Name, s.Rel) != nil {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return s.S == "any" || p.hasRes(s.SS.R)
}

func (s Sel) matches(r Rel) bool {
	switch s.O {
	case "res":
		if r.O.R != s.OE.R {
			return false
		}
	case "obj":
		if r.O != s.OE {
			return false
		}
	}
	if s.R == "name" && r.Rel != s.Rel {
		return false
	}
	switch s.S {
	case "res":
		if r.S.R != s.SS.R {
			return false
		}
	case "sub":
		if r.S != s.SS {
			return false
		}
	}
	return true
}

var anySel = Sel{O: "any", R: "any", S: "any"}

// Op is one call of the API
type Op struct {
	K   string `json:"k"`
	P   string `json:"p,omitempty"`
	Pol *Pol   `json:"pol,omitempty"`
	R   *Rel   `json:"r,omitempty"`
	D   []byte `json:"d,omitempty"`
	Sel *Sel   `json:"sel,omitempty"`
	N   *Node  `json:"n,omitempty"`
	E   *Ent   `json:"e,omitempty"`
	F   int32  `json:"f,omitempty"`
	// Cx: the context of the call is found cancelled from the Cx-th time on that it is asked; 0 is never
	Cx int `json:"cx,omitempty"`
}

func (o Op) String() string {
	s := o.K + " " + fmt.Sprintf("%q", o.P)
	if o.Pol != nil {
		s += fmt.Sprintf(" policy %q", o.Pol.Id)
	}
	if o.R != nil {
		s += fmt.Sprintf(" %+v", *o.R)
	}
	if o.Sel != nil {
		s += fmt.Sprintf(" %+v", *o.Sel)
	}
	if o.N != nil {
		s += fmt.Sprintf(" %+v", *o.N)
	}
	if o.E != nil {
		s += fmt.Sprintf(" %+v", *o.E)
	}
	return s
}

func (o Op) mutates() bool {
	switch o.K {
	case "create", "update", "delpol", "set", "del", "delsel":
		return true
	}
	return false
}

// target is the policy an operation is about
func (o Op) target() string {
	if o.Pol != nil {
		return o.Pol.Id
	}
	return o.P
}

func (o Op) request() proto.Message {
	switch o.K {
	case "create":
		return &api.CreatePolicyRequest{PolicyDefinition: polDef(o.Pol.Proto()), AppData: o.D}
	case "update":
		return &api.UpdatePolicyRequest{PolicyDefinition: polDef(o.Pol.Proto()), AppData: o.D}
	case "delpol":
		return &api.DeletePolicyRequest{Id: o.P}
	case "getpol":
		return &api.GetPolicyRequest{Id: o.P}
	case "list":
		return &api.ListPolicyIdsRequest{}
	case "set":
		return &api.SetRelationshipRequest{PolicyId: o.P, Relationship: o.R.Proto(), AppData: o.D}
	case "del":
		return &api.DeleteRelationshipRequest{PolicyId: o.P, Relationship: o.R.Proto()}
	case "get":
		return &api.GetRelationshipRequest{PolicyId: o.P, Relationship: o.R.Proto()}
	case "find":
		return &api.FindRelationshipRecordsRequest{PolicyId: o.P, Selector: o.Sel.Proto()}
	case "delsel":
		return &api.DeleteRelationshipsRequest{PolicyId: o.P, Selector: o.Sel.Proto()}
	case "check":
		return &api.CheckRequest{PolicyId: o.P, AccessRequest: accessRequest(*o.N, *o.E)}
	case "explain":
		return &api.ExplainCheckRequest{PolicyId: o.P, AccessRequest: accessRequest(*o.N, *o.E), Format: api.ExplainFormat(o.F)}
	case "expand":
		return &api.ExpandRequest{PolicyId: o.P, Root: nodeProto(*o.N), Format: api.ExplainFormat(o.F)}
	case "dump":
		return &api.DumpRelationshipsRequest{PolicyId: o.P, Format: api.DumpRelationshipsRequest_DOT}
	}
	panic("op " + o.K)
}

// send calls the operation a request belongs to
func (z *Z) send(req proto.Message) (resp proto.Message, err error) {
	if z.Wire {
		req = wire(req)
	}
	name := string(req.ProtoReflect().Descriptor().Name())
	set := func(m proto.Message, e error) {
		if e == nil {
			resp = m
		}
		err = e
	}
	gerr := guard(name, func() error {
		switch r := req.(type) {
		case *api.CreatePolicyRequest:
			set(z.S.CreatePolicy(z.ctx(), r))
		case *api.UpdatePolicyRequest:
			set(z.S.UpdatePolicy(z.ctx(), r))
		case *api.DeletePolicyRequest:
			set(z.S.DeletePolicy(z.ctx(), r))
		case *api.GetPolicyRequest:
			set(z.S.GetPolicy(z.ctx(), r))
		case *api.ListPolicyIdsRequest:
			set(z.S.ListPolicyIds(z.ctx(), r))
		case *api.SetRelationshipRequest:
			set(z.S.SetRelationship(z.ctx(), r))
		case *api.DeleteRelationshipRequest:
			set(z.S.DeleteRelationship(z.ctx(), r))
		case *api.GetRelationshipRequest:
			set(z.S.GetRelationship(z.ctx(), r))
		case *api.FindRelationshipRecordsRequest:
			set(z.S.FindRelationshipRecords(z.ctx(), r))
		case *api.DeleteRelationshipsRequest:
			set(z.S.DeleteRelationships(z.ctx(), r))
		case *api.CheckRequest:
			set(z.S.Check(z.ctx(), r))
		case *api.ExplainCheckRequest:
			set(z.S.ExplainCheck(z.ctx(), r))
		case *api.ExpandRequest:
			set(z.S.Expand(z.ctx(), r))
		case *api.DumpRelationshipsRequest:
			set(z.S.DumpRelationships(z.ctx(), r))
		default:
			panic(fmt.Sprintf("request %T", req))
		}
		return nil
	})
	if gerr != nil {
		return nil, gerr
	}
	return
}

func (z *Z) do(o Op) (proto.Message, error) { return z.send(o.request()) }

func (m *Model) clone() *Model {
	out := newModel()
	for id, p := range m.pols {
		q := *p
		q.rels = map[Rel]*mRel{}
		for r, x := range p.rels {
			y := *x
			q.rels[r] = &y
		}
		out.pols[id] = &q
	}
	return out
}

// cloneOf is a clone as far as one policy is concerned; the others are shared
func (m *Model) cloneOf(id string) *Model {
	out := newModel()
	for k, p := range m.pols {
		out.pols[k] = p
	}
	if p := m.pols[id]; p != nil {
		q := *p
		q.rels = make(map[Rel]*mRel, len(p.rels))
		for r, x := range p.rels {
			q.rels[r] = x // records are replaced, never changed
		}
		out.pols[id] = &q
	}
	return out
}

// put sets an admitted relationship; it takes less time than a step
func (m *Model) put(z *Z, id string, r Rel, data []byte) error {
	t0 := time.Now()
	over, err := z.Set(id, r, data)
	if err != nil {
		return fmt.Errorf("SetRelationship of an admitted relationship %+v failed: %w", r, err)
	}
	if had := m.pols[id].rels[r] != nil; over != had {
		return fmt.Errorf("SetRelationship %+v in %q: overwritten %v, want %v", r, id, over, had)
	}
	m.apply(Op{K: "set", P: id, R: &r, D: data}, t0, time.Now())
	return nil
}

// apply executes an operation in the model; ok tells whether the operation must succeed
func (m *Model) apply(o Op, t0, t1 time.Time) (ok bool) {
	switch o.K {
	case "create", "update":
		old := m.pols[o.Pol.Id]
		if !o.Pol.valid() || (o.K == "create") != (old == nil) {
			return false
		}
		if o.K == "create" {
			m.pols[o.Pol.Id] = &mPol{pol: *o.Pol, data: o.D, rels: map[Rel]*mRel{}, after: t0, before: t1}
		} else {
			old.pol, old.data = *o.Pol, o.D
		}
	case "delpol":
		delete(m.pols, o.P)
	case "set":
		p := m.pols[o.P]
		if p == nil || !p.pol.admits(*o.R) {
			return false
		}
		after := t0
		if old := p.rels[*o.R]; old != nil {
			after = old.after
		}
		p.rels[*o.R] = &mRel{data: o.D, after: after, before: t1}
	case "del":
		if !o.R.complete() {
			return false
		}
		if p := m.pols[o.P]; p != nil {
			delete(p.rels, *o.R)
		}
	case "get":
		return o.R.complete()
	case "find":
		p := m.pols[o.P]
		return p != nil && o.Sel.valid(p.pol)
	case "delsel":
		if !o.Sel.complete() {
			return false
		}
		if p := m.pols[o.P]; p != nil {
			for r := range p.rels {
				if o.Sel.matches(r) {
					delete(p.rels, r)
				}
			}
		}
	case "getpol", "list":
	default:
		p := m.pols[o.P]
		return p != nil
	}
	return true
}

// judge compares a response with the model as it was before (pre) and is after (m) the operation
func (m *Model) judge(pre *Model, o Op, ok bool, resp proto.Message, err error) error {
	if isPanic(err) {
		return err
	}
	p := pre.pols[o.target()]
	switch o.K {
	case "check", "explain", "expand":
		return judgeGraphOp(p, o, resp, err)
	case "dump":
		if (err == nil) != ok {
			return fmt.Errorf("error %v, want success %v", err, ok)
		}
		return nil
	case "del", "delsel":
		// nothing to delete in a policy which does not exist or by names which are not defined: an error or nothing found
		lenient := p == nil || o.K == "delsel" && !o.Sel.valid(p.pol)
		if lenient && err != nil {
			return nil
		}
		if d, is := resp.(*api.DeleteRelationshipsResponse); is && !ok && d.GetRecordsAffected() == 0 {
			return nil // a selector with missing parts: an error, or nothing deleted
		}
	case "get":
		if p == nil && err != nil {
			return nil
		}
	case "find":
		// a userset subject whose relation is not defined: an error or nothing found
		if err != nil && ok && o.Sel.S == "sub" && o.Sel.SS.K == "s" && p.pol.find(o.Sel.SS.R, o.Sel.SS.Rel) == nil {
			return nil
		}
	}
	if (err == nil) != ok {
		if ok {
			return fmt.Errorf("failed: %w", err)
		}
		return fmt.Errorf("succeeded with %v, an error was due", resp)
	}
	if err != nil {
		return nil
	}
	switch r := resp.(type) {
	case *api.CreatePolicyResponse:
		q := m.pols[o.Pol.Id]
		if r.GetRecord() == nil {
			return fmt.Errorf("no record in the response")
		}
		if err := q.matches(r.GetRecord()); err != nil {
			return err
		}
		q.created = r.GetRecord().GetCreatedAt().AsTime()
		if !between(q.created, q.after, q.before) {
			return fmt.Errorf("creation time %v, created between %v and %v", q.created, q.after, q.before)
		}
	case *api.DeletePolicyResponse:
		n := 0
		if p != nil {
			n = len(p.rels)
		}
		if r.GetFound() != (p != nil) || r.GetRelationshipsRemoved() != uint64(n) {
			return fmt.Errorf("reported found=%v removed=%v, want %v %v", r.GetFound(), r.GetRelationshipsRemoved(), p != nil, n)
		}
	case *api.GetPolicyResponse:
		if (r.GetRecord() != nil) != (p != nil) {
			return fmt.Errorf("returned %v, policy exists: %v", r.GetRecord(), p != nil)
		}
		if p != nil {
			return p.matches(r.GetRecord())
		}
	case *api.ListPolicyIdsResponse:
		var ids []string
		for _, x := range r.GetRecords() {
			ids = append(ids, x.GetId())
		}
		sort.Strings(ids)
		if fmt.Sprintf("%q", ids) != fmt.Sprintf("%q", pre.ids()) {
			return fmt.Errorf("listed %q, want %q", ids, pre.ids())
		}
	case *api.SetRelationshipResponse:
		if want := p.rels[*o.R] != nil; r.GetRecordOverwritten() != want {
			return fmt.Errorf("reported overwritten=%v, want %v", r.GetRecordOverwritten(), want)
		}
	case *api.DeleteRelationshipResponse:
		if want := p != nil && p.rels[*o.R] != nil; r.GetFound() != want {
			return fmt.Errorf("reported found=%v, want %v", r.GetFound(), want)
		}
	case *api.GetRelationshipResponse:
		var want *mRel
		if p != nil {
			want = p.rels[*o.R]
		}
		if (r.GetRecord() != nil) != (want != nil) {
			return fmt.Errorf("returned %v, relationship exists: %v", r.GetRecord(), want != nil)
		}
		if want != nil {
			return recordMatch(o.P, r.GetRecord(), *o.R, want)
		}
	case *api.FindRelationshipRecordsResponse:
		want := map[Rel]*mRel{}
		for k, v := range p.rels {
			if o.Sel.matches(k) {
				want[k] = v
			}
		}
		return recordsMatch(o.P, r.GetResult().GetRecords(), want)
	case *api.DeleteRelationshipsResponse:
		n := 0
		if p != nil {
			n = len(p.rels) - len(m.pols[o.P].rels)
		}
		if r.GetRecordsAffected() != uint64(n) {
			return fmt.Errorf("reported %v relationships deleted, want %v", r.GetRecordsAffected(), n)
		}
	}
	return nil
}

// judgeGraphOp judges check, explain and expand
func judgeGraphOp(p *mPol, o Op, resp proto.Message, err error) error {
	if p == nil {
		if err == nil {
			return fmt.Errorf("answered %v for a policy which does not exist", resp)
		}
		return nil
	}
	g := newGraph(p.pol, p.list())
	g.explore(*o.N)
	if g.undef[*o.N] {
		if err == nil {
			return fmt.Errorf("answered %v for a relation which is not defined", resp)
		}
		return nil
	}
	if err != nil {
		if g.err[*o.N] {
			return nil
		}
		return fmt.Errorf("failed: %w", err)
	}
	var got bool
	switch r := resp.(type) {
	case *api.CheckResponse:
		got = r.GetResult().GetAuthorized()
	case *api.ExplainCheckResponse:
		got = r.GetAuthorized()
	default:
		return nil
	}
	if g.unstratified()[*o.N] {
		return nil
	}
	return g.judgeAnswer(*o.N, *o.E, got)
}

// step executes an operation on the system and the model and judges the response
func (m *Model) step(z *Z, o Op) error {
	pre := m.cloneOf(o.target())
	t0 := time.Now()
	if _, is := z.S.(embedded); o.Cx > 0 && is && o.K != "create" {
		c := newCountdown(o.Cx - 1)
		defer c.cancel()
		resp, err := z.under(c).do(o)
		if err == nil || isPanic(err) || !c.over() {
			ok := m.apply(o, t0, time.Now())
			if e := m.judge(pre, o, ok, resp, err); e != nil {
				return fmt.Errorf("%v, its context cancelled when asked for the %d. time: %w", o, o.Cx, e)
			}
			return nil
		}
		// given up: like an interrupted operation, it can be repeated
		if o.mutates() {
			_, err = z.do(o)
			ok := m.apply(o, t0, time.Now())
			if isPanic(err) || ok && err != nil {
				return fmt.Errorf("%v, again after its context was cancelled: %w", o, err)
			}
			return nil
		}
	}
	resp, err := z.do(o)
	t1 := time.Now()
	ok := m.apply(o, t0, t1)
	if e := m.judge(pre, o, ok, resp, err); e != nil {
		return fmt.Errorf("%v: %w", o, e)
	}
	return nil
}

// ---------------------------------------------------------------------------
// Histories
// ---------------------------------------------------------------------------

// Vocab is what the operations of a history are about
type Vocab struct {
	U    Universe
	Ids  []string
	Pols []Pol // variants of definitions, ids filled in later
	Rels []Rel
}

type histOpts struct {
	ids      int
	nasty    int  // percent of adversarial names
	restrict bool // subject restrictions
	variants int
	rels     int // size of the pool of relationships
	kinds    map[string]int
	noDiff   bool
	fresh    bool // relation names no other case has
}

func genVocab(t *rapid.T, o histOpts) Vocab {
	nasty := chance(t, o.nasty, "nasty")
	po := polOpts{nasty: nasty, restrict: o.restrict, maxRes: 3, maxRel: 3, maxIds: 4, depth: 2, noDiff: o.noDiff}
	v := Vocab{U: genUniverse(t, po)}
	if o.fresh {
		suffix := fmt.Sprintf("_%d", uni(t, 1<<20, "fresh"))
		for r, rels := range v.U.Rels {
			for i := range rels {
				rels[i] += suffix
			}
			v.U.Rels[r] = rels
		}
	}
	v.Ids = genNames(t, o.ids, nasty || chance(t, o.nasty, "nastyids"), "pid")
	for i := 0; i < o.variants; i++ {
		if i == 0 {
			v.Pols = append(v.Pols, genPol(t, "", v.U, po))
			continue
		}
		// other variants define fewer things: updating to them leaves relationships the policy no longer admits
		u2 := v.U
		if chance(t, 40, "shrunk") {
			u2.Res = v.U.Res[:rapid.IntRange(1, len(v.U.Res)).Draw(t, "nres2")]
		}
		v.Pols = append(v.Pols, genPol(t, "", u2, po))
	}
	for i := range v.Pols {
		p := &v.Pols[i]
		p.Name = pick(t, []string{"", "n", "name two", v.Ids[0], v.Ids[len(v.Ids)-1]}, "pname")
		p.Desc = pick(t, []string{"", "", "what it is for", "line\n", v.Ids[0]}, "pdesc")
		if chance(t, 40, "attrs") {
			p.Attrs = pick(t, []map[string]string{{"a": "1", "b/": ""}, {"a": "2"}, {"c": "3", "a": "1"}, {"": "x"}}, "attrset")
		}
		if chance(t, 30, "docs") {
			for j := range p.Res {
				p.Res[j].Desc = pick(t, []string{"", "doc of a resource", p.Res[j].Name}, "rdesc")
				for k := range p.Res[j].Rels {
					p.Res[j].Rels[k].Desc = pick(t, []string{"", "doc of a relation"}, "reldesc")
				}
			}
		}
		inflate(t, p, 4)
	}
	v.Rels = genRels(t, v.U, 1, o.rels, "pool")
	// relationships which differ in a single component from one of the pool
	n := rapid.IntRange(0, 4).Draw(t, "near")
	for i := 0; i < n; i++ {
		v.Rels = append(v.Rels, nearRel(t, v.U, pick(t, v.Rels, "base")))
	}
	return v
}

// nearRel changes one component of a relationship or confuses components of it
func nearRel(t *rapid.T, u Universe, r Rel) Rel {
	switch uni(t, 9, "how") {
	case 0:
		r.O.I = pick(t, u.Ids[u.Res[0]], "oi")
	case 1:
		if rs := u.Rels[r.O.R]; len(rs) > 0 {
			r.Rel = pick(t, rs, "rel")
		}
	case 2:
		r.S = entity(r.S.R, orId(r.S.I, u))
	case 3:
		if rs := u.Rels[r.S.R]; len(rs) > 0 {
			r.S = entitySet(r.S.R, orId(r.S.I, u), pick(t, rs, "srel"))
		}
	case 4:
		r.S = wildcard(r.S.R)
	case 5: // swap object and subject
		if rs := u.Rels[r.S.R]; len(rs) > 0 {
			r.O, r.Rel, r.S = Ent{r.S.R, orId(r.S.I, u)}, pick(t, rs, "rel"), entitySet(r.O.R, r.O.I, r.Rel)
		}
	case 6:
		r.S = entity(r.O.R, r.O.I)
	case 7: // self
		r.S = entitySet(r.O.R, r.O.I, r.Rel)
	case 8: // an id which looks like a userset or wildcard
		r.S = entity(r.S.R, pick(t, []string{"*", orId(r.S.I, u) + "#" + r.Rel, orId(r.S.I, u) + r.Rel, orId(r.S.I, u) + "/", r.Rel}, "odd"))
	}
	return r
}

func orId(s string, u Universe) string {
	if s == "" {
		return u.Ids[u.Res[0]][0]
	}
	return s
}

func genSel(t *rapid.T, v Vocab) Sel {
	s := Sel{O: pick(t, []string{"any", "res", "obj", "obj"}, "selo"), R: pick(t, []string{"any", "name", "name"}, "selr"), S: pick(t, []string{"any", "res", "sub", "sub"}, "sels")}
	base := pick(t, v.Rels, "selbase")
	if chance(t, 25, "mix") {
		base = genRel(t, v.U, "selrel")
	}
	s.OE, s.Rel, s.SS = base.O, base.Rel, base.S
	if chance(t, 15, "otherrel") { // perhaps a relation which only another resource defines
		s.Rel = pick(t, v.U.allRels(), "anyrel")
	}
	if chance(t, 12, "odd") {
		switch uni(t, 8, "oddk") {
		case 0:
			s.O = pick(t, []string{"none", "empty"}, "x")
		case 1:
			s.R = pick(t, []string{"none", "empty"}, "x")
		case 2:
			s.S = pick(t, []string{"none", "empty"}, "x")
		case 3:
			s.OE.R += "?"
		case 4:
			s.Rel += "?"
		case 5:
			s.SS.R += "?"
		case 6:
			s.SS = Sub{}
		case 7:
			s.OE.I = ""
		}
	}
	return s
}

func genOp(t *rapid.T, v Vocab, o histOpts) Op {
	total := 0
	keys := sortedKeys(o.kinds)
	for _, k := range keys {
		total += o.kinds[k]
	}
	x := uni(t, total, "kind")
	k := ""
	for _, c := range keys {
		if x < o.kinds[c] {
			k = c
			break
		}
		x -= o.kinds[c]
	}
	op := Op{K: k, P: pick(t, v.Ids, "pid")}
	if chance(t, 4, "cancelled") {
		op.Cx = 1 + uni(t, 6, "cx")
	}
	switch k {
	case "create", "update":
		p := pick(t, v.Pols, "variant")
		p.Id = op.P
		op.P = ""
		op.Pol = &p
		op.D = genData(t, "data")
	case "set":
		r := pick(t, v.Rels, "rel")
		op.R = &r
		op.D = genData(t, "data")
	case "del", "get":
		r := pick(t, v.Rels, "rel")
		op.R = &r
	case "find", "delsel":
		s := genSel(t, v)
		op.Sel = &s
	case "check", "explain", "expand":
		r := pick(t, v.U.withRels(), "nr")
		op.N = &Node{r, pick(t, v.U.Ids[r], "ni"), pick(t, v.U.Rels[r], "nrel")}
		if k != "expand" {
			sr := pick(t, v.U.Res, "er")
			op.E = &Ent{sr, pick(t, v.U.Ids[sr], "ei")}
		}
		if k != "check" {
			op.F = int32(uni(t, 3, "format"))
		}
	}
	return op
}

// genOps draws a history which starts by creating some of the policies
func genOps(t *rapid.T, v Vocab, o histOpts, min, max int) []Op {
	var ops []Op
	for i, id := range v.Ids {
		if i == 0 || chance(t, 70, "pre") {
			p := v.Pols[i%len(v.Pols)]
			p.Id = id
			ops = append(ops, Op{K: "create", Pol: &p, D: genData(t, "data")})
		}
	}
	min = rapid.IntRange(min, max*3/4).Draw(t, "minops")
	return append(ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op { return genOp(t, v, o) }), min, max).Draw(t, "ops")...)
}

func labelOps(st *Stats, ops []Op) {
	seen := map[string]bool{}
	for _, o := range ops {
		if !seen[o.K] {
			seen[o.K] = true
			st.label("op-%s", o.K)
		}
	}
}
