package harness

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

var ctx = context.Background()

// PanicError reports that the code under test panicked
type PanicError struct{ msg string }

func (p *PanicError) Error() string { return p.msg }

// guard runs f and turns a panic of the code under test into an error
func guard(what string, f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 2500 {
				st = st[:2500]
			}
			err = &PanicError{fmt.Sprintf("%s panicked: %v\n%s", what, r, st)}
		}
		progress()
	}()
	return f()
}

func isPanic(err error) bool {
	_, ok := err.(*PanicError)
	return ok
}

// services are the operations a user has, embedded or through a client
type services interface {
	CreatePolicy(context.Context, *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error)
	UpdatePolicy(context.Context, *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error)
	DeletePolicy(context.Context, *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error)
	GetPolicy(context.Context, *api.GetPolicyRequest) (*api.GetPolicyResponse, error)
	ListPolicyIds(context.Context, *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error)
	SetRelationship(context.Context, *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error)
	DeleteRelationship(context.Context, *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error)
	GetRelationship(context.Context, *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error)
	FindRelationshipRecords(context.Context, *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error)
	DeleteRelationships(context.Context, *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error)
	Check(context.Context, *api.CheckRequest) (*api.CheckResponse, error)
	ExplainCheck(context.Context, *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error)
	Expand(context.Context, *api.ExpandRequest) (*api.ExpandResponse, error)
	DumpRelationships(context.Context, *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error)
}

// embedded calls an instance of the library, in turn by services which it gave before and by ones asked for anew
type embedded struct {
	z     *zanzi.Zanzi
	pol   api.PolicyServiceServer
	graph api.RelationGraphServer
	n     *atomic.Int64
}

func newEmbedded(z *zanzi.Zanzi) embedded {
	return embedded{z, z.GetPolicyService(), z.GetRelationGraphService(), &atomic.Int64{}}
}

func (e embedded) p() api.PolicyServiceServer {
	if e.n.Add(1)%2 == 0 {
		return e.z.GetPolicyService()
	}
	return e.pol
}

func (e embedded) g() api.RelationGraphServer {
	if e.n.Add(1)%2 == 0 {
		return e.z.GetRelationGraphService()
	}
	return e.graph
}

func (e embedded) CreatePolicy(c context.Context, r *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
	return e.p().CreatePolicy(c, r)
}
func (e embedded) UpdatePolicy(c context.Context, r *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
	return e.p().UpdatePolicy(c, r)
}
func (e embedded) DeletePolicy(c context.Context, r *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
	return e.p().DeletePolicy(c, r)
}
func (e embedded) GetPolicy(c context.Context, r *api.GetPolicyRequest) (*api.GetPolicyResponse, error) {
	return e.p().GetPolicy(c, r)
}
func (e embedded) ListPolicyIds(c context.Context, r *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {
	return e.p().ListPolicyIds(c, r)
}
func (e embedded) SetRelationship(c context.Context, r *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
	return e.p().SetRelationship(c, r)
}
func (e embedded) DeleteRelationship(c context.Context, r *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
	return e.p().DeleteRelationship(c, r)
}
func (e embedded) GetRelationship(c context.Context, r *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
	return e.p().GetRelationship(c, r)
}
func (e embedded) FindRelationshipRecords(c context.Context, r *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error) {
	return e.p().FindRelationshipRecords(c, r)
}
func (e embedded) DeleteRelationships(c context.Context, r *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
	return e.p().DeleteRelationships(c, r)
}
func (e embedded) Check(c context.Context, r *api.CheckRequest) (*api.CheckResponse, error) {
	return e.g().Check(c, r)
}
func (e embedded) ExplainCheck(c context.Context, r *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error) {
	return e.g().ExplainCheck(c, r)
}
func (e embedded) Expand(c context.Context, r *api.ExpandRequest) (*api.ExpandResponse, error) {
	return e.g().Expand(c, r)
}
func (e embedded) DumpRelationships(c context.Context, r *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error) {
	return e.g().DumpRelationships(c, r)
}

// Z wraps the services with plain data arguments
type Z struct {
	S services
	// Wire sends every request through its wire encoding first
	Wire bool
	// Ctx is the context of the calls, if it is not the background
	Ctx context.Context
	// Cx: the context of reading calls is found cancelled from the Cx-th time on that it is asked; 0 is never
	Cx int
}

// reading makes a call which changes nothing. Where its context is cancelled, the answer is the same or an error;
// after an error the call is made once more.
func (z *Z) reading(what string, f func(z *Z) error) error {
	if z.Cx > 0 {
		c := newCountdown(z.Cx - 1)
		defer c.cancel()
		err := guard(what, func() error { return f(z.under(c)) })
		if err == nil || isPanic(err) || !c.over() {
			return err
		}
	}
	return guard(what, func() error { return f(z) })
}

func (z *Z) ctx() context.Context {
	if z.Ctx != nil {
		return z.Ctx
	}
	return ctx
}

// under is the same instance, called with another context
func (z *Z) under(c context.Context) *Z {
	out := *z
	out.Ctx = c
	return &out
}

// countdown is a context which is found cancelled from the n-th time on that it is asked
type countdown struct {
	context.Context
	cancel  context.CancelFunc
	n       int64
	expired int32
}

func newCountdown(n int) *countdown {
	c, cancel := context.WithCancel(context.Background())
	return &countdown{Context: c, cancel: cancel, n: int64(n)}
}

func (c *countdown) tick() {
	if atomic.AddInt64(&c.n, -1) < 0 {
		atomic.StoreInt32(&c.expired, 1)
		c.cancel()
	}
}

func (c *countdown) over() bool { return atomic.LoadInt32(&c.expired) == 1 }

func (c *countdown) Err() error {
	c.tick()
	return c.Context.Err()
}

func (c *countdown) Done() <-chan struct{} {
	c.tick()
	return c.Context.Done()
}

func newZ() *Z { return newZOn(rcdb.NewMemKV()) }

// formatting writes every message out, as the loggers of users do, and keeps nothing
type formatting struct{}

func (formatting) Errorf(msg string, args ...any) { fmt.Fprintf(io.Discard, msg, args...) }
func (formatting) Warnf(msg string, args ...any)  { fmt.Fprintf(io.Discard, msg, args...) }
func (formatting) Infof(msg string, args ...any)  { fmt.Fprintf(io.Discard, msg, args...) }
func (formatting) Debugf(msg string, args ...any) { fmt.Fprintf(io.Discard, msg, args...) }

func newZOn(kv rcdb.KVStore) *Z { return newZLog(kv, &types.NoopLogger{}) }

// newLoggingZ is an instance with a logger which writes its messages
func newLoggingZ() *Z { return newZLog(rcdb.NewMemKV(), formatting{}) }

func newZLog(kv rcdb.KVStore, l types.Logger) *Z {
	z, err := zanzi.New(zanzi.WithKVStore(kv), zanzi.WithLogger(l))
	if err != nil {
		panic(fmt.Sprintf("zanzi.New: %v", err))
	}
	return wrapZanzi(&z)
}

// newOwnZ is an instance which was not given a store
func newOwnZ(kind string) *Z {
	var z zanzi.Zanzi
	var err error
	switch kind {
	case "default":
		z, err = zanzi.New()
	case "memory":
		z, err = zanzi.New(zanzi.WithMemKVStore())
	default:
		z, err = zanzi.New(zanzi.WithDevelopmentConfig(), zanzi.WithLogger(&types.NoopLogger{}))
	}
	if err != nil {
		panic(fmt.Sprintf("zanzi.New: %v", err))
	}
	return wrapZanzi(&z)
}

func wrapZanzi(z *zanzi.Zanzi) *Z {
	return &Z{S: newEmbedded(z)}
}

func w1[M proto.Message](z *Z, m M) M {
	if z.Wire {
		return wire(m)
	}
	return m
}

func polDef(p *domain.Policy) *api.PolicyDefinition {
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p}}
}

func yamlDef(y string) *api.PolicyDefinition {
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: y}}
}

func (z *Z) CreateDef(d *api.PolicyDefinition, data []byte) (rec *domain.PolicyRecord, err error) {
	err = guard("CreatePolicy", func() error {
		resp, err := z.S.CreatePolicy(z.ctx(), w1(z, &api.CreatePolicyRequest{PolicyDefinition: d, AppData: data}))
		if err == nil {
			rec = resp.GetRecord()
		}
		return err
	})
	return
}

func (z *Z) Create(p Pol, data []byte) (*domain.PolicyRecord, error) {
	return z.CreateDef(polDef(p.Proto()), data)
}

func (z *Z) UpdateDef(d *api.PolicyDefinition, data []byte) error {
	return guard("UpdatePolicy", func() error {
		_, err := z.S.UpdatePolicy(z.ctx(), w1(z, &api.UpdatePolicyRequest{PolicyDefinition: d, AppData: data}))
		return err
	})
}

func (z *Z) Update(p Pol, data []byte) error { return z.UpdateDef(polDef(p.Proto()), data) }

func (z *Z) DeletePol(id string) (found bool, n uint64, err error) {
	err = guard("DeletePolicy", func() error {
		resp, err := z.S.DeletePolicy(z.ctx(), w1(z, &api.DeletePolicyRequest{Id: id}))
		if err == nil {
			found, n = resp.GetFound(), resp.GetRelationshipsRemoved()
		}
		return err
	})
	return
}

func (z *Z) GetPol(id string) (rec *domain.PolicyRecord, err error) {
	err = z.reading("GetPolicy", func(z *Z) error {
		resp, err := z.S.GetPolicy(z.ctx(), w1(z, &api.GetPolicyRequest{Id: id}))
		if err == nil {
			rec = resp.GetRecord()
		}
		return err
	})
	return
}

func (z *Z) List() (ids []string, err error) {
	err = z.reading("ListPolicyIds", func(z *Z) error {
		resp, err := z.S.ListPolicyIds(z.ctx(), w1(z, &api.ListPolicyIdsRequest{}))
		if err == nil {
			for _, r := range resp.GetRecords() {
				ids = append(ids, r.GetId())
			}
		}
		return err
	})
	sort.Strings(ids)
	return
}

func (z *Z) Set(pol string, r Rel, data []byte) (overwritten bool, err error) {
	return z.SetP(pol, r.Proto(), data)
}

func (z *Z) SetP(pol string, r *domain.Relationship, data []byte) (overwritten bool, err error) {
	err = guard("SetRelationship", func() error {
		resp, err := z.S.SetRelationship(z.ctx(), w1(z, &api.SetRelationshipRequest{PolicyId: pol, Relationship: r, AppData: data}))
		if err == nil {
			overwritten = resp.GetRecordOverwritten()
		}
		return err
	})
	return
}

func (z *Z) Del(pol string, r Rel) (found bool, err error) {
	err = guard("DeleteRelationship", func() error {
		resp, err := z.S.DeleteRelationship(z.ctx(), w1(z, &api.DeleteRelationshipRequest{PolicyId: pol, Relationship: r.Proto()}))
		if err == nil {
			found = resp.GetFound()
		}
		return err
	})
	return
}

func (z *Z) Get(pol string, r Rel) (rec *domain.RelationshipRecord, err error) {
	err = z.reading("GetRelationship", func(z *Z) error {
		resp, err := z.S.GetRelationship(z.ctx(), w1(z, &api.GetRelationshipRequest{PolicyId: pol, Relationship: r.Proto()}))
		if err == nil {
			rec = resp.GetRecord()
		}
		return err
	})
	return
}

func (z *Z) Find(pol string, sel *domain.RelationshipSelector) (recs []*domain.RelationshipRecord, err error) {
	err = z.reading("FindRelationshipRecords", func(z *Z) error {
		resp, err := z.S.FindRelationshipRecords(z.ctx(), w1(z, &api.FindRelationshipRecordsRequest{PolicyId: pol, Selector: sel}))
		if err == nil {
			recs = resp.GetResult().GetRecords()
		}
		return err
	})
	return
}

func (z *Z) DelSel(pol string, sel *domain.RelationshipSelector) (n uint64, err error) {
	err = guard("DeleteRelationships", func() error {
		resp, err := z.S.DeleteRelationships(z.ctx(), w1(z, &api.DeleteRelationshipsRequest{PolicyId: pol, Selector: sel}))
		if err == nil {
			n = resp.GetRecordsAffected()
		}
		return err
	})
	return
}

func (z *Z) Check(pol string, n Node, subj Ent) (ok bool, err error) {
	err = z.reading("Check", func(z *Z) error {
		resp, err := z.S.Check(z.ctx(), w1(z, &api.CheckRequest{PolicyId: pol, AccessRequest: accessRequest(n, subj)}))
		if err == nil {
			if resp.GetResult() == nil {
				return fmt.Errorf("check response without result")
			}
			ok = resp.GetResult().GetAuthorized()
		}
		return err
	})
	return
}

func accessRequest(n Node, subj Ent) *domain.AccessRequest {
	return &domain.AccessRequest{Object: &domain.Entity{Resource: n.R, Id: n.I}, Relation: n.Rel, Subject: subj.Proto()}
}

func (z *Z) Explain(pol string, n Node, subj Ent, f api.ExplainFormat) (resp *api.ExplainCheckResponse, err error) {
	err = z.reading("ExplainCheck", func(z *Z) (err error) {
		resp, err = z.S.ExplainCheck(z.ctx(), w1(z, &api.ExplainCheckRequest{PolicyId: pol, AccessRequest: accessRequest(n, subj), Format: f}))
		return err
	})
	return
}

func nodeProto(n Node) *domain.RelationNode {
	return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{
		Object: &domain.Entity{Resource: n.R, Id: n.I}, Relation: n.Rel}}}
}

func (z *Z) Expand(pol string, n *domain.RelationNode, f api.ExplainFormat) (resp *api.ExpandResponse, err error) {
	err = z.reading("Expand", func(z *Z) (err error) {
		resp, err = z.S.Expand(z.ctx(), w1(z, &api.ExpandRequest{PolicyId: pol, Root: n, Format: f}))
		return err
	})
	return
}

func (z *Z) Dump(pol string) (dot string, err error) {
	err = z.reading("DumpRelationships", func(z *Z) error {
		resp, err := z.S.DumpRelationships(z.ctx(), w1(z, &api.DumpRelationshipsRequest{PolicyId: pol, Format: api.DumpRelationshipsRequest_DOT}))
		if err == nil {
			dot = resp.GetDot()
		}
		return err
	})
	return
}

func anySelector() *domain.RelationshipSelector {
	b := domain.SelectorBuilder{}
	s := b.AnyObject().AnyRelation().AnySubject().Build()
	return &domain.RelationshipSelector{ObjectSelector: s.ObjectSelector, RelationSelector: s.RelationSelector, SubjectSelector: s.SubjectSelector}
}

// ---------------------------------------------------------------------------
// Model of the whole system and comparison of all that can be observed
// ---------------------------------------------------------------------------

type mRel struct {
	data          []byte
	after, before time.Time // created_at lies between
	seen          time.Time // created_at as first seen; it must not change until the next set
}

type mPol struct {
	pol           Pol
	data          []byte
	rels          map[Rel]*mRel
	created       time.Time
	after, before time.Time
}

type Model struct{ pols map[string]*mPol }

func newModel() *Model { return &Model{pols: map[string]*mPol{}} }

func (m *Model) ids() []string {
	var out []string
	for id := range m.pols {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

func (p *mPol) list() []Rel {
	var out []Rel
	for r := range p.rels {
		out = append(out, r)
	}
	return sortedRels(out)
}

func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// recordsMatch compares found records with the relationships they must be, including their data
func recordsMatch(pol string, recs []*domain.RelationshipRecord, want map[Rel]*mRel) error {
	got := map[Rel]bool{}
	for i, rec := range recs {
		if rec == nil {
			return fmt.Errorf("record %d of the result is nil", i)
		}
		r, err := relFromProto(rec.GetRelationship())
		if err != nil {
			return fmt.Errorf("record %d: %w", i, err)
		}
		if got[r] {
			return fmt.Errorf("relationship returned twice: %+v", r)
		}
		got[r] = true
		m, ok := want[r]
		if !ok {
			return fmt.Errorf("unexpected relationship returned: %+v", r)
		}
		if err := recordMatch(pol, rec, r, m); err != nil {
			return err
		}
	}
	for r := range want {
		if !got[r] {
			return fmt.Errorf("missing relationship: %+v (%d returned, %d expected)", r, len(got), len(want))
		}
	}
	return nil
}

func recordMatch(pol string, rec *domain.RelationshipRecord, r Rel, m *mRel) error {
	if rec.GetPolicyId() != pol {
		return fmt.Errorf("record of %+v has policy id %q, want %q", r, rec.GetPolicyId(), pol)
	}
	g, err := relFromProto(rec.GetRelationship())
	if err != nil || g != r {
		return fmt.Errorf("record holds relationship %+v, want %+v (%v)", g, r, err)
	}
	if m == nil {
		return nil
	}
	if !eqBytes(rec.GetAppData(), m.data) {
		return fmt.Errorf("record of %+v has app data %q, want %q", r, rec.GetAppData(), m.data)
	}
	if rec.GetCreatedAt() == nil {
		return fmt.Errorf("record of %+v has no creation time", r)
	}
	if !m.after.IsZero() {
		t := rec.GetCreatedAt().AsTime()
		if !between(t, m.after, m.before) {
			return fmt.Errorf("record of %+v created at %v, set between %v and %v", r, t, m.after, m.before)
		}
		if !m.seen.IsZero() && !t.Equal(m.seen) {
			return fmt.Errorf("record of %+v created at %v, which was %v before", r, t, m.seen)
		}
	}
	return nil
}

// between tells whether a reported time lies between two readings of the clock, as far as the clock was steady
func between(t, after, before time.Time) bool {
	slack := 50 * time.Millisecond
	mono, wall := before.Sub(after), before.Round(0).Sub(after.Round(0))
	if d := mono - wall; d > 10*time.Millisecond || d < -10*time.Millisecond {
		slack = 24 * time.Hour
	}
	return !t.Before(after.Add(-slack)) && !t.After(before.Add(slack))
}

// compareAll compares everything observable about policies and relationships with the model.
// universe lists further relationships and policy ids which must be absent unless the model has them.
func (m *Model) compareAll(z *Z, ids []string, universe []Rel) error {
	got, err := z.List()
	if err != nil {
		return fmt.Errorf("ListPolicyIds: %w", err)
	}
	if strings.Join(quoteAll(got), ",") != strings.Join(quoteAll(m.ids()), ",") {
		return fmt.Errorf("ListPolicyIds returned %q, want %q", got, m.ids())
	}
	all := map[string]bool{}
	for _, id := range ids {
		all[id] = true
	}
	for id := range m.pols {
		all[id] = true
	}
	for _, id := range sortedKeys(all) {
		if err := m.comparePol(z, id, universe); err != nil {
			return fmt.Errorf("policy %q: %w", id, err)
		}
	}
	return nil
}

func (m *Model) comparePol(z *Z, id string, universe []Rel) error {
	p := m.pols[id]
	rec, err := z.GetPol(id)
	if err != nil {
		return fmt.Errorf("GetPolicy: %w", err)
	}
	if p == nil {
		if rec != nil {
			return fmt.Errorf("GetPolicy returned a policy which does not exist: %v", rec)
		}
		if recs, err := z.Find(id, anySelector()); err == nil && len(recs) > 0 {
			return fmt.Errorf("FindRelationshipRecords of a policy which does not exist returned %v", recs)
		} else if isPanic(err) {
			return err
		}
		for _, r := range universe {
			if !r.complete() {
				continue
			}
			got, err := z.Get(id, r)
			if isPanic(err) || err == nil && got != nil {
				return fmt.Errorf("GetRelationship of a policy which does not exist: %v %v", got, err)
			}
		}
		return nil
	}
	if rec == nil {
		return fmt.Errorf("GetPolicy found nothing")
	}
	if err := p.matches(rec); err != nil {
		return fmt.Errorf("GetPolicy: %w", err)
	}
	recs, err := z.Find(id, anySelector())
	if err != nil {
		return fmt.Errorf("FindRelationshipRecords: %w", err)
	}
	if err := recordsMatch(id, recs, p.rels); err != nil {
		return fmt.Errorf("FindRelationshipRecords: %w", err)
	}
	for _, rec := range recs {
		r, _ := relFromProto(rec.GetRelationship())
		if m := p.rels[r]; !m.after.IsZero() {
			m.seen = rec.GetCreatedAt().AsTime()
		}
	}
	seen := map[Rel]bool{}
	check := func(r Rel) error {
		if seen[r] || !r.complete() {
			return nil
		}
		seen[r] = true
		got, err := z.Get(id, r)
		if err != nil {
			return fmt.Errorf("GetRelationship %+v: %w", r, err)
		}
		mr := p.rels[r]
		if (mr != nil) != (got != nil) {
			return fmt.Errorf("GetRelationship %+v: found %v, want %v", r, got != nil, mr != nil)
		}
		if got != nil {
			if err := recordMatch(id, got, r, mr); err != nil {
				return fmt.Errorf("GetRelationship: %w", err)
			}
		}
		return nil
	}
	for r := range p.rels {
		if err := check(r); err != nil {
			return err
		}
	}
	for _, r := range universe {
		if err := check(r); err != nil {
			return err
		}
	}
	return nil
}

func (p *mPol) matches(rec *domain.PolicyRecord) error {
	if !proto.Equal(normPolicy(rec.GetPolicy()), normPolicy(p.pol.Proto())) {
		return fmt.Errorf("policy is %v, want %v", rec.GetPolicy(), p.pol.Proto())
	}
	if !eqBytes(rec.GetAppData(), p.data) {
		return fmt.Errorf("app data is %q, want %q", rec.GetAppData(), p.data)
	}
	if rec.GetCreatedAt() == nil {
		return fmt.Errorf("no creation time")
	}
	if !p.created.IsZero() && !rec.GetCreatedAt().AsTime().Equal(p.created) {
		return fmt.Errorf("creation time is %v, want %v", rec.GetCreatedAt().AsTime(), p.created)
	}
	return nil
}

func normPolicy(p *domain.Policy) *domain.Policy { return p }

func quoteAll(ss []string) []string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = fmt.Sprintf("%q", s)
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
