package harness

import (
	"context"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	rcdb "github.com/sourcenetwork/raccoondb"
	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/server"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

// remote calls the services through a connection
type remote struct {
	p api.PolicyServiceClient
	g api.RelationGraphClient

	conn *grpc.ClientConn
}

const callLimit = 40 * time.Second

func (c remote) CreatePolicy(x context.Context, r *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.p.CreatePolicy(x, r)
}
func (c remote) UpdatePolicy(x context.Context, r *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.p.UpdatePolicy(x, r)
}
func (c remote) DeletePolicy(x context.Context, r *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.p.DeletePolicy(x, r)
}
func (c remote) GetPolicy(x context.Context, r *api.GetPolicyRequest) (*api.GetPolicyResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.p.GetPolicy(x, r)
}
func (c remote) ListPolicyIds(x context.Context, r *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.p.ListPolicyIds(x, r)
}
func (c remote) SetRelationship(x context.Context, r *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.p.SetRelationship(x, r)
}
func (c remote) DeleteRelationship(x context.Context, r *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.p.DeleteRelationship(x, r)
}
func (c remote) GetRelationship(x context.Context, r *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.p.GetRelationship(x, r)
}
func (c remote) FindRelationshipRecords(x context.Context, r *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.p.FindRelationshipRecords(x, r)
}
func (c remote) DeleteRelationships(x context.Context, r *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.p.DeleteRelationships(x, r)
}
func (c remote) Check(x context.Context, r *api.CheckRequest) (*api.CheckResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.g.Check(x, r)
}
func (c remote) ExplainCheck(x context.Context, r *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.g.ExplainCheck(x, r)
}
func (c remote) Expand(x context.Context, r *api.ExpandRequest) (*api.ExpandResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.g.Expand(x, r)
}
func (c remote) DumpRelationships(x context.Context, r *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error) {
	x, cancel := context.WithTimeout(x, callLimit)
	defer cancel()
	return c.g.DumpRelationships(x, r)
}

var _ services = remote{}

// raw sends bytes as the request they claim to be
func (c remote) raw(r RawReq) error {
	x, cancel := context.WithTimeout(ctx, callLimit)
	defer cancel()
	method := strings.TrimSuffix(r.M, "Request")
	svc := api.PolicyService_ServiceDesc.ServiceName
	for _, m := range api.RelationGraph_ServiceDesc.Methods {
		if m.MethodName == method {
			svc = api.RelationGraph_ServiceDesc.ServiceName
		}
	}
	var reply []byte
	return c.conn.Invoke(x, "/"+svc+"/"+method, &r.B, &reply, grpc.ForceCodec(bytesCodec{}))
}

type bytesCodec struct{}

func (bytesCodec) Marshal(v any) ([]byte, error) { return *v.(*[]byte), nil }
func (bytesCodec) Unmarshal(b []byte, v any) error {
	*v.(*[]byte) = append([]byte{}, b...)
	return nil
}
func (bytesCodec) Name() string { return "proto" }

// startServer serves an instance of its own on a free port. There is no way to stop a server.
func startServer() (string, *zanzi.Zanzi, error) {
	z, err := zanzi.New(zanzi.WithKVStore(rcdb.NewMemKV()), zanzi.WithLogger(&types.NoopLogger{}))
	if err != nil {
		return "", nil, err
	}
	for i := 0; ; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		addr := l.Addr().String()
		l.Close()
		s := server.NewServer(addr)
		if err := s.Init(&z); err != nil {
			if i > 100 {
				return "", nil, fmt.Errorf("the server cannot be initialized: %w", err)
			}
			time.Sleep(time.Duration(i) * time.Millisecond) // the port was taken
			continue
		}
		go s.Run()
		return addr, &z, nil
	}
}

func dial(addr string) (*Z, func(), error) { return dialFor(addr, callLimit) }

func dialFor(addr string, limit time.Duration) (*Z, func(), error) {
	c, cancel := context.WithTimeout(ctx, limit)
	defer cancel()
	conn, err := grpc.DialContext(c, addr, grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithBlock(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(64<<20)))
	if err != nil {
		return nil, nil, fmt.Errorf("connecting: %w", err)
	}
	return &Z{S: remote{api.NewPolicyServiceClient(conn), api.NewRelationGraphClient(conn), conn}}, func() { conn.Close() }, nil
}

// RemoteCase: requests sent to a server by several clients, and to an embedded instance
type RemoteCase struct {
	Ids  []string `json:"ids"`
	Reqs []RawReq `json:"reqs"`
	Via  []int    `json:"via"` // which client sends a request
	// Gate: it is sent through the HTTP gateway, to the server (1) or to the services (2)
	Gate []int `json:"gate,omitempty"`
	Big  int   `json:"big,omitempty"`
	// Garbage is written to a connection of its own at the beginning
	Garbage []byte `json:"garbage,omitempty"`
}

func init() {
	register("C18", 4000, 24000,
		"Case: up to 36 requests of every operation, valid ones, mutated ones, messages filled at random and raw bytes as in C13, and now and then one with megabytes of app data, sent in the same order by up to 3 clients to a fresh gRPC server and to an embedded instance; in 1 of 3 cases part of the requests go as JSON through the HTTP gateway, to the server or to the services. Responses must be equal (creation times apart, lists as sets, documents as the trees they hold) and errors must come exactly where the embedded instance gives them; at the end everything stored is equal, and the read requests sent by all clients at the same time get the answers of the embedded instance. Non-trivial: at least 8 requests answered with success and one with an error.",
		genC18, runC18)
}

func genC18(t *rapid.T) RemoteCase {
	o := histOpts{ids: rapid.IntRange(1, 3).Draw(t, "nids"), nasty: 30, restrict: chance(t, 40, "restrict"), variants: 2, rels: 8,
		kinds: map[string]int{"set": 12, "update": 1, "del": 1}}
	v := genVocab(t, o)
	c := RemoteCase{Ids: v.Ids}
	for _, op := range genOps(t, v, o, 4, 14) {
		c.Reqs = append(c.Reqs, rawReq(op.request()))
	}
	p := poolsOf(v)
	o.kinds = map[string]int{"create": 3, "update": 3, "delpol": 1, "getpol": 3, "list": 2, "set": 5, "del": 3, "get": 4, "find": 4, "delsel": 2, "check": 6, "explain": 4, "expand": 4, "dump": 2}
	n := rapid.IntRange(4, 22).Draw(t, "nreqs")
	for i := 0; i < n; i++ {
		c.Reqs = append(c.Reqs, rapid.Custom(func(t *rapid.T) RawReq {
			if chance(t, 55, "plain") {
				return rawReq(genOp(t, v, o).request())
			}
			return genRawReq(t, v, o, p)
		}).Draw(t, "req"))
	}
	k := rapid.IntRange(1, 3).Draw(t, "clients")
	for range c.Reqs {
		c.Via = append(c.Via, uni(t, k, "via"))
	}
	if chance(t, 35, "gate") {
		for range c.Reqs {
			c.Gate = append(c.Gate, pick(t, []int{0, 1, 2}, "gates"))
		}
	}
	if chance(t, 5, "big") {
		c.Big = pick(t, []int{70000, 1000000, 3000000}, "bigsize")
	}
	if chance(t, 10, "garbage") {
		c.Garbage = rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "garbage")
		if chance(t, 50, "preface") {
			c.Garbage = append([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00"), c.Garbage...)
		}
	}
	return c
}

func runC18(c RemoteCase, st *Stats) error {
	addr, inst, err := startServer()
	if err != nil {
		return err
	}
	local := newZ()
	var clients []*Z
	for _, v := range c.Via {
		for v >= len(clients) {
			z, done, err := dial(addr)
			if err != nil {
				return err
			}
			defer done()
			clients = append(clients, z)
		}
	}
	if len(clients) == 0 {
		return nil
	}
	gates := []*Z{nil, gatewayTo(clients[0].S.(remote).conn), gatewayOf(inst)}
	send := func(z *Z, m proto.Message) (string, error) {
		resp, err := z.send(m)
		if isPanic(err) {
			return "", err
		}
		if err != nil {
			return "error", nil
		}
		return canonResp(resp, false), nil
	}
	if len(c.Garbage) > 0 {
		st.label("garbage")
		if conn, err := net.Dial("tcp", addr); err == nil {
			conn.SetDeadline(time.Now().Add(callLimit))
			conn.Write(c.Garbage)
			conn.Close()
		}
	}
	oks, errs := 0, 0
	type read struct {
		m    proto.Message
		want string
	}
	var reads []read
	for i, r := range c.Reqs {
		m := r.message()
		if m == nil {
			// bytes which are no message of the operation: an error, and the server goes on
			if err := clients[0].S.(remote).raw(r); err == nil {
				return fmt.Errorf("request %d: bytes %q, which are no %s, were accepted", i, r.B, r.M)
			}
			st.label("undecodable")
			continue
		}
		if sr, ok := m.(*api.SetRelationshipRequest); ok && c.Big > 0 && i%5 == 0 {
			sr.AppData = []byte(strings.Repeat("0123456789", c.Big/10))
		}
		what := fmt.Sprintf("request %d, %s %.700v", i, m.ProtoReflect().Descriptor().Name(), m)
		want, err := send(local, proto.Clone(m))
		if err != nil {
			return fmt.Errorf("embedded: %s: %w", what, err)
		}
		z := clients[c.Via[i%len(c.Via)]%len(clients)]
		if i < len(c.Gate) && c.Gate[i] > 0 && c.Gate[i] < len(gates) && overJSON(m) {
			z = gates[c.Gate[i]]
			what += []string{"", " (through the gateway to the server)", " (through the gateway to the services)"}[c.Gate[i]]
			st.label("gateway-%d", c.Gate[i])
		}
		got, err := send(z, proto.Clone(m))
		if err != nil {
			return fmt.Errorf("remote: %s: %w", what, err)
		}
		if got != want {
			return fmt.Errorf("%s: the server answered %.600q, the embedded instance %.600q", what, got, want)
		}
		if want == "error" {
			errs++
		} else {
			oks++
		}
		if isRead(m) {
			reads = append(reads, read{m: m})
		}
	}
	ids := append(append([]string{}, c.Ids...), "giant", "missing")
	if e := sameStored(local, clients[0], ids); e != nil {
		return fmt.Errorf("stored data of the embedded instance and the server differ: %w", e)
	}
	// all clients read at the same time
	for i := range reads {
		if reads[i].want, err = send(local, proto.Clone(reads[i].m)); err != nil {
			return err
		}
	}
	var wg sync.WaitGroup
	res := make([]error, len(clients)*2)
	for k := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range reads {
				r := reads[(i+k*3)%len(reads)]
				got, err := send(clients[k%len(clients)], proto.Clone(r.m))
				if err == nil && got != r.want {
					err = fmt.Errorf("%.700v read by several clients: the server answered %.600q, the embedded instance %.600q", r.m, got, r.want)
				}
				if err != nil {
					res[k] = err
					return
				}
			}
		}()
	}
	wg.Wait()
	for _, err := range res {
		if err != nil {
			return err
		}
	}
	st.NonTrivial = oks >= 8 && errs >= 1
	st.label("clients-%d", len(clients))
	st.labelIf(c.Big > 0, "big")
	st.labelIf(len(reads) > 0, "concurrent-reads")
	return nil
}

// sameStored compares what two instances hold, creation times apart
func sameStored(a, b *Z, ids []string) error {
	seen := map[string]bool{}
	la, err := a.List()
	if err != nil {
		return err
	}
	lb, err := b.List()
	if err != nil {
		return err
	}
	if fmt.Sprintf("%q", la) != fmt.Sprintf("%q", lb) {
		return fmt.Errorf("policies %q and %q", la, lb)
	}
	for _, id := range append(la, ids...) {
		if seen[id] {
			continue
		}
		seen[id] = true
		for _, m := range []proto.Message{&api.GetPolicyRequest{Id: id}, &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySelector()}} {
			ra, ea := a.send(m)
			rb, eb := b.send(m)
			if isPanic(ea) || isPanic(eb) || (ea == nil) != (eb == nil) {
				return fmt.Errorf("policy %q: errors %v and %v", id, ea, eb)
			}
			if x, y := canonResp(ra, false), canonResp(rb, false); x != y {
				return fmt.Errorf("policy %q: %.500q and %.500q", id, x, y)
			}
		}
	}
	return nil
}
