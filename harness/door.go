package harness

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/grpc-ecosystem/grpc-gateway/v2/runtime"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
)

// door is a way to send requests: it fills in the response or returns an error
type door func(req, resp proto.Message) error

func through[R proto.Message](d door, req proto.Message, resp R) (R, error) {
	if err := d(req, resp); err != nil {
		var none R
		return none, err
	}
	return resp, nil
}

func (d door) CreatePolicy(_ context.Context, r *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
	return through(d, r, &api.CreatePolicyResponse{})
}
func (d door) UpdatePolicy(_ context.Context, r *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
	return through(d, r, &api.UpdatePolicyResponse{})
}
func (d door) DeletePolicy(_ context.Context, r *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
	return through(d, r, &api.DeletePolicyResponse{})
}
func (d door) GetPolicy(_ context.Context, r *api.GetPolicyRequest) (*api.GetPolicyResponse, error) {
	return through(d, r, &api.GetPolicyResponse{})
}
func (d door) ListPolicyIds(_ context.Context, r *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {
	return through(d, r, &api.ListPolicyIdsResponse{})
}
func (d door) SetRelationship(_ context.Context, r *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
	return through(d, r, &api.SetRelationshipResponse{})
}
func (d door) DeleteRelationship(_ context.Context, r *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
	return through(d, r, &api.DeleteRelationshipResponse{})
}
func (d door) GetRelationship(_ context.Context, r *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
	return through(d, r, &api.GetRelationshipResponse{})
}
func (d door) FindRelationshipRecords(_ context.Context, r *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error) {
	return through(d, r, &api.FindRelationshipRecordsResponse{})
}
func (d door) DeleteRelationships(_ context.Context, r *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
	return through(d, r, &api.DeleteRelationshipsResponse{})
}
func (d door) Check(_ context.Context, r *api.CheckRequest) (*api.CheckResponse, error) {
	return through(d, r, &api.CheckResponse{})
}
func (d door) ExplainCheck(_ context.Context, r *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error) {
	return through(d, r, &api.ExplainCheckResponse{})
}
func (d door) Expand(_ context.Context, r *api.ExpandRequest) (*api.ExpandResponse, error) {
	return through(d, r, &api.ExpandResponse{})
}
func (d door) DumpRelationships(_ context.Context, r *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error) {
	return through(d, r, &api.DumpRelationshipResponse{})
}

var _ services = door(nil)

// methodOf names the service and the method a request belongs to
func methodOf(req proto.Message) (service, method string) {
	method = string(req.ProtoReflect().Descriptor().Name())
	method = method[:len(method)-len("Request")]
	for _, m := range api.RelationGraph_ServiceDesc.Methods {
		if m.MethodName == method {
			return api.RelationGraph_ServiceDesc.ServiceName, method
		}
	}
	return api.PolicyService_ServiceDesc.ServiceName, method
}

// gateway sends requests as JSON over HTTP to the generated handlers
func gateway(mux http.Handler) door {
	return func(req, resp proto.Message) error {
		service, method := methodOf(req)
		body, err := protojson.Marshal(req)
		if err != nil {
			panic(fmt.Sprintf("request %v: %v", req, err))
		}
		r := httptest.NewRequest(http.MethodPost, "/"+service+"/"+method, bytes.NewReader(body))
		r.Header.Set("Content-Type", "application/json")
		w := httptest.NewRecorder()
		mux.ServeHTTP(w, r)
		if w.Code == http.StatusNotFound && strings.Contains(w.Body.String(), `"message":"Not Found"`) {
			return &PanicError{fmt.Sprintf("the gateway does not know %s: %.300s", r.URL.Path, w.Body.String())}
		}
		if w.Code < 200 || w.Code > 299 {
			return fmt.Errorf("status %d: %.300s", w.Code, w.Body.String())
		}
		if err := protojson.Unmarshal(w.Body.Bytes(), resp); err != nil {
			return &PanicError{fmt.Sprintf("the gateway answered %.500q, which is no %s: %v", w.Body.String(), resp.ProtoReflect().Descriptor().Name(), err)}
		}
		return nil
	}
}

// overJSON: the message is the same after its encoding as JSON
func overJSON(m proto.Message) bool {
	b, err := protojson.Marshal(m)
	if err != nil {
		return false
	}
	back := m.ProtoReflect().New().Interface()
	return protojson.Unmarshal(b, back) == nil && proto.Equal(m, back)
}

// gatewayTo forwards to a server, gatewayOf calls the services of an instance
func gatewayTo(conn *grpc.ClientConn) *Z {
	mux := runtime.NewServeMux()
	if err := api.RegisterPolicyServiceHandler(ctx, mux, conn); err != nil {
		panic(err)
	}
	if err := api.RegisterRelationGraphHandler(ctx, mux, conn); err != nil {
		panic(err)
	}
	return &Z{S: gateway(mux)}
}

func gatewayOf(z *zanzi.Zanzi) *Z {
	mux := runtime.NewServeMux()
	if err := api.RegisterPolicyServiceHandlerServer(ctx, mux, z.GetPolicyService()); err != nil {
		panic(err)
	}
	if err := api.RegisterRelationGraphHandlerServer(ctx, mux, z.GetRelationGraphService()); err != nil {
		panic(err)
	}
	return &Z{S: gateway(mux)}
}
