package harness

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"

	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

// An instance on disk lives in a process of its own: it cannot be closed in any other way than by ending the process.
// The child reads requests from its standard input and answers on descriptor 3, a line each.

type childMsg struct {
	M   string `json:"m,omitempty"` // name of the request
	B   []byte `json:"b"`
	Err string `json:"err,omitempty"`
	Bad bool   `json:"bad,omitempty"` // the operation panicked
}

// openZanzi opens a data directory: the store is the same whatever else an instance is given, and in whatever order
func openZanzi(dir, with string) (zanzi.Zanzi, error) {
	switch with {
	case "logger first":
		return zanzi.New(zanzi.WithLogger(&types.NoopLogger{}), zanzi.WithDefaultKVStore(dir))
	case "store only":
		return zanzi.New(zanzi.WithDefaultKVStore(dir))
	case "default logger":
		return zanzi.New(zanzi.WithDefaultKVStore(dir), zanzi.WithDefaultLogger())
	case "no logger":
		return zanzi.New(zanzi.WithoutLogger(nil), zanzi.WithDefaultKVStore(dir))
	case "development logger":
		return zanzi.New(zanzi.WithDevelopmentLogger(), zanzi.WithDefaultKVStore(dir))
	}
	return zanzi.New(zanzi.WithDefaultKVStore(dir), zanzi.WithLogger(&types.NoopLogger{}))
}

func childMain(dir string) {
	out := os.NewFile(3, "replies")
	enc := json.NewEncoder(out)
	z, err := openZanzi(dir, os.Getenv("VERIF_CHILD_WITH"))
	if err != nil {
		enc.Encode(childMsg{Err: err.Error()})
		os.Exit(0)
	}
	enc.Encode(childMsg{M: "open"})
	w := wrapZanzi(&z)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0) // the parent is done
		}
		var req childMsg
		if err := json.Unmarshal(line, &req); err != nil {
			os.Exit(9)
		}
		m := newRequest(req.M)
		if err := proto.Unmarshal(req.B, m); err != nil {
			os.Exit(9)
		}
		resp, err := w.send(m)
		var reply childMsg
		if err != nil {
			reply.Err, reply.Bad = err.Error(), isPanic(err)
			if reply.Err == "" {
				reply.Err = "error"
			}
		} else {
			reply.M = string(resp.ProtoReflect().Descriptor().Name())
			if reply.B, err = proto.Marshal(resp); err != nil {
				reply.Err = "cannot encode the response: " + err.Error()
				reply.Bad = true
			}
		}
		if err := enc.Encode(reply); err != nil {
			os.Exit(0)
		}
	}
}

type child struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	pipe *os.File
	log  *lockedBuffer
	once sync.Once
}

type lockedBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 20000 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.b)
}

// self is the path of this program
var self = func() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}()

// errDead: the child ended
var errDead = errors.New("the process ended")

// startChild opens the data directory in a new process
func startChild(dir string) (*child, error) { return startChildIn(dir, "", "") }

// startChildIn does so from a working directory, with further options
func startChildIn(dir, wd, with string) (*child, error) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	c := &child{pipe: r, out: bufio.NewReaderSize(r, 1<<20), log: &lockedBuffer{}}
	c.cmd = exec.Command(self, "-test.run", "^TestChild$")
	c.cmd.Env = append(os.Environ(), "VERIF_CHILD="+dir, "VERIF_CHILD_WITH="+with, "GOMAXPROCS=2")
	c.cmd.Dir = wd
	c.cmd.ExtraFiles = []*os.File{w}
	c.cmd.Stdout, c.cmd.Stderr = c.log, c.log
	if c.in, err = c.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	if err := c.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start a child: %v", err))
	}
	w.Close()
	m, err := c.read()
	if err != nil {
		c.end(true)
		return nil, fmt.Errorf("opening the data directory: %w", err)
	}
	if m.Err != "" {
		c.end(true)
		return nil, fmt.Errorf("opening the data directory: %s", m.Err)
	}
	return c, nil
}

func (c *child) read() (childMsg, error) {
	line, err := c.out.ReadBytes('\n')
	if err != nil {
		time.Sleep(10 * time.Millisecond)
		return childMsg{}, fmt.Errorf("%w: %.3000s", errDead, c.log.String())
	}
	var m childMsg
	if err := json.Unmarshal(line, &m); err != nil {
		return childMsg{}, err
	}
	return m, nil
}

func (c *child) write(req proto.Message) error {
	b, err := proto.Marshal(req)
	if err != nil {
		panic(err)
	}
	line, _ := json.Marshal(childMsg{M: string(req.ProtoReflect().Descriptor().Name()), B: b})
	_, err = c.in.Write(append(line, '\n'))
	return err
}

// end stops the child: abruptly, or by closing its input, on which it exits
func (c *child) end(kill bool) {
	c.once.Do(func() {
		if kill {
			c.cmd.Process.Kill()
		}
		c.in.Close()
		c.cmd.Wait()
		c.pipe.Close()
	})
}

func childReply[R proto.Message](m childMsg, resp R) (R, error) {
	var zero R
	if m.Bad {
		return zero, &PanicError{m.Err}
	}
	if m.Err != "" {
		return zero, errors.New(m.Err)
	}
	if want := string(resp.ProtoReflect().Descriptor().Name()); m.M != want {
		return zero, fmt.Errorf("reply is a %s, not a %s", m.M, want)
	}
	if err := proto.Unmarshal(m.B, resp); err != nil {
		return zero, err
	}
	return resp, nil
}

func childCall[R proto.Message](c *child, req proto.Message, resp R) (R, error) {
	var zero R
	if err := c.write(req); err != nil {
		return zero, &PanicError{fmt.Sprintf("%v: %s", errDead, c.log.String())}
	}
	m, err := c.read()
	if err != nil {
		return zero, &PanicError{err.Error()}
	}
	return childReply(m, resp)
}

func (c *child) CreatePolicy(_ context.Context, r *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
	return childCall(c, r, &api.CreatePolicyResponse{})
}
func (c *child) UpdatePolicy(_ context.Context, r *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
	return childCall(c, r, &api.UpdatePolicyResponse{})
}
func (c *child) DeletePolicy(_ context.Context, r *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
	return childCall(c, r, &api.DeletePolicyResponse{})
}
func (c *child) GetPolicy(_ context.Context, r *api.GetPolicyRequest) (*api.GetPolicyResponse, error) {
	return childCall(c, r, &api.GetPolicyResponse{})
}
func (c *child) ListPolicyIds(_ context.Context, r *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {
	return childCall(c, r, &api.ListPolicyIdsResponse{})
}
func (c *child) SetRelationship(_ context.Context, r *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
	return childCall(c, r, &api.SetRelationshipResponse{})
}
func (c *child) DeleteRelationship(_ context.Context, r *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
	return childCall(c, r, &api.DeleteRelationshipResponse{})
}
func (c *child) GetRelationship(_ context.Context, r *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
	return childCall(c, r, &api.GetRelationshipResponse{})
}
func (c *child) FindRelationshipRecords(_ context.Context, r *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error) {
	return childCall(c, r, &api.FindRelationshipRecordsResponse{})
}
func (c *child) DeleteRelationships(_ context.Context, r *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
	return childCall(c, r, &api.DeleteRelationshipsResponse{})
}
func (c *child) Check(_ context.Context, r *api.CheckRequest) (*api.CheckResponse, error) {
	return childCall(c, r, &api.CheckResponse{})
}
func (c *child) ExplainCheck(_ context.Context, r *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error) {
	return childCall(c, r, &api.ExplainCheckResponse{})
}
func (c *child) Expand(_ context.Context, r *api.ExpandRequest) (*api.ExpandResponse, error) {
	return childCall(c, r, &api.ExpandResponse{})
}
func (c *child) DumpRelationships(_ context.Context, r *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error) {
	return childCall(c, r, &api.DumpRelationshipResponse{})
}

var _ services = (*child)(nil)
