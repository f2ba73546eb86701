package harness

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// The programs run as an unprivileged user, in a scratch directory: a daemon which ignores its data directory
// can write nowhere else.
const nobody = 65534

// DaemonLife: requests to one process of the daemon, and how it ends
type DaemonLife struct {
	D     int      `json:"d"` // which daemon
	Ops   []Op     `json:"ops"`
	Doors []string `json:"doors"` // how the requests are sent, in turn
	End   string   `json:"end"`
}

// DaemonCase: daemons and the command-line client
type DaemonCase struct {
	Ids   []string     `json:"ids"`
	Rels  []Rel        `json:"rels"`
	Nodes []Node       `json:"nodes"`
	Subs  []Ent        `json:"subs"`
	Dirs  []string     `json:"dirs"`
	Rel   bool         `json:"rel,omitempty"`  // directories are named relative to the working directory
	Host  string       `json:"host,omitempty"` // instead of an address of its own
	Both  bool         `json:"both,omitempty"` // the daemons run at the same time
	Lives []DaemonLife `json:"lives"`
	Obst  string       `json:"obst,omitempty"` // a further daemon: port (the address is in use), locked, file (the directory cannot be used), address (no address), flag (no flag of it)
	Away  bool         `json:"away,omitempty"` // the client is pointed to an address nobody listens at
}

func init() {
	register("C20", 320, 4000,
		"Case: 1-2 daemons with a data directory each, named absolutely or relative to the working directory, 2-4 processes of each, one after the other, those of different daemons one after the other or at the same time: started with --data_dir and --address, sent up to 12 requests of every operation, over gRPC or by the command-line client with the request as JSON on standard input, in a file, as flags, in environment variables, or part in each, and ended by SIGKILL, SIGTERM or SIGINT. Every response, as printed, and every exit status is judged by a model; every process must report byte for byte what the previous one did, hold no data of the other daemon, listen at no other address, and leave nothing in the working or home directory. 1 in 3 cases starts a further daemon whose address is in use, or whose directory is in use or a file, or whose address or flags make no sense: it must end with an error and the first one go on; 1 in 8 points the client to an address nobody listens at. Non-trivial: a daemon was started again after a modification and requests were sent by the client.",
		genC20, runC20)
}

func genC20(t *rapid.T) DaemonCase {
	o := histOpts{ids: rapid.IntRange(1, 3).Draw(t, "nids"), nasty: 30, restrict: chance(t, 25, "restrict"), variants: 2, rels: 8,
		kinds: map[string]int{"set": 14, "del": 3, "create": 3, "update": 2, "delpol": 1, "delsel": 2, "check": 3, "explain": 2, "expand": 2, "get": 2, "find": 3, "getpol": 2, "list": 1, "dump": 1}}
	v := genVocab(t, o)
	c := DaemonCase{Ids: v.Ids, Rels: v.Rels, Nodes: v.U.nodes(), Subs: v.U.entities()}
	c.Dirs = []string{pick(t, []string{"a", "a b", "x/y/z", "é", "data.d"}, "dir")}
	if chance(t, 40, "two") {
		c.Dirs = append(c.Dirs, pick(t, []string{"b", "x/b", "a.d", "A"}, "dir2"))
		c.Both = chance(t, 60, "both")
	}
	c.Rel = chance(t, 30, "relative")
	c.Host = pick(t, []string{"", "", "", "", "localhost", "[::1]"}, "host")
	c.Obst = pick(t, []string{"", "", "", "", "", "", "port", "locked", "file", "address", "flag"}, "obst")
	c.Away = chance(t, 12, "away")
	rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
	for i := 0; i < rounds; i++ {
		for d := range c.Dirs {
			if i > 0 && d > 0 && chance(t, 40, "skip") {
				continue
			}
			l := DaemonLife{D: d, End: pick(t, []string{"kill", "term", "int"}, "end")}
			if i == 0 {
				l.Ops = genOps(t, v, o, 4, 12)
			} else {
				l.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op { return genOp(t, v, o) }), 0, 10).Draw(t, "ops")
			}
			l.Doors = rapid.SliceOfN(rapid.SampledFrom([]string{"grpc", "stdin", "file", "flags", "mixed", "pretty", "env"}), 1, 6).Draw(t, "doors")
			c.Lives = append(c.Lives, l)
		}
	}
	return c
}

// daemon is a running process
type daemon struct {
	cmd  *exec.Cmd
	addr string
	log  *lockedBuffer
	done chan struct{}
	code int
}

// bench is the scratch directory of a case and what the programs need
type bench struct {
	bin, root, wd, home string
	port                int
	rel                 bool
}

func newBench(rel bool) *bench {
	root, err := os.MkdirTemp("", "c20-")
	if err != nil {
		panic(err)
	}
	b := &bench{bin: os.Getenv("VERIF_BIN"), root: root, wd: root + "/wd", home: root + "/home", rel: rel, port: 20000 + int(time.Now().UnixNano()/1000)%12000}
	if b.bin == "" {
		panic("VERIF_BIN is not set")
	}
	for _, d := range []string{b.root, b.wd, b.home, root + "/data"} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
		if err := os.Chmod(d, 0o777); err != nil {
			panic(err)
		}
	}
	return b
}

func (b *bench) command(name string, args ...string) *exec.Cmd {
	cmd := exec.Command(filepath.Join(b.bin, name), args...)
	cmd.Dir = b.wd
	cmd.Env = []string{"HOME=" + b.home, "PATH=/usr/bin:/bin", "TMPDIR=" + b.root, "GOMAXPROCS=2"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: unprivileged(), Pdeathsig: syscall.SIGKILL}
	return cmd
}

// unprivileged is the user the programs run as: nobody where this process may become it, else its own
var unprivileged = sync.OnceValue(func() *syscall.Credential {
	cred := &syscall.Credential{Uid: nobody, Gid: nobody}
	cmd := exec.Command("/bin/sh", "-c", ":")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: cred}
	if cmd.Run() != nil {
		return nil
	}
	return cred
})

// as runs a command of the shell as the user of the programs: this process may lack the right to send them a signal
// or to remove their files
func as(script string) {
	cmd := exec.Command("/bin/sh", "-c", script)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: unprivileged()}
	cmd.Run()
}

func send(cmd *exec.Cmd, sig syscall.Signal) {
	if err := cmd.Process.Signal(sig); errors.Is(err, syscall.EPERM) {
		as(fmt.Sprintf("kill -%d %d", int(sig), cmd.Process.Pid))
	}
}

func remove(path string) {
	if os.RemoveAll(path) != nil {
		as("rm -rf '" + path + "' '" + path + "'/*")
		if err := os.RemoveAll(path); err != nil {
			panic(err)
		}
	}
}

// dir is the path of a data directory, and how the daemon is told
func (b *bench) dir(name string) (path, flag string) {
	if b.rel {
		return b.wd + "/" + name, name
	}
	p := b.root + "/data/" + name
	return p, p
}

// address chooses one nobody listens at. Every process of the harness has an address of its own.
func (b *bench) address(host string) string {
	if host == "[::1]" {
		if l, err := net.Listen("tcp", "[::1]:0"); err != nil {
			host = ""
		} else {
			l.Close()
		}
	}
	if host == "localhost" {
		if _, err := net.LookupHost(host); err != nil {
			host = ""
		}
	}
	pid := os.Getpid()
	if host == "" {
		host = fmt.Sprintf("127.%d.%d.%d", 1+(pid>>16)&63, (pid>>8)&255, 1+(pid&255)%254)
	}
	for i := 0; i < 1000; i++ {
		b.port++
		if b.port > 32000 {
			b.port = 20000
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", b.port)) // everywhere
		if err != nil {
			continue
		}
		l.Close()
		return fmt.Sprintf("%s:%d", host, b.port)
	}
	panic("no free port")
}

func (b *bench) launch(dirFlag, addr string, more ...string) *daemon {
	d := &daemon{addr: addr, log: &lockedBuffer{}, done: make(chan struct{})}
	d.cmd = b.command("zanzid", append([]string{"--data_dir", dirFlag, "--address=" + addr}, more...)...)
	d.cmd.Stdout, d.cmd.Stderr = d.log, d.log
	if err := d.cmd.Start(); err != nil {
		panic(fmt.Sprintf("the daemon cannot be started: %v", err))
	}
	go func() {
		d.cmd.Wait()
		d.code = d.cmd.ProcessState.ExitCode()
		close(d.done)
	}()
	return d
}

// serves: what listens at an address is a server, not just a program looking for a free port
func serves(addr string) bool {
	z, end, err := dialFor(addr, 2*time.Second)
	if err != nil {
		return false
	}
	defer end()
	x, cancel := context.WithTimeout(ctx, 5*time.Second)
	defer cancel()
	_, err = z.S.ListPolicyIds(x, &api.ListPolicyIdsRequest{})
	code := status.Code(err)
	return code != codes.Unavailable && code != codes.DeadlineExceeded
}

// start starts a daemon which is to serve and waits until it does
func (b *bench) start(dirFlag, host string) (*daemon, error) {
	for i := 0; ; i++ {
		d := b.launch(dirFlag, b.address(host))
		end := time.Now().Add(callLimit)
		for {
			if conn, err := net.DialTimeout("tcp", d.addr, time.Second); err == nil {
				conn.Close()
				served := serves(d.addr)
				select {
				case <-d.done:
				default:
					if served {
						return d, nil
					}
				}
			}
			select {
			case <-d.done:
				if strings.Contains(d.log.String(), "address already in use") && i < 20 {
					goto again // another program was faster
				}
				return nil, fmt.Errorf("the daemon ended with status %d: %.2000s", d.code, d.log.String())
			case <-time.After(3 * time.Millisecond):
			}
			if time.Now().After(end) {
				send(d.cmd, syscall.SIGKILL)
				return nil, fmt.Errorf("the daemon does not listen at %s: %.2000s", d.addr, d.log.String())
			}
		}
	again:
	}
}

// end stops the daemon
func (d *daemon) end(how string) {
	switch how {
	case "term":
		send(d.cmd, syscall.SIGTERM)
	case "int":
		send(d.cmd, syscall.SIGINT)
	default:
		send(d.cmd, syscall.SIGKILL)
	}
	select {
	case <-d.done:
	case <-time.After(callLimit):
		send(d.cmd, syscall.SIGKILL)
		<-d.done
	}
}

// ended waits for a daemon which cannot run to end with an error
func (d *daemon) ended() error {
	select {
	case <-d.done:
	case <-time.After(callLimit):
		send(d.cmd, syscall.SIGKILL)
		<-d.done
		return fmt.Errorf("it does not end: %.1500s", d.log.String())
	}
	if d.code == 0 {
		return fmt.Errorf("it ended with status 0: %.1500s", d.log.String())
	}
	return nil
}

func kebab(s string) string {
	var b strings.Builder
	for i, r := range s {
		if r >= 'A' && r <= 'Z' {
			if i > 0 {
				b.WriteByte('-')
			}
			r += 'a' - 'A'
		}
		b.WriteRune(r)
	}
	return b.String()
}

// flagsOf gives a request as flags of the command, false if it cannot be
func flagsOf(m protoreflect.Message, prefix string) (flags []string, ok bool) {
	ok = true
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		name := prefix + kebab(f.JSONName())
		if f.IsList() || f.IsMap() {
			ok = false
			return false
		}
		switch f.Kind() {
		case protoreflect.StringKind:
			ok = !strings.Contains(v.String(), "\x00")
			flags = append(flags, "--"+name+"="+v.String())
		case protoreflect.BytesKind:
			flags = append(flags, "--"+name+"="+base64.StdEncoding.EncodeToString(v.Bytes()))
		case protoreflect.EnumKind:
			e := f.Enum().Values().ByNumber(v.Enum())
			if e == nil {
				ok = false
				return false
			}
			flags = append(flags, "--"+name+"="+string(e.Name()))
		case protoreflect.MessageKind:
			sub, subOk := flagsOf(v.Message(), name+"-")
			ok = subOk
			if len(sub) == 0 && f.ContainingOneof() != nil {
				ok = false // there is no flag for messages without fields
			}
			flags = append(flags, sub...)
		default:
			ok = false
		}
		return ok
	})
	return flags, ok
}

var errStatus = errors.New("the client ended with an error")

// cli sends requests with the command-line client
func (b *bench) cli(addr, how string, st *Stats) door {
	return func(req, resp proto.Message) error {
		service, method := methodOf(req)
		service = service[strings.LastIndex(service, ".")+1:]
		args := []string{kebab(lowerFirst(service)), kebab(lowerFirst(method)), "-s", addr, "--timeout", callLimit.String()}
		body := proto.Clone(req)
		var stdin []byte
		way := how
		var vars []string
		if how == "flags" || how == "mixed" || how == "env" {
			part := body
			if how != "flags" { // scalars as flags or variables, the rest as JSON
				part = req.ProtoReflect().New().Interface()
				req.ProtoReflect().Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
					if f.Kind() != protoreflect.MessageKind && !f.IsList() {
						part.ProtoReflect().Set(f, v)
					}
					return true
				})
			}
			flags, ok := flagsOf(part.ProtoReflect(), "")
			size := 0
			for _, f := range flags {
				size += len(f) + 1
				ok = ok && (how != "env" || !strings.HasSuffix(f, "=")) // an empty variable is none
			}
			if ok && size < 100_000 { // what the system can hand to a process
				if how == "env" {
					for _, f := range flags {
						name, value, _ := strings.Cut(strings.TrimPrefix(f, "--"), "=")
						vars = append(vars, strings.ToUpper(strings.ReplaceAll(kebab(lowerFirst(service))+"-"+kebab(lowerFirst(method))+"-"+name, "-", "_"))+"="+value)
					}
				} else {
					args = append(args, flags...)
				}
				part.ProtoReflect().Range(func(f protoreflect.FieldDescriptor, _ protoreflect.Value) bool {
					body.ProtoReflect().Clear(f)
					return true
				})
			} else {
				way = "stdin"
			}
		}
		if way == "pretty" {
			args = append(args, "-o", "prettyjson")
		}
		if way != "flags" {
			text, err := protojson.Marshal(body)
			if err != nil {
				panic(fmt.Sprintf("request %v: %v", body, err))
			}
			if way == "file" {
				f := b.root + "/request.json"
				if err := os.WriteFile(f, text, 0o644); err != nil {
					panic(err)
				}
				args = append(args, "-f", f)
			} else {
				stdin = text
				args = append(args, "-f", "-")
			}
		}
		st.label("door-%s", way)
		out, err := b.run(args, stdin, vars...)
		if err != nil {
			return err
		}
		if err := protojson.Unmarshal(out, resp); err != nil {
			return &PanicError{fmt.Sprintf("zanzi-cli %q ended with status 0 and printed %.1000q, which is no %s: %v", args, out, resp.ProtoReflect().Descriptor().Name(), err)}
		}
		return nil
	}
}

// run runs the client: the output, or an error if its status is not 0
func (b *bench) run(args []string, stdin []byte, vars ...string) ([]byte, error) {
	cmd := b.command("zanzi-cli", args...)
	cmd.Env = append(cmd.Env, vars...)
	var out, diag bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(stdin), &out, &diag
	if err := cmd.Start(); err != nil {
		return nil, &PanicError{fmt.Sprintf("the client cannot be started: %v", err)}
	}
	timer := time.AfterFunc(2*callLimit, func() { send(cmd, syscall.SIGKILL) })
	err := cmd.Wait()
	if !timer.Stop() {
		return nil, &PanicError{fmt.Sprintf("zanzi-cli %q does not end", args)}
	}
	if err != nil {
		text := diag.String()
		if strings.Contains(text, "panic:") || strings.Contains(text, "unknown flag") || strings.Contains(text, "unknown command") || strings.Contains(text, "unknown shorthand") || strings.Contains(text, "timeout dialing") {
			return nil, &PanicError{fmt.Sprintf("zanzi-cli %q: %.1500s", args, text)}
		}
		return nil, fmt.Errorf("%w: %v: %.300s", errStatus, err, text)
	}
	return out.Bytes(), nil
}

func lowerFirst(s string) string { return strings.ToLower(s[:1]) + s[1:] }

type daemonState struct {
	d        *daemon
	z        *Z
	closeZ   func()
	m        *Model
	snap     map[string]string
	modified bool
	path     string
	flag     string
	starts   int
	ending   string
}

func (s *daemonState) stop(how string) {
	if s.closeZ != nil {
		s.closeZ()
	}
	if s.d != nil {
		s.d.end(how)
	}
	s.d, s.z, s.closeZ = nil, nil, nil
}

// sameDaemon: what listens at an address, if anything, is the daemon which z talks to: a policy created here is found there
func sameDaemon(z *Z, addr string) (bool, error) {
	conn, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		return false, nil
	}
	conn.Close()
	id := fmt.Sprintf("marker-%d-%d", os.Getpid(), time.Now().UnixNano())
	if _, err := z.send(&api.CreatePolicyRequest{PolicyDefinition: polDef(&domain.Policy{Id: id})}); err != nil {
		return false, err
	}
	same := false
	if there, end, err := dialFor(addr, 3*time.Second); err == nil {
		x, cancel := context.WithTimeout(ctx, 5*time.Second)
		resp, err := there.S.GetPolicy(x, &api.GetPolicyRequest{Id: id})
		same = err == nil && resp.GetRecord() != nil
		cancel()
		end()
	}
	_, err = z.send(&api.DeletePolicyRequest{Id: id})
	return same, err
}

func runC20(c DaemonCase, st *Stats) error {
	b := newBench(c.Rel)
	defer remove(b.root)
	var ds []*daemonState
	for _, n := range c.Dirs {
		s := &daemonState{m: newModel()}
		s.path, s.flag = b.dir(n)
		ds = append(ds, s)
	}
	defer func() {
		for _, s := range ds {
			s.stop("kill")
		}
	}()
	restarted, byClient := false, false
	open := func(s *daemonState) error {
		if s.d == nil {
			d, err := b.start(s.flag, c.Host)
			if err != nil {
				return err
			}
			s.d = d
			if s.z, s.closeZ, err = dial(d.addr); err != nil {
				return err
			}
			s.starts++
			if s.starts > 1 && s.modified {
				restarted = true
			}
			// it serves at no other address
			if c.Host == "" {
				other := "127.0.0.1" + d.addr[strings.LastIndex(d.addr, ":"):]
				same, err := sameDaemon(s.z, other)
				if err != nil {
					return err
				}
				if same {
					return fmt.Errorf("the daemon told to listen at %s is reached at %s too", d.addr, other)
				}
			}
		}
		if err := s.m.compareAll(s.z, c.Ids, c.Rels); err != nil {
			return err
		}
		snap, err := s.z.snapshot(c.Ids)
		if err != nil {
			return err
		}
		if s.snap != nil {
			if err := sameSnapshot(s.snap, snap); err != nil {
				return fmt.Errorf("compared with the previous process: %w", err)
			}
		}
		return nil
	}
	for li, l := range c.Lives {
		s := ds[l.D]
		what := fmt.Sprintf("process %d, in %q", li, c.Dirs[l.D])
		s.stop(s.ending) // those of the other directories go on
		if err := open(s); err != nil {
			return fmt.Errorf("%s, at its beginning: %w", what, err)
		}
		for i, o := range l.Ops {
			how := l.Doors[i%len(l.Doors)]
			z := s.z
			if how != "grpc" {
				z = &Z{S: b.cli(s.d.addr, how, st)}
				byClient = true
			} else {
				st.label("door-grpc")
			}
			if err := s.m.step(z, o); err != nil {
				return fmt.Errorf("%s, step %d, sent by %s: %w", what, i, how, err)
			}
			s.modified = s.modified || o.mutates()
		}
		if li == 0 && c.Obst != "" {
			if err := b.obstruct(&c, s); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			st.label("obstructed-%s", c.Obst)
		}
		if li == 0 && c.Away {
			addr := b.address(c.Host)
			_, err := b.run([]string{"policy-service", "list-policy-ids", "-s", addr, "--timeout", "400ms"}, nil)
			if err == nil {
				return fmt.Errorf("%s: the client ended with status 0, nobody listens at its address", what)
			}
			st.label("away")
		}
		var err error
		if s.snap, err = s.z.snapshot(c.Ids); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		st.label("end-%s", l.End)
		s.ending = l.End
		if !c.Both {
			s.stop(l.End)
		}
	}
	fc := &FaultCase{Ids: c.Ids, Rels: c.Rels, Nodes: c.Nodes, Subs: c.Subs}
	for i, s := range ds {
		what := fmt.Sprintf("at the end, %q", c.Dirs[i])
		s.stop(s.ending)
		if err := open(s); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := sweepAll(s.z, s.m, fc); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		s.stop("kill")
		if e, err := os.ReadDir(s.path); err != nil || len(e) == 0 {
			return fmt.Errorf("%s: there is nothing in the data directory (%v)", what, err)
		}
	}
	// nothing was written elsewhere
	own := map[string]bool{}
	if c.Rel {
		for _, n := range c.Dirs {
			own[strings.SplitN(n, "/", 2)[0]] = true
		}
	}
	for _, d := range []string{b.wd, b.home} {
		es, err := os.ReadDir(d)
		if err != nil {
			return fmt.Errorf("the directory %s: %w", d, err)
		}
		for _, e := range es {
			if d == b.home || !own[e.Name()] {
				return fmt.Errorf("with data directories %q, the programs left %q in %s", c.Dirs, e.Name(), filepath.Base(d))
			}
		}
	}
	st.NonTrivial = restarted && byClient
	st.labelIf(len(c.Dirs) > 1, "two-daemons")
	st.labelIf(c.Both, "at-the-same-time")
	st.labelIf(c.Rel, "relative")
	st.labelIf(c.Host != "", "host-"+c.Host)
	return nil
}

// obstruct starts a daemon which cannot run while another one does
func (b *bench) obstruct(c *DaemonCase, s *daemonState) error {
	addr := b.address(c.Host)
	path, flag := b.dir("further")
	what := ""
	switch c.Obst {
	case "port":
		addr, what = s.d.addr, "a daemon whose address is in use"
	case "locked":
		flag, what = s.flag, "a daemon whose data directory is in use"
	case "file":
		what = "a daemon whose data directory is a file"
		if err := os.WriteFile(path, []byte("x"), 0o644); err != nil {
			panic(err)
		}
	case "address":
		addr, what = "nowhere", "a daemon whose address is none"
	}
	var more []string
	if c.Obst == "flag" {
		what, more = "a daemon with a flag it does not have", []string{"--data-directory=x"}
	}
	err := b.launch(flag, addr, more...).ended()
	remove(path)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if _, err := s.z.send(&api.ListPolicyIdsRequest{}); err != nil {
		return fmt.Errorf("%s was started, the other one does not answer any more: %w", what, err)
	}
	return nil
}
