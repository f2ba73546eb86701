package harness

import (
	"errors"
	"fmt"
	"os"
	"os/user"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// DiskStep: operations in one life of the process, and how it ends
type DiskStep struct {
	D   int    `json:"d"` // which data directory
	Ops []Op   `json:"ops"`
	End string `json:"end"` // kill, exit: after the last acknowledgement; mid: killed Us microseconds after sending Mid
	Mid *Op    `json:"mid,omitempty"`
	Us  int    `json:"us,omitempty"`
}

type DiskCase struct {
	Ids   []string   `json:"ids"`
	Rels  []Rel      `json:"rels"`
	Nodes []Node     `json:"nodes"`
	Subs  []Ent      `json:"subs"`
	Dirs  []string   `json:"dirs"`
	Big   int        `json:"big,omitempty"` // app data are blown up to this size
	Lives []DiskStep `json:"lives"`
	Both  bool       `json:"both,omitempty"` // the processes of the directories run at the same time
	Obst  string     `json:"obst,omitempty"` // also open a directory which cannot be opened: file (it is a file), locked (in use)
	With  []string   `json:"with,omitempty"` // what else the instances are given, in turn
	Name  string     `json:"name,omitempty"` // how every other life names the directory: from the user's home, from the working directory, through a symbolic link
}

func init() {
	register("C14", 320, 6000,
		"Case: 1-2 data directories and 2-4 lives of a process in each: the process opens the directory with the library's on-disk store, runs up to 16 operations and ends after the last acknowledgement, by exiting or by SIGKILL, or is killed some microseconds after receiving one more modifying operation (judged as in C16: its effect is absent, partial as allowed there or complete, complete if it had been acknowledged). Every new life must report byte for byte the policies, relationships, app data and creation times of the previous one and those of a model, at the end every Check and dump too; 1 in 6 cases writes megabytes so that the store's files roll over. The second directory has its own model. Instances are given a logger of several kinds, before or after the store, or none. 1 in 2 cases names the directory relative to the user's home or to the working directory, or through a symbolic link, every other time; 2 in 7 also open a directory which cannot be opened (a file, or one in use): what is acknowledged there all the same must be there later. Non-trivial: at least two lives of a directory modified something.",
		genC14, runC14)
}

func genC14(t *rapid.T) DiskCase {
	o := histOpts{ids: rapid.IntRange(1, 3).Draw(t, "nids"), nasty: 40, restrict: chance(t, 25, "restrict"), variants: 2, rels: 8,
		kinds: map[string]int{"set": 16, "del": 3, "create": 3, "update": 2, "delpol": 1, "delsel": 1, "check": 1}}
	v := genVocab(t, o)
	c := DiskCase{Ids: v.Ids, Rels: v.Rels, Nodes: v.U.nodes(), Subs: v.U.entities()}
	pool := []string{"a", "a b", "x/y/z", "data.d", "é", "a/", "./b/../c", "A", "a/b", "x", "x/y", "~", "a~"}
	k := uni(t, len(pool), "dir")
	c.Dirs = []string{pool[k]}
	if chance(t, 35, "two") {
		// names which some way of cleaning or shortening paths confuses
		pairs := [][2]string{{"a", "a."}, {"a", "a "}, {"a", "A"}, {"a", " a"}, {"a", ".a"}, {"x/y", "xy"}, {"x/y", "x.y"}, {"x/y", "x_y"}, {"x/data", "y/data"}, {"data/x", "data/y"},
			{"a", "a/a"}, {"a", "b/a"}, {"~a", "a"}, {"a~", "a"}, {"a.db", "a"}, {"e\u0301", "\u00e9"}, {"a%20b", "a b"}, {"a+b", "a b"}, {"$HOME", "HOME"}, {strings.Repeat("d", 64) + "1", strings.Repeat("d", 64) + "2"}, {"1", "01"}, {"a\\b", "a/b"}}
		if chance(t, 60, "pair") {
			p := pick(t, pairs, "pairs")
			c.Dirs = []string{p[0], p[1]}
			if chance(t, 50, "swap") {
				c.Dirs = []string{p[1], p[0]}
			}
		} else {
			c.Dirs = append(c.Dirs, pool[(k+1+uni(t, len(pool)-1, "dir2"))%len(pool)])
		}
		if filepath.Clean(c.Dirs[0]) == filepath.Clean(c.Dirs[1]) {
			c.Dirs[1] = "other"
		}
		c.Both = chance(t, 50, "both")
	}
	c.Name = pick(t, []string{"", "", "", "", "", "home", "home", "relative", "relative", "link"}, "name")
	for i := 0; i < 3; i++ {
		c.With = append(c.With, pick(t, []string{"", "", "logger first", "store only", "default logger", "no logger", "development logger"}, "with"))
	}
	c.Obst = pick(t, []string{"", "", "", "", "", "file", "locked"}, "obst")
	if chance(t, 16, "big") {
		c.Big = pick(t, []int{70000, 300000, 900000}, "bigsize")
	}
	for d := range c.Dirs {
		n := rapid.IntRange(2, 4).Draw(t, "lives")
		for i := 0; i < n; i++ {
			s := DiskStep{D: d, End: pick(t, []string{"kill", "kill", "exit", "mid"}, "end")}
			if i == 0 {
				s.Ops = genOps(t, v, o, 4, 16)
			} else {
				s.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op { return genOp(t, v, o) }), 0, 10).Draw(t, "ops")
			}
			if s.End == "mid" {
				m := rapid.Custom(func(t *rapid.T) Op {
					return genOp(t, v, histOpts{kinds: map[string]int{"set": 4, "del": 2, "delpol": 3, "delsel": 3, "update": 1, "create": 1}})
				}).Draw(t, "mid")
				s.Mid = &m
				s.Us = pick(t, []int{0, 20, 50, 100, 200, 400, 800}, "us") + uni(t, 40, "jitter")
			}
			c.Lives = append(c.Lives, s)
		}
	}
	if len(c.Dirs) == 2 { // interleave the lives of the directories
		var a, b []DiskStep
		for _, s := range c.Lives {
			if s.D == 0 {
				a = append(a, s)
			} else {
				b = append(b, s)
			}
		}
		c.Lives = nil
		for len(a)+len(b) > 0 {
			if len(b) == 0 || len(a) > 0 && chance(t, 50, "turn") {
				c.Lives, a = append(c.Lives, a[0]), a[1:]
			} else {
				c.Lives, b = append(c.Lives, b[0]), b[1:]
			}
		}
	}
	return c
}

func (c *DiskCase) inflate(o Op) Op {
	if c.Big == 0 || len(o.D) == 0 || len(o.D) >= c.Big {
		return o
	}
	b := make([]byte, 0, c.Big)
	x := uint32(len(o.D)*31 + int(o.D[0]))
	for len(b) < c.Big { // does not compress well
		x = x*1664525 + 1013904223
		b = append(b, o.D[len(b)%len(o.D)]^byte(x>>24))
	}
	o.D = b
	return o
}

type diskDir struct {
	path  string
	ch    *child
	m     *Model
	snap  map[string]string
	lives int // which modified something
	count int
}

// fromHome names a path relative to the user's home
func fromHome(path string) string {
	u, err := user.Current()
	if err != nil || u.HomeDir == "" || strings.HasPrefix(u.HomeDir, "~") {
		return path
	}
	r, err := filepath.Rel(u.HomeDir, path)
	if err != nil {
		return path
	}
	return "~/" + r
}

// obstructed opens a directory which cannot be opened: whatever it acknowledges all the same must be there later
func obstructed(path string, between func() error) error {
	ch, err := startChild(path)
	if err != nil {
		return nil
	}
	const id = "obstructed"
	_, err = (&Z{S: ch}).send(&api.CreatePolicyRequest{PolicyDefinition: polDef(&domain.Policy{Id: id})})
	ch.end(false)
	if err != nil {
		return nil
	}
	if err := between(); err != nil {
		return err
	}
	ch, err = startChild(path)
	if err != nil {
		return fmt.Errorf("a directory was opened and a policy created in it, it cannot be opened again: %w", err)
	}
	defer ch.end(true)
	resp, err := (&Z{S: ch}).send(&api.GetPolicyRequest{Id: id})
	if err != nil {
		return err
	}
	if resp.(*api.GetPolicyResponse).Record == nil {
		return errors.New("a policy was created, after opening the directory again it is not there")
	}
	return nil
}

func runC14(c DiskCase, st *Stats) error {
	root, err := os.MkdirTemp("", "c14-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	fc := &FaultCase{Ids: c.Ids, Rels: c.Rels, Nodes: c.Nodes, Subs: c.Subs}
	var dirs []*diskDir
	for _, d := range c.Dirs {
		dirs = append(dirs, &diskDir{path: root + "/" + d, m: newModel()})
	}
	if c.Name == "link" {
		if err := os.Symlink(root, root+"/link"); err != nil {
			panic(err)
		}
	}
	defer func() {
		for _, d := range dirs {
			if d.ch != nil {
				d.ch.end(true)
			}
		}
	}()
	open := func(d *diskDir) (*Z, error) {
		if d.ch == nil {
			path := d.path
			wd := ""
			if d.count%2 == 1 {
				switch c.Name {
				case "home":
					path = fromHome(path)
				case "relative":
					wd, path = root, "."+strings.TrimPrefix(path, root)
					if d.count%4 == 1 && !strings.HasPrefix(path, "./~") {
						path = strings.TrimPrefix(path, "./")
					}
				case "link":
					path = root + "/link" + strings.TrimPrefix(path, root)
				}
			}
			with := ""
			if len(c.With) > 0 {
				with = c.With[d.count%len(c.With)]
			}
			d.count++
			ch, err := startChildIn(path, wd, with)
			if err != nil {
				return nil, err
			}
			d.ch = ch
		}
		return &Z{S: d.ch}, nil
	}
	// arrived judges what a new process finds
	arrived := func(d *diskDir, z *Z) error {
		if err := d.m.compareAll(z, c.Ids, c.Rels); err != nil {
			return err
		}
		s, err := z.snapshot(c.Ids)
		if err != nil {
			return err
		}
		if d.snap != nil {
			if err := sameSnapshot(d.snap, s); err != nil {
				return fmt.Errorf("compared with the previous process: %w", err)
			}
		}
		return nil
	}
	if c.Both { // all directories are open from the beginning
		for _, d := range dirs {
			if _, err := open(d); err != nil {
				return err
			}
		}
	}
	if c.Obst == "file" {
		path := root + "/in-the-way"
		if err := os.WriteFile(path, []byte("x"), 0o600); err != nil {
			panic(err)
		}
		if err := obstructed(path, func() error { return nil }); err != nil {
			return fmt.Errorf("data directory which is a file: %w", err)
		}
	}
	for li, s := range c.Lives {
		d := dirs[s.D]
		what := fmt.Sprintf("life %d in %q", li, c.Dirs[s.D])
		z, err := open(d)
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := arrived(d, z); err != nil {
			return fmt.Errorf("%s, at its beginning: %w", what, err)
		}
		modified := false
		for i, o := range s.Ops {
			if err := d.m.step(z, c.inflate(o)); err != nil {
				return fmt.Errorf("%s, step %d: %w", what, i, err)
			}
			modified = modified || o.mutates()
		}
		if d.snap, err = z.snapshot(c.Ids); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if c.Obst == "locked" && li == 0 {
			end := func() error { d.ch.end(true); return nil }
			if err := obstructed(d.path, end); err != nil {
				return fmt.Errorf("%s, data directory opened by another process too: %w", what, err)
			}
		}
		st.label("end-%s", s.End)
		if s.End == "mid" {
			if err := midKill(&c, fc, d, c.inflate(*s.Mid), s.Us, st, open); err != nil {
				return fmt.Errorf("%s, killed during %v: %w", what, *s.Mid, err)
			}
			modified = true
		} else {
			d.ch.end(s.End == "kill")
			d.ch = nil
		}
		if c.Both && d.ch == nil {
			if _, err := open(d); err != nil {
				return fmt.Errorf("%s, opened again: %w", what, err)
			}
		}
		if modified {
			d.lives++
		}
	}
	for i, d := range dirs {
		what := fmt.Sprintf("at the end, %q", c.Dirs[i])
		z, err := open(d)
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := arrived(d, z); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := sweepAll(z, d.m, fc); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := dumpAll(z, d.m); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if d.lives >= 2 {
			st.NonTrivial = true
		}
		d.ch.end(true)
		d.ch = nil
	}
	st.labelIf(c.Big > 0, "big")
	st.labelIf(len(c.Dirs) > 1, "two-directories")
	st.labelIf(c.Both, "at-the-same-time")
	st.labelIf(c.Obst != "", "obstructed-"+c.Obst)
	st.labelIf(c.Name != "", "named-by-"+c.Name)
	return nil
}

// midKill sends an operation, kills the process shortly after and judges what the next one finds
func midKill(c *DiskCase, fc *FaultCase, d *diskDir, o Op, us int, st *Stats, open func(*diskDir) (*Z, error)) error {
	pre, post := d.m, d.m.clone()
	t0 := time.Now()
	ok := post.apply(o, t0, t0.Add(time.Minute))
	if err := d.ch.write(o.request()); err != nil {
		return &PanicError{fmt.Sprintf("the process had ended: %s", d.ch.log.String())}
	}
	for end := t0.Add(time.Duration(us) * time.Microsecond); time.Now().Before(end); {
	}
	d.ch.cmd.Process.Kill()
	reply, err := d.ch.read()
	if err != nil && !errors.Is(err, errDead) {
		return err
	}
	acked := err == nil
	if acked && reply.Bad {
		return &PanicError{reply.Err}
	}
	if acked && (reply.Err == "") != ok && o.mutates() && !lenientOp(pre, o) {
		return fmt.Errorf("answered %q, success is due: %v", reply.Err, ok)
	}
	d.ch.end(true)
	d.ch = nil
	d.snap = nil
	z, err := open(d)
	if err != nil {
		return err
	}
	if acked && reply.Err == "" {
		st.label("mid-acknowledged")
		d.m = post
		for _, p := range post.pols {
			if o.Pol != nil && p.pol.Id == o.Pol.Id && o.K == "create" {
				p.created = time.Time{}
			}
		}
		if err := d.m.compareAll(z, c.Ids, c.Rels); err != nil {
			return fmt.Errorf("acknowledged: %w", err)
		}
		return d.m.settle(z)
	}
	st.label("mid-not-acknowledged")
	now, err := judgeInterrupted(z, fc, o, pre, relaxed(post))
	if err != nil {
		return err
	}
	d.m = now
	if opSucceeds(o, pre) {
		// an operation cut short is repeated: what it leaves behind until then is judged by C16
		d.m = relaxed(post)
		if err := repeat(z, fc, o, now, d.m); err != nil {
			return err
		}
	}
	return d.m.settle(z)
}

// lenientOp: the operation may fail or do nothing
func lenientOp(pre *Model, o Op) bool {
	p := pre.pols[o.target()]
	return (o.K == "del" || o.K == "delsel") && (p == nil || o.K == "delsel" && !o.Sel.valid(p.pol))
}
