package checks

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/sirupsen/logrus"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C11", "an operation performed by one of several go routines that use a new session; distinct by operation, outcome and the order in which the backend functions were called during it", c11)
	Modes["c11child"] = c11child
}

// An op is an operation on a session: its outcome must not depend on what else is going on
type op struct {
	desc string
	f    func(s api.Session) mon.Obs
	want string // the outcome when alone
	kind string
}

// childReport is what a child process tells its parent, one JSON object per line
type childReport struct {
	Kind   string                 // bad, count, case, hang, crash or end
	Text   string                 `json:",omitempty"`
	N      int                    `json:",omitempty"`
	Detail map[string]interface{} `json:",omitempty"`
}

type childOut struct {
	lock sync.Mutex
	w    *bufio.Writer
}

func (o *childOut) say(r childReport) {
	b, err := json.Marshal(r)
	if err != nil {
		b, _ = json.Marshal(childReport{Kind: r.Kind, Text: r.Text})
	}
	o.lock.Lock()
	_, _ = o.w.Write(append(b, '\n'))
	_ = o.w.Flush()
	o.lock.Unlock()
}

func (o *childOut) count(name string, n int) { o.say(childReport{Kind: "count", Text: name, N: n}) }

func newChildOut() *childOut { return &childOut{w: bufio.NewWriter(os.Stdout)} }

// ops generates the operations on a session for the world
func worldOps(g *gen.G, p *gen.Profile, w *model.World, env *mon.Env, n int) []*op {
	gw := gen.NewW(g, p, w)
	r := make([]*op, 0, n)
	for i := 0; i < n; i++ {
		key := gw.Key()
		merge := g.MergeOpt(.4)
		switch g.Weighted(10, 2, 2, 1) {
		case 0:
			o := &op{desc: "lookup " + key + " " + mv.Canon(merge), kind: "lookup"}
			o.f = func(s api.Session) mon.Obs { return env.Lookup(s, key, merge) }
			if want := model.NewEval(w).Lookup(key, merge); want.Kind != "unsupported" {
				o.want = want.Canon()
			}
			r = append(r, o)
		case 1:
			r = append(r, &op{desc: "explained lookup " + key, kind: "explained lookup", f: func(s api.Session) mon.Obs {
				ex := explain.NewExplainer(true, false)
				ob := mon.Try(func() dgo.Value { return hiera.Lookup(env.Inv(s, ex), key, nil, mon.MergeOption(merge)) })
				if ob.Kind != "error" {
					ob.Canon += ex.String()
				}
				return ob
			}})
		case 2:
			opts := &hiera.CommandOptions{RenderAs: g.Pick("json", "yaml", "s"), Variables: []string{"v1=val1", "v2:{a: 1}", `v3={"k1":"x"}`}}
			if g.P(.3) {
				opts.Merge = g.Pick("unique", "deep")
			}
			if g.P(.3) {
				opts.Type = g.Pick("any", "map[string]any", "[]any", "string|int", "string")
			}
			if g.P(.3) {
				d := g.Pick("x", `{"a":1}`, "[1,2]")
				opts.Default = &d
			}
			if g.P(.2) {
				opts.ExplainData = true
			}
			r = append(r, &op{desc: fmt.Sprintf("render %s %v", key, *opts), kind: "rendered lookup", f: func(s api.Session) mon.Obs {
				return mon.Try(func() dgo.Value {
					b := bytes.Buffer{}
					oc := *opts
					ok := hiera.LookupAndRender(s, &oc, []string{key}, &b)
					return vf.Values(ok, b.String())
				})
			}})
		default:
			keys := []string{key, gw.Key(), gw.Key()}
			r = append(r, &op{desc: fmt.Sprintf("lookup all %v", keys), kind: "lookup of several keys", f: func(s api.Session) mon.Obs {
				return mon.Try(func() dgo.Value {
					iv := env.Inv(s, nil)
					a := hiera.LookupAll(iv, keys, nil, nil, nil, nil)
					b := hiera.Lookup2(iv, keys, nil, vf.String("dflt"), nil, nil, nil, nil)
					return vf.Values(a, b)
				})
			}})
		}
	}
	return r
}

// cold performs the operations using several go routines that start at the same time, in a new session, repeatedly. What
// each operation gives when it is alone is observed before that or, when late is true, afterwards, so that the very first
// use of everything in this process is concurrent.
func cold(out *childOut, r *rand.Rand, name string, mk func() api.Session, ops []*op, routines, rounds int, order func() string, busy *int64, late bool, dump func() interface{}) bool {
	alone := func() bool {
		for _, o := range ops {
			s := mk()
			got := o.f(s)
			s.KillPlugins()
			if o.want != "" && got.Canon != o.want {
				out.say(childReport{Kind: "bad", Text: fmt.Sprintf("%s: %s alone gives %s, expected %s", name, o.desc, got, o.want), Detail: map[string]interface{}{"world": dump()}})
				return false
			}
			o.want = got.Canon
		}
		return true
	}
	if !late && !alone() {
		return false
	}
	type result struct {
		o   *op
		got mon.Obs
	}
	var lock sync.Mutex
	var orders []string
	results := map[string]result{}
	for round := 0; round < rounds; round++ {
		if order != nil {
			order()
		}
		s := mk()
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < routines; i++ {
			perm := r.Perm(len(ops))
			if r.Intn(3) == 0 { // most of them start with the same operation
				for j, k := range perm {
					if k == 0 {
						perm[0], perm[j] = perm[j], perm[0]
					}
				}
			}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for _, k := range perm {
					o := ops[k]
					got := o.f(s)
					atomic.AddInt64(busy, 1)
					lock.Lock()
					results[fmt.Sprint(k)+got.Canon] = result{o, got}
					lock.Unlock()
				}
			}(i)
		}
		close(start)
		wg.Wait()
		s.KillPlugins()
		ord := ""
		if order != nil {
			ord = order()
		}
		orders = append(orders, ord)
	}
	if late && !alone() {
		return false
	}
	for _, res := range results {
		if res.got.Canon != res.o.want {
			out.say(childReport{Kind: "bad", Text: fmt.Sprintf("%s: %s gives %s among %d go routines, alone it gives %s", name, res.o.desc, res.got, routines, res.o.want),
				Detail: map[string]interface{}{"world": dump()}})
			return false
		}
	}
	for _, ord := range orders {
		for _, o := range ops {
			out.say(childReport{Kind: "case", Text: o.desc + o.want + ord, N: routines})
			out.count(o.kind, routines)
		}
		if ord != "" {
			out.say(childReport{Kind: "order", Text: ord})
		}
	}
	return true
}

func orderOf(env *mon.Env) func() string {
	return func() string {
		es := env.Take()
		if len(es) < 2 {
			return ""
		}
		h := fnv.New64a()
		for _, e := range es {
			_, _ = h.Write([]byte(e.String()))
		}
		return strconv.FormatUint(h.Sum64(), 16)
	}
}

// delays makes backend functions take different time
func delays(seed int64) func(fn, id, loc, key string) {
	var n int64
	return func(_, _, _, _ string) {
		x := uint64(atomic.AddInt64(&n, 1)+seed) * 0x9E3779B97F4A7C15
		switch (x >> 40) % 8 {
		case 0, 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(x>>50%300) * time.Microsecond)
		}
	}
}

func c11profile(g *gen.G) *gen.Profile {
	p := gen.Default()
	p.Entries = 3
	p.Hash, p.Key, p.Dig = 4, 4, 3
	p.InterpVal, p.InterpCfg = .25, .3
	p.LuOpts, p.Convert = .5, .3
	p.Absent = .05
	if g.P(.25) {
		p.Malformed = .2
	}
	if g.P(.4) {
		p.HasModules = true
		p.Providers = [][]string{{"config", "module"}, {"config", "module", "custom1"}}
	} else {
		p.Providers = [][]string{nil, {"config"}, {"custom1", "config"}}
	}
	return p
}

// c11plugins creates a session where functions of several plugins are used for the first time by all go routines
func c11plugins(g *gen.G, dir, plugin string) (func() api.Session, []*op, func() interface{}) {
	np := 1 + g.Intn(2)
	h := []interface{}{}
	for i := 0; i < np; i++ {
		_ = os.MkdirAll(filepath.Join(dir, "plugin"), 0755)
		if err := os.Symlink(plugin, filepath.Join(dir, "plugin", fmt.Sprintf("p%d", i))); err != nil {
			panic(err)
		}
	}
	for i := 0; i < 2+g.Intn(3); i++ {
		pf := fmt.Sprintf("p%d", g.Intn(np))
		k := g.Pick("data_hash", "lookup_key", "data_dig")
		fn := map[string]string{"data_hash": "hv_hash", "lookup_key": "hv_key", "data_dig": "hv_dig"}[k]
		o := mv.NewMap("data", mv.NewMap("a", fmt.Sprintf("a%d", i), fmt.Sprintf("k%d", i), mv.L(int64(i), "%{v1}"), "l", mv.L(int64(i))))
		if g.P(.4) {
			o.Put("sleep", int64(g.Intn(20)))
		}
		if g.P(.1) {
			o.Put("panic", "boom")
		}
		h = append(h, mv.NewMap("name", fmt.Sprintf("e%d", i), k, fn, "pluginfile", pf, "options", o))
	}
	if g.P(.2) { // an unknown function, and a plugin that isn't there
		h = append(h, mv.NewMap("name", "bad", "lookup_key", g.Pick("nope", "hv_key"), "pluginfile", g.Pick("p0", "missing")))
	}
	write(filepath.Join(dir, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", h)))
	tr := g.Pick("unix", "tcp")
	env := mon.NewEnv(&model.World{Root: dir, Cfg: &model.Config{}, Sess: mv.NewMap("v1", "val")})
	env.NoTrace = true
	env.Plugins = true
	env.Extra = map[string]interface{}{"pluginTransport": tr, "unixSocketDir": dir}
	var ops []*op
	for _, key := range []string{"a", "k0", "k1.1", "l", "missing"} {
		key := key
		var merge interface{}
		if key == "l" {
			merge = "unique"
		}
		ops = append(ops, &op{desc: "lookup " + key + " using plugins", kind: "lookup using plugins", f: func(s api.Session) mon.Obs { return env.Lookup(s, key, merge) }})
	}
	return env.Session, ops, func() interface{} { return map[string]interface{}{"hierarchy": mv.Canon(h), "transport": tr} }
}

func write(fn, text string) {
	if err := os.MkdirAll(filepath.Dir(fn), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(fn, []byte(text), 0644); err != nil {
		panic(err)
	}
}

func c11child(args []string) int {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	from, _ := strconv.Atoi(args[1])
	to, _ := strconv.Atoi(args[2])
	tmp, plugin, name := args[3], args[4], args[5]
	logrus.SetOutput(io.Discard)
	out := newChildOut()
	var busy int64
	go watch(out, &busy)
	for i := from; i < to; i++ {
		g := gen.New(seed, "C11"+name, i)
		r := rand.New(rand.NewSource(seed + int64(i)))
		dir := filepath.Join(tmp, strconv.Itoa(i))
		_ = os.MkdirAll(dir, 0755)
		ok := true
		if name == "shared" {
			mk, ops := c11shared(dir)
			ok = cold(out, r, fmt.Sprintf("shared case %d", i), mk, ops, 8, 40, nil, &busy, false, func() interface{} { return nil })
		} else if name == "plugin" {
			mk, ops, dump := c11plugins(g, dir, plugin)
			ok = cold(out, r, fmt.Sprintf("plugin case %d", i), mk, ops, 6+g.Intn(6), 2, nil, &busy, i%2 == 0, dump)
		} else {
			p := c11profile(g)
			w := gen.Build(g, p)
			if g.P(.05) {
				w.Cfg.Raw = g.Pick("version: 5\nhierarchy: [", "version: 4\n", "[]", "version: 5\nhierarchy: 3\n")
				w.Write(dir)
			} else {
				w.Write(dir)
				gen.Fill(g, p, w)
			}
			raw := w.Cfg.Raw != ""
			env := mon.NewEnv(w)
			ops := worldOps(g, p, w, env, 5)
			if raw {
				for _, o := range ops {
					o.want = ""
				}
			}
			env.Hook = delays(seed + int64(i))
			ok = cold(out, r, fmt.Sprintf("case %d", i), env.Session, ops, 8+g.Intn(9), 3, orderOf(env), &busy, i%2 == 0, w.Dump)
		}
		_ = os.RemoveAll(dir)
		if !ok {
			break
		}
		out.say(childReport{Kind: "done", N: i})
	}
	atomic.StoreInt64(&busy, -1<<40)
	out.say(childReport{Kind: "end"})
	return 0
}

// watch reports that all lookups are blocked when none has ended for a long time and all go routines that execute code
// of hiera wait for each other. A process that just gets too little time to execute is not reported.
func watch(out *childOut, busy *int64) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		n := atomic.LoadInt64(busy)
		if n < 0 {
			return
		}
		if n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) < 20*time.Second {
			continue
		}
		st := blocked()
		time.Sleep(5 * time.Second)
		if atomic.LoadInt64(busy) == last && st != "" && blocked() != "" {
			out.say(childReport{Kind: "hang", Text: st})
			os.Exit(0)
		}
		since = time.Now()
	}
}

// blocked returns the stacks of the go routines that execute code of hiera, if all of them wait for something that only
// another go routine can provide
func blocked() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var r []string
	for _, st := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(st, "github.com/lyraproj/hiera/") {
			continue
		}
		head := st
		if i := strings.Index(head, "\n"); i >= 0 {
			head = head[:i]
		}
		// IO wait and select occur in calls to plugins, which have a timeout
		if strings.Contains(head, "sync.") || strings.Contains(head, "semacquire") || strings.Contains(head, "chan ") {
			r = append(r, st)
		} else {
			return ""
		}
	}
	if len(r) == 0 {
		return ""
	}
	t := strings.Join(r, "\n\n")
	if len(t) > 6000 {
		t = t[:6000]
	}
	return fmt.Sprintf("%d go routines: %s", len(r), t)
}

// races extracts the reports of the race detector that involve hiera
func races(prefix string) []string {
	fs, _ := filepath.Glob(prefix + ".*")
	var r []string
	for _, f := range fs {
		bs, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		r = append(r, raceReports(string(bs))...)
	}
	return r
}

func raceReports(text string) []string {
	var r []string
	for _, b := range strings.Split(text, "==================") {
		if strings.Contains(b, "WARNING: DATA RACE") && strings.Contains(b, "github.com/lyraproj/hiera/") {
			if len(b) > 40000 {
				b = b[:40000]
			}
			r = append(r, b)
		}
	}
	return r
}

// raceTop describes where a data race occurs, without addresses
func raceTop(rep string) string {
	var fs []string
	for _, l := range strings.Split(rep, "\n") {
		if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   ") && strings.Contains(l, "(") {
			fs = append(fs, strings.TrimSpace(l))
			if len(fs) == 2 {
				break
			}
		}
	}
	return strings.Join(fs, " called by ")
}

// stringHashRace is true for the known finding that go routines that share a string of dgo all compute its hash, and store
// it in the string, without synchronization. Both of the accesses must be the ones made by that method.
func stringHashRace(rep string) bool {
	n, hash, lines := 0, 0, strings.Split(rep, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "Read at ") || strings.HasPrefix(l, "Write at ") || strings.HasPrefix(l, "Previous read at ") || strings.HasPrefix(l, "Previous write at ") {
			n++
			switch {
			case i+1 < len(lines) && strings.HasPrefix(strings.TrimSpace(lines[i+1]), "github.com/lyraproj/dgo/internal.(*hstring).HashCode("):
				hash++
			case i+1 < len(lines) && strings.Contains(lines[i+1], "failed to restore the stack"):
			default:
				return false
			}
		}
	}
	return n == 2 && hash > 0
}

// c11shared lets go routines use the strings that are found in the scope of the session
func c11shared(dir string) (func() api.Session, []*op) {
	v := mv.L(mv.NewMap("name", "x1", "val", "y1"), mv.NewMap("name", "x2", "val", "y2"), mv.NewMap("name", "x1", "val", "y1"))
	write(filepath.Join(dir, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", mv.L(mv.NewMap("name", "s", "lookup_key", "scope")))))
	env := mon.NewEnv(&model.World{Root: dir, Cfg: &model.Config{}, Sess: mv.NewMap("shared", v)})
	o := &op{desc: "lookup of a list of maps in the session scope", kind: "lookup of shared strings", f: func(s api.Session) mon.Obs { return env.Lookup(s, "shared", "unique") }}
	return env.Session, []*op{o, o, o}
}

// runChild runs a mode of this program in a child process that was built with the race detector
func (c *C) runChild(what string, args []string, procs int) {
	tmp := c.Dir()
	defer c.Drop(tmp)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, args...)
	for i, a := range cmd.Args {
		if a == "@TMP" {
			cmd.Args[i] = tmp
		}
	}
	rl := filepath.Join(tmp, "race.log")
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", procs), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+rl, "GOTRACEBACK=all", "TMPDIR="+tmp)
	errBuf := &headBuffer{max: 20000}
	cmd.Stderr = errBuf
	pipe, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		c.Inconclusive("cannot start child: %v", err)
	}
	timer := time.AfterFunc(700*time.Second, func() { _ = cmd.Process.Kill() })
	defer timer.Stop()
	ended, last := false, ""
	sc := bufio.NewScanner(pipe)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	bad := false
	for sc.Scan() {
		var r childReport
		if json.Unmarshal(sc.Bytes(), &r) != nil {
			continue
		}
		switch r.Kind {
		case "bad":
			bad = true
			c.Violation(r.Text, r.Detail)
		case "hang":
			bad = true
			c.Violation(what+": lookups block each other forever", map[string]interface{}{"after": last, "args": args, "stacks": r.Text})
		case "count":
			c.Add(r.Text, r.N)
		case "case":
			c.Case(r.Text)
			for i := 1; i < r.N; i++ {
				c.Case("")
			}
		case "order":
			c.Seen("orders of backend calls", r.Text)
		case "sample":
			c.Sample(r.Detail)
		case "done":
			last = fmt.Sprint(r.N)
			c.Add("worlds", 1)
		case "end":
			ended = true
		}
	}
	err = cmd.Wait()
	for i, t := range races(rl) {
		if stringHashRace(t) {
			c.Add("races in the computation of the hash of a dgo string", 1)
			if c.ID != "C11" {
				continue
			}
			c.Known("dgo-string-hash", what+": data race in the computation of the hash of a shared string", map[string]interface{}{"report": t, "args": args})
			continue
		}
		bad = true
		if i < 3 {
			c.Violation(what+": data race: "+raceTop(t), map[string]interface{}{"report": t, "args": args})
		}
	}
	if !ended && !bad {
		t := errBuf.String()
		if crashed(t) {
			c.Violation(what+": the process died: "+firstLine(t), map[string]interface{}{"after": last, "args": args, "stderr": t})
			return
		}
		c.Inconclusive("the child process of %s ended early after case %s: %v %s", what, last, err, firstLine(t))
	}
}

// crashed is true for what the Go runtime writes when the program, not the machine, is to blame
func crashed(stderr string) bool {
	return strings.Contains(stderr, "panic: ") ||
		strings.Contains(stderr, "fatal error: concurrent map") ||
		strings.Contains(stderr, "fatal error: all goroutines are asleep") ||
		strings.Contains(stderr, "fatal error: sync: ") ||
		strings.Contains(stderr, "goroutine stack exceeds")
}

func firstLine(t string) string {
	for _, l := range strings.Split(t, "\n") {
		if strings.Contains(l, "panic:") || strings.Contains(l, "fatal error:") {
			return l
		}
	}
	if i := strings.Index(t, "\n"); i >= 0 {
		return t[:i]
	}
	return t
}

func c11(c *C) {
	type job struct {
		name     string
		from, to int
		procs    int
	}
	var jobs []job
	add := func(name string, n, chunk int) {
		for f := 0; f < n; f += chunk {
			jobs = append(jobs, job{name, f, f + chunk, []int{2, 4, 8, 3}[len(jobs)%4]})
		}
	}
	add("shared", 1, 1)
	add("plugin", c.N(24, 300), c.N(6, 20))
	add("world", c.N(360, 8000), c.N(20, 60))
	var next int64 = -1
	wg := sync.WaitGroup{}
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := int(atomic.AddInt64(&next, 1))
				if k >= len(jobs) || c.Violations() >= 5 {
					return
				}
				j := jobs[k]
				c.runChild("concurrent lookups", []string{"c11child", fmt.Sprint(c.Seed), fmt.Sprint(j.from), fmt.Sprint(j.to), "@TMP",
					filepath.Join(c.Bin, "plugin"), j.name}, j.procs)
			}
		}()
	}
	wg.Wait()
	c.Need("worlds", int64(c.N(350, 7000)))
	c.Need("orders of backend calls", int64(c.N(300, 5000)))
}
