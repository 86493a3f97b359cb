package checks

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"github.com/sirupsen/logrus"

	"hv/gen"
	"hv/mon"
	"hv/mv"
	"hv/rep"
)

func init() {
	register("C24", "a sequence of rounds of the same operations; distinct by the operations and the way in which sessions are used", c24)
	Modes["c24child"] = c24child
}

// usage is what a process holds. The memory is that which was allocated while a function of hiera was executing, by the
// innermost such function.
type usage struct {
	Goroutines, Descriptors, Children, Rounds int
	Memory                                    map[string]*held
	Heap                                      held
}

type held struct{ Objects, Bytes int }

func (u usage) String() string {
	t := held{}
	for _, h := range u.Memory {
		t.Objects += h.Objects
		t.Bytes += h.Bytes
	}
	return fmt.Sprintf("after %d rounds: %d go routines, %d descriptors, %d child processes, %d objects of %d bytes, of which %d objects of %d bytes by %d functions of hiera",
		u.Rounds, u.Goroutines, u.Descriptors, u.Children, u.Heap.Objects, u.Heap.Bytes, t.Objects, t.Bytes, len(u.Memory))
}

// memory returns what is held according to the memory profile, which includes all allocations
func memory() map[string]*held {
	var rs []runtime.MemProfileRecord
	for n := 1000; ; {
		rs = make([]runtime.MemProfileRecord, n)
		k, ok := runtime.MemProfile(rs, false)
		if ok {
			rs = rs[:k]
			break
		}
		n = k + 1000
	}
	m := map[string]*held{}
	for i := range rs {
		r := &rs[i]
		if r.InUseObjects() == 0 {
			continue
		}
		fs := runtime.CallersFrames(r.Stack())
		at := ""
		for {
			f, more := fs.Next()
			// What the Go runtime keeps for later use
			if f.Function == "runtime.malg" || f.Function == "runtime.allocm" || f.Function == "runtime.acquireSudog" || f.Function == "sync.(*Pool).pinSlow" {
				at = ""
				break
			}
			if at == "" && strings.HasPrefix(f.Function, "github.com/lyraproj/") {
				at = f.Function
			}
			if !more {
				break
			}
		}
		if at == "" {
			continue
		}
		h := m[at]
		if h == nil {
			h = &held{}
			m[at] = h
		}
		h.Objects += int(r.InUseObjects())
		h.Bytes += int(r.InUseBytes())
	}
	return m
}

func fileDescriptors(pid string) int {
	es, err := os.ReadDir("/proc/" + pid + "/fd")
	if err != nil {
		return -1
	}
	return len(es)
}

func childProcesses(pid string) int {
	n := 0
	ds, _ := filepath.Glob("/proc/" + pid + "/task/*/children")
	for _, d := range ds {
		bs, _ := os.ReadFile(d)
		n += len(strings.Fields(string(bs)))
	}
	return n
}

// measure tells what this process holds. It waits for the counts to become those of the given usage, but not forever
func measure(base *usage, wait time.Duration) (u usage) {
	for start := time.Now(); ; time.Sleep(5 * time.Millisecond) {
		u.Goroutines, u.Descriptors, u.Children = runtime.NumGoroutine(), fileDescriptors("self"), childProcesses("self")
		if base == nil || u.Goroutines <= base.Goroutines && u.Descriptors <= base.Descriptors && u.Children <= base.Children || time.Since(start) > wait {
			break
		}
	}
	// The profile is as of the last completed cycle but one
	for n := 0; n < 3; n++ {
		runtime.GC()
	}
	ms := runtime.MemStats{}
	runtime.ReadMemStats(&ms)
	u.Heap = held{int(ms.HeapObjects), int(ms.HeapAlloc)}
	if runtime.MemProfileRate > 0 {
		u.Memory = memory()
	}
	return
}

// grows tells what grows with the number of rounds, given what is held after some numbers of rounds
func grows(us []usage) string {
	last := us[len(us)-4:]
	always := func(get func(u usage) int, least func(rounds int) int) bool {
		for i := 1; i < len(last); i++ {
			if get(last[i])-get(last[i-1]) < least(last[i].Rounds-last[i-1].Rounds) {
				return false
			}
		}
		return true
	}
	some := func(rounds int) int { return 1 }
	switch {
	case always(func(u usage) int { return u.Goroutines }, some):
		return "number of go routines"
	case always(func(u usage) int { return u.Descriptors }, some):
		return "number of descriptors"
	case always(func(u usage) int { return u.Children }, some):
		return "number of child processes"
	}
	grow := func(h func(u usage) held) bool {
		return always(func(u usage) int { return h(u).Objects }, func(rounds int) int { return rounds }) ||
			always(func(u usage) int { return h(u).Bytes }, func(rounds int) int { return 64 * rounds })
	}
	if last[0].Memory == nil {
		if grow(func(u usage) held { return u.Heap }) {
			return "heap"
		}
		return ""
	}
	var r []string
	for f := range last[len(last)-1].Memory {
		h := func(u usage) held {
			if h := u.Memory[f]; h != nil {
				return *h
			}
			return held{}
		}
		if grow(h) {
			r = append(r, f)
		}
	}
	if len(r) > 0 {
		return "memory allocated by " + strings.Join(ensureSorted(r), ", ")
	}
	return ""
}

// rounds performs warmup rounds and then rounds while observing what the process holds, at each of the given numbers of
// rounds. It returns the observations.
func rounds(at []int, round func(n int)) []usage {
	// room for the observations, so that they don't count
	us := make([]usage, 0, len(at))
	n := 0
	for k, to := range at {
		for ; n < to; n++ {
			round(n)
		}
		var base *usage
		if k > 0 {
			base = &us[k-1]
		}
		us = append(us, measure(base, 3*time.Second))
		us[k].Rounds = n
	}
	return us
}

// A c24case is a sequence of operations to be repeated
type c24case struct {
	text  string
	round func(n int)
	end   func()
	at    []int
	dump  func() interface{}
}

var doubling = []int{20, 40, 80, 160, 320}

// c24world uses a world with faults in one of several ways
func (c *C) c24world(i int) *c24case {
	cw, drop := c.c13make("world", i, .15)
	g := cw.G
	for n := g.Intn(5); n > 0; n-- {
		cw.toggle()
	}
	cw.env.NoTrace = true
	type q struct {
		key   string
		merge interface{}
		kind  int
		opts  hiera.CommandOptions
	}
	qs := make([]*q, 8)
	text := ""
	for k := range qs {
		qs[k] = &q{key: cw.gw.Key(), merge: g.MergeOpt(.4), kind: g.Weighted(10, 2, 2, 1)}
		if g.P(.1) {
			qs[k].key = g.Pick("", "a..b", "'x", "lookup_options", "alpha.'", "no_such_key", "none::x")
		}
		o := &qs[k].opts
		o.RenderAs, o.Variables = g.Pick("json", "yaml", "s", "bogus"), []string{"v1=val1", `v3={"k1":"x"}`, g.Pick("v2:{a: 1}", "v2")}
		if g.P(.3) {
			o.ExplainData = true
		}
		if g.P(.3) {
			o.Merge = g.Pick("unique", "deep", "bogus")
		}
		if g.P(.3) {
			o.Type = g.Pick("any", "map[string]any", "string", "b[")
		}
		text += fmt.Sprintf(" %d %s %s", qs[k].kind, qs[k].key, mv.Canon(qs[k].merge))
	}
	do := func(iv func(ex api.Explainer) api.Invocation, s api.Session) {
		for _, q := range qs {
			q := q
			_ = mon.Try(func() dgo.Value {
				switch q.kind {
				case 0:
					return hiera.Lookup(iv(nil), q.key, nil, mon.MergeOption(q.merge))
				case 1:
					ex := explain.NewExplainer(true, false)
					v := hiera.Lookup(iv(ex), q.key, nil, mon.MergeOption(q.merge))
					_ = ex.String()
					return v
				case 2:
					o := q.opts
					hiera.LookupAndRender(s, &o, []string{q.key}, io.Discard)
					return nil
				default:
					return hiera.Lookup2(iv(nil), []string{"no_such_key", q.key}, nil, vf.String("dflt"), nil, nil, nil, nil)
				}
			})
		}
	}
	fresh := func(s api.Session) func(ex api.Explainer) api.Invocation {
		return func(ex api.Explainer) api.Invocation { return cw.env.Inv(s, ex) }
	}
	cs := &c24case{at: doubling, end: drop, dump: func() interface{} { return map[string]interface{}{"world": cw.w.Dump(), "faults": cw.faultsNow()} }}
	top, opts := cw.env.Top(), cw.env.Options()
	switch how := g.Intn(7); how {
	case 0, 1:
		text = "one session" + text
		s := cw.env.Session()
		cs.round = func(int) { do(fresh(s), s) }
	case 2:
		text = "one invocation" + text
		s := cw.env.Session()
		iv := cw.env.Inv(s, nil)
		cs.round = func(int) {
			do(func(ex api.Explainer) api.Invocation {
				if ex != nil {
					return cw.env.Inv(s, ex)
				}
				return iv
			}, s)
		}
	case 3:
		text = "a session per round" + text
		cs.round = func(int) {
			s := session.New(context.Background(), top, opts, nil)
			defer s.KillPlugins()
			do(fresh(s), s)
		}
	case 4, 5:
		text = "a session per round in one context" + text
		ctx, cancel := context.WithCancel(context.Background())
		cs.end = func() { cancel(); drop() }
		cs.round = func(n int) {
			defer func() { _ = recover() }()
			if n%2 == 0 {
				hiera.DoWithParent(ctx, top, opts, func(s api.Session) {
					do(fresh(s), s)
					if n%4 == 0 {
						panic("the consumer fails")
					}
				})
			} else {
				_ = hiera.TryWithParent(ctx, top, opts, func(s api.Session) error {
					do(fresh(s), s)
					if n%4 == 1 {
						return io.EOF
					}
					return nil
				})
			}
		}
	default:
		text = "go routines" + text
		s := cw.env.Session()
		cs.round = func(int) {
			wg := sync.WaitGroup{}
			for k := 0; k < 3; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					do(fresh(s), s)
				}()
			}
			wg.Wait()
		}
	}
	cs.text = text
	return cs
}

// c24plugins uses plugins of which some fail, in one session or several
func (c *C) c24plugins(i int) *c24case {
	g := c.G("plugin", i)
	dir := c.Dir()
	pd := filepath.Join(dir, "plugin")
	h := mv.L()
	text := ""
	// The entries are asked in turn and the ones that fail are asked directly, using a module for each
	module := func(name, kind, fn, file string, opts *mv.Map) {
		write(filepath.Join(dir, "mods", name, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy",
			mv.L(mv.NewMap("name", "e", kind, fn, "plugindir", pd, "pluginfile", file, "options", opts)))))
	}
	kf := func() (string, string) {
		k := g.Pick("lookup_key", "data_hash", "data_dig")
		return k, map[string]string{"lookup_key": "hv_key", "data_hash": "hv_hash", "data_dig": "hv_dig"}[k]
	}
	c.linkPlugin(filepath.Join(pd, "good"))
	k, fn := kf()
	h = append(h, mv.NewMap("name", "top", k, fn, "pluginfile", "good", "options", mv.NewMap("data", mv.NewMap("g", "top", "m", mv.NewMap("x", "%{v1}")))))
	write(filepath.Join(dir, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", h)))
	keys := []string{"g", "m.x", "none"}
	add := func(name string, opts *mv.Map) {
		k, fn = kf()
		m := mv.NewMap("data", mv.NewMap(name+"::k", "value of "+name))
		for _, o := range opts.Keys {
			m.Put(o, opts.Get(o))
		}
		module(name, k, fn, "good", m)
		keys = append(keys, name+"::k")
		text += " " + name + " " + k
	}
	if g.P(.7) {
		add("panics", mv.NewMap("panic", "boom"))
	}
	if g.P(.5) {
		add("talks", mv.NewMap("stderr", strings.Repeat("x", 1+g.Intn(200)), "stdout", "noise"))
	}
	if g.P(.5) {
		add("big", mv.NewMap("fill", strings.Repeat("y", 5000)))
	}
	if g.P(.5) {
		module("nofn", "lookup_key", "hv_nope", "good", mv.NewMap())
		keys = append(keys, "nofn::k")
	}
	slow := i%8 == 5
	if slow {
		add("slow", mv.NewMap("sleep", 5600))
	}
	perRound := g.P(.6) && !slow
	// plugins that fail to start at once, since each round starts them again
	scripts := map[string]string{
		"exits": "exit 1", "garbage": "echo not JSON\nexec sleep 40", "array": "echo '[1]'\nexec sleep 40",
		"version":  "echo '{\"version\":99,\"address\":\"x\",\"network\":\"unix\",\"functions\":{}}'\nexec sleep 40",
		"badmeta":  "echo '{\"version\":1,\"address\":1}'\nexec sleep 40",
		"badfuncs": "echo '{\"version\":1,\"address\":\"x\",\"network\":\"unix\",\"functions\":{\"lookup_key\":\"hv_key\"}}'\nexec sleep 40",
		"gone":     "echo '{\"version\":1,\"address\":\"/no/such/socket\",\"network\":\"unix\",\"functions\":{\"lookup_key\":[\"hv_key\"]}}'\nexec sleep 40",
		"closes":   "exec >&- 2>&-\nexec sleep 40",
	}
	if !slow {
		names := make([]string, 0, len(scripts))
		for n := range scripts {
			names = append(names, n)
		}
		ensureSorted(names)
		for n := 1 + g.Intn(2); n > 0; n-- {
			s := names[g.Intn(len(names))]
			fn := filepath.Join(pd, s)
			write(fn, "#!/bin/sh\n"+scripts[s]+"\n")
			_ = os.Chmod(fn, 0755)
			module(s, "lookup_key", "hv_key", s, mv.NewMap("data", mv.NewMap()))
			keys = append(keys, s+"::k")
			text += " " + s
		}
		module("missing", "lookup_key", "hv_key", "missing", mv.NewMap())
		keys = append(keys, "missing::k")
	}
	if perRound && g.P(.3) {
		// each session ends this one by force
		module("killed", "lookup_key", "hv_key", "killed", mv.NewMap("die", true))
		c.linkPlugin(filepath.Join(pd, "killed"))
		keys = append(keys, "killed::k")
		text += " dies"
	}
	opts := map[string]interface{}{
		api.HieraRoot: dir, provider.ModulePath: filepath.Join(dir, "mods"),
		provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey},
		"pluginTransport":           "unix", "unixSocketDir": dir,
	}
	do := func(s api.Session) {
		wg := sync.WaitGroup{}
		for _, k := range keys {
			look := func(k string) {
				_ = mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(map[string]string{"v1": "x"}, nil), k, nil, nil) })
			}
			if slow {
				wg.Add(1)
				go func(k string) { defer wg.Done(); look(k) }(k)
			} else {
				look(k)
			}
		}
		wg.Wait()
	}
	cs := &c24case{at: []int{6, 9, 14, 20, 28}, dump: func() interface{} { return map[string]interface{}{"case": i, "keys": keys, "text": text} }}
	if slow {
		cs.at = []int{1, 2, 3, 4}
	}
	if perRound {
		cs.text = "plugins, a session per round" + text
		cs.end = func() { c.Drop(dir) }
		cs.round = func(n int) {
			defer func() { _ = recover() }()
			hiera.DoWithParent(context.Background(), provider.MuxLookupKey, opts, func(s api.Session) {
				do(s)
				if n%2 == 0 {
					panic("the consumer fails")
				}
			})
		}
	} else {
		cs.text = "plugins in one session" + text
		s := session.New(context.Background(), provider.MuxLookupKey, opts, nil)
		cs.end = func() { s.KillPlugins(); c.Drop(dir) }
		cs.round = func(int) { do(s) }
	}
	return cs
}

// c24data uses the provider that keeps data in the session
func (c *C) c24data(i int) *c24case {
	g := c.G("data", i)
	dir := c.Dir()
	p := gen.Default()
	path := filepath.Join(dir, "data.yaml")
	write(path, mv.YAML(gen.Data(g, p)))
	opts := map[string]interface{}{"path": path}
	s := session.New(context.Background(), provider.YamlLookupKey, opts, nil)
	gw := gen.NewW(g, p, nil)
	keys := make([]string, 10)
	for k := range keys {
		keys[k] = gw.Key()
	}
	return &c24case{text: fmt.Sprintf("YamlLookupKey %q", keys), at: doubling, end: func() { c.Drop(dir) }, dump: func() interface{} { return keys },
		round: func(n int) {
			x := s
			if i%2 == 0 {
				x = session.New(context.Background(), provider.YamlLookupKey, opts, nil)
				defer x.KillPlugins()
			}
			for _, k := range keys {
				_ = mon.Try(func() dgo.Value { return hiera.Lookup(x.Invocation(nil, nil), k, nil, nil) })
			}
		}}
}

func c24child(args []string) int {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	from, _ := strconv.Atoi(args[1])
	to, _ := strconv.Atoi(args[2])
	tmp, bin, name := args[3], args[4], args[5]
	logrus.SetOutput(io.Discard)
	runtime.MemProfileRate = 0
	out := newChildOut()
	var busy int64
	c := &C{R: rep.New("C24", "", "", seed, "quick"), Seed: seed, Tmp: tmp, Bin: bin}
	go watch(out, &busy)
	for i := from; i < to; i++ {
		var cs *c24case
		switch name {
		case "world":
			cs = c.c24world(i)
		case "data":
			cs = c.c24data(i)
		default:
			cs = c.c24plugins(i)
		}
		// Slow plugins may be waited for
		round := func(n int) {
			cs.round(n)
			atomic.AddInt64(&busy, 1)
		}
		us := rounds(cs.at, round)
		what := grows(us)
		if what != "" {
			// Is it held by hiera? What the Go runtime keeps for later use doesn't count
			runtime.MemProfileRate = 1
			at := cs.at
			if at[0] == doubling[0] {
				at = []int{4, 8, 16, 32, 64}
			}
			again := rounds(at, round)
			us = append(us, again...)
			if what = grows(again); what == "" {
				out.count("growth that is not by hiera", 1)
			}
			runtime.MemProfileRate = 0
		}
		cs.end()
		out.count("rounds", us[len(us)-1].Rounds)
		out.count("observations of what the process holds", len(us))
		out.say(childReport{Kind: "case", Text: cs.text, N: 1})
		if what != "" {
			var obs []string
			for _, u := range us {
				obs = append(obs, u.String())
			}
			out.say(childReport{Kind: "bad", Text: fmt.Sprintf("the %s grows with the number of rounds in %s case %d: %s", what, name, i, clip(cs.text)),
				Detail: map[string]interface{}{"observed": obs, "case": cs.dump()}})
			break
		}
		if i == from {
			out.say(childReport{Kind: "sample", Detail: map[string]interface{}{"case": clip(cs.text), "observed": []string{us[0].String(), us[len(us)-1].String()}}})
		}
		out.count(name+" cases", 1)
		out.say(childReport{Kind: "done", N: i})
	}
	atomic.StoreInt64(&busy, -1<<40)
	out.say(childReport{Kind: "end"})
	return 0
}

func c24(c *C) {
	c.Assume("what is held after the first rounds of the same operations may stay; memory counts when the objects or bytes that were allocated while a function of hiera executed grow in each of the last observations, at least one object or 64 bytes per round")
	type job struct {
		name     string
		from, to int
	}
	var jobs []job
	add := func(name string, n, chunk int) {
		for f := 0; f < n; f += chunk {
			jobs = append(jobs, job{name, f, f + chunk})
		}
	}
	add("plugin", c.N(24, 240), c.N(3, 10))
	add("world", c.N(200, 4000), c.N(10, 100))
	add("data", c.N(20, 200), c.N(10, 50))
	c.Workers(8, len(jobs)+c.N(2, 12), func(k int) {
		if k >= len(jobs) {
			c.c24server(k - len(jobs))
			return
		}
		j := jobs[k]
		c.runChild("repeated lookups", []string{"c24child", fmt.Sprint(c.Seed), fmt.Sprint(j.from), fmt.Sprint(j.to), "@TMP", c.Bin, j.name}, 2)
	})
	c.Need("world cases", int64(c.N(200, 4000)))
	c.Need("plugin cases", int64(c.N(24, 240)))
	c.Need("rounds", 30000)
	c.Need("requests to a server", 10000)
}

var gcLine = regexp.MustCompile(`(?m)^gc \d+ .* \d+->\d+->(\d+) MB, `)

// c24server repeats requests to the REST server
func (c *C) c24server(i int) {
	g := c.G("server", i)
	dir := c.Dir()
	defer c.Drop(dir)
	pd := filepath.Join(dir, "plugin")
	c.linkPlugin(filepath.Join(pd, "good"))
	h := mv.L(mv.NewMap("name", "files", "paths", mv.L("%{v1}.yaml", "common.yaml"), "datadir", "data"))
	if i%2 == 0 {
		h = append(h, mv.NewMap("name", "plugin", "lookup_key", "hv_key", "pluginfile", "good", "options", mv.NewMap("data", mv.NewMap("p", "%{v1} from plugin"))))
	}
	write(filepath.Join(dir, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", h)))
	write(filepath.Join(dir, "data", "a.yaml"), "k: [1, '%{v1}']\nm: {x: {y: '%{lookup(\"k\")}'}}\n")
	write(filepath.Join(dir, "data", "broken.yaml"), "{")
	write(filepath.Join(dir, "data", "common.yaml"), "k: [2]\nm: {x: {z: 1}}\nlookup_options: {m: {merge: deep}}\nloop: '%{lookup(\"loop\")}'\n")
	s := startServer(filepath.Join(c.Bin, "server"), []string{"GODEBUG=gctrace=1", "GOGC=20", "TMPDIR=" + dir}, "--config", filepath.Join(dir, "hiera.yaml"))
	if s == nil || s.exited() {
		c.Inconclusive("cannot start the server")
		return
	}
	defer s.stop()
	pid := fmt.Sprint(s.cmd.Process.Pid)
	client := &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 8}}
	var urls []string
	for n := 0; n < 20; n++ {
		q := url.Values{}
		q.Add("var", "v1="+g.Pick("a", "a", "other", "broken"))
		if g.P(.3) {
			q.Add("merge", g.Pick("unique", "deep", "bogus"))
		}
		if g.P(.3) {
			q.Add("default", g.Pick("x", "[1]"))
		}
		urls = append(urls, "http://"+s.addr+"/lookup/"+g.Pick("k", "m", "m.x.y", "none", "p", "loop", "k.0", "m..", "env::HOME")+"?"+q.Encode())
	}
	var us []usage
	done := 0
	for _, to := range []int{1000, 2000, 4000, 8000, 14000} {
		wg := sync.WaitGroup{}
		var next = int64(done)
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					k := int(atomic.AddInt64(&next, 1))
					if k > to {
						return
					}
					resp, err := client.Get(urls[k%len(urls)])
					if err != nil {
						continue
					}
					_, _ = io.Copy(io.Discard, resp.Body)
					_ = resp.Body.Close()
					c.Add("requests to a server", 1)
					c.Add(fmt.Sprintf("responses %d", resp.StatusCode), 1)
				}
			}()
		}
		wg.Wait()
		done = to
		client.CloseIdleConnections()
		u := usage{Rounds: to}
		for start := time.Now(); ; time.Sleep(20 * time.Millisecond) {
			u.Descriptors, u.Children = fileDescriptors(pid), childProcesses(pid)
			if len(us) == 0 || u.Descriptors <= us[len(us)-1].Descriptors && u.Children <= us[len(us)-1].Children || time.Since(start) > 3*time.Second {
				break
			}
		}
		// The lowest that remained after any of the last collections
		ms := gcLine.FindAllStringSubmatch(s.tail(), -1)
		if len(ms) > 6 {
			ms = ms[len(ms)-6:]
		}
		low := -1
		for _, m := range ms {
			if v, _ := strconv.Atoi(m[1]); low < 0 || v < low {
				low = v
			}
		}
		u.Memory = map[string]*held{"the server": {0, low << 20}}
		us = append(us, u)
		c.Case(fmt.Sprintf("server %v %d", urls, to))
	}
	if s.exited() {
		c.Violation("the server ended: "+clip(s.stderr()), map[string]interface{}{"requests": urls})
		return
	}
	var obs []string
	for _, u := range us {
		obs = append(obs, u.String())
	}
	c.Sample(map[string]interface{}{"server": obs})
	if what := grows(us); what != "" {
		c.Violation(fmt.Sprintf("the %s of the server grows with the number of requests in case %d", what, i), map[string]interface{}{"observed": obs, "requests": urls})
	}
}
