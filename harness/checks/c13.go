package checks

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C13", "a lookup made in a session where other lookups fail; distinct by faults in force, key, and outcome", c13)
}

// faults controls what fails in a world
type faults struct {
	sync.Mutex
	armed map[string]int // calls of backend functions that panic, and how
	fired int64
	hash  int64 // calls of data_hash functions that panicked
}

func callID(fn, id, loc, key string) string {
	if fn == "hv_hash" {
		key = ""
	}
	return fn + "|" + id + "|" + loc + "|" + key
}

var errCustom = errors.New("fault-custom")

// hook panics when the call is one that should
func (f *faults) hook(fn, id, loc, key string) {
	f.Lock()
	how, ok := f.armed[callID(fn, id, loc, key)]
	f.Unlock()
	if !ok {
		return
	}
	atomic.AddInt64(&f.fired, 1)
	switch how {
	case 0:
		panic(fmt.Errorf("fault-%s", id))
	case 1:
		panic("fault-" + id)
	case 2:
		var m map[string]int
		m["x"] = 1
	case 3:
		panic(&os.PathError{Op: "fault-", Path: id, Err: errCustom})
	default:
		var v dgo.Value
		_ = v.String()
	}
}

// hits returns true if the calls that the model predicts include one that panics
func (f *faults) hits(es []model.Event) (yes, hash bool) {
	f.Lock()
	defer f.Unlock()
	for _, e := range es {
		if _, ok := f.armed[callID(e.Fn, e.ID, e.Loc, e.Key)]; ok {
			if e.Fn == "hv_hash" {
				hash = true
			} else {
				yes = true
			}
		}
	}
	return
}

func (f *faults) String() string {
	f.Lock()
	defer f.Unlock()
	var ks []string
	for k := range f.armed {
		ks = append(ks, k)
	}
	return strings.Join(ensureSorted(ks), " ")
}

// A fault that files can have
type fileFault struct {
	cfg  *model.Config
	dir  string
	path string
	orig *model.File
	now  string
}

func (ff *fileFault) full() string { return filepath.Join(ff.dir, ff.path) }

// set makes the file the way that is described by the argument
func (ff *fileFault) set(now string, raw string) {
	fn := ff.full()
	if err := os.RemoveAll(fn); err != nil {
		panic(err)
	}
	ff.now = now
	switch now {
	case "":
		ff.cfg.Files[ff.path] = ff.orig
		write(fn, ff.orig.Text())
	case "removed":
		delete(ff.cfg.Files, ff.path)
	case "malformed":
		ff.cfg.Files[ff.path] = &model.File{Format: ff.orig.Format, Raw: raw}
		write(fn, raw)
	case "directory":
		ff.cfg.Files[ff.path] = &model.File{Format: ff.orig.Format, Raw: "-"}
		if err := os.MkdirAll(fn, 0755); err != nil {
			panic(err)
		}
	}
}

var badConfigs = []string{"version: 5\nhierarchy: [\n", "version: 4\nhierarchy: []\n", "- not a map\n", "version: 5\nbogus: 1\n",
	"version: 5\nhierarchy:\n  - name: a\n    path: x.yaml\n    glob: y\n", "version: 5\nhierarchy:\n  - name: a\n  - name: a\n", "just text"}

type brokenConfig struct {
	cfg *model.Config
	dir string
}

func (b *brokenConfig) file() string {
	fn := b.cfg.FileName
	if fn == "" {
		fn = "hiera.yaml"
	}
	return filepath.Join(b.dir, fn)
}

func (b *brokenConfig) repair() {
	b.cfg.Raw = ""
	if b.cfg.Absent {
		_ = os.Remove(b.file())
	} else {
		write(b.file(), b.cfg.Text())
	}
}

// c13world is a world with things that are, or may become, broken
type c13world struct {
	*gen.G
	w      *model.World
	p      *gen.Profile
	env    *mon.Env
	gw     *gen.W
	f      *faults
	files  []*fileFault
	broken []*brokenConfig
	calls  []model.Event // calls that functions have received
}

func c13profile(g *gen.G) *gen.Profile {
	p := gen.Default()
	p.Entries = 3
	p.Hash, p.Key, p.Dig = 3, 6, 3
	p.Undef = g.Intn(2)
	p.InterpVal = .25
	p.Convert, p.LuOpts = .3, .4
	p.BadStrat = .1
	p.Absent = .05
	p.NoScope = 0
	p.Malformed = .03
	if g.P(.3) {
		p.Cyclic = .3
	}
	if g.P(.4) {
		p.HasModules = true
		p.Providers = [][]string{{"config", "module"}, {"custom1", "config", "module"}}
	} else {
		p.Providers = [][]string{nil, {"config"}, {"custom1", "config"}}
	}
	return p
}

func (c *C) c13make(name string, i int, breakP float64) (*c13world, func()) {
	g := c.G(name, i)
	p := c13profile(g)
	w := gen.Build(g, p)
	type cd struct {
		cfg *model.Config
		dir string
	}
	cfgs := []cd{{w.Cfg, ""}}
	for _, mp := range w.ModPaths {
		for _, m := range mp.Mods {
			if m.Cfg != nil {
				cfgs = append(cfgs, cd{m.Cfg, filepath.Join(mp.Dir, m.Dir)})
			}
		}
	}
	dir := c.Dir()
	w.Write(dir)
	gen.Fill(g, p, w)
	cw := &c13world{G: g, w: w, p: p, gw: gen.NewW(g, p, w), f: &faults{armed: map[string]int{}}}
	for _, cf := range cfgs {
		root := filepath.Join(dir, cf.dir)
		for pth, f := range cf.cfg.Files {
			if f.Format != "txt" {
				cw.files = append(cw.files, &fileFault{cfg: cf.cfg, dir: root, path: pth, orig: f})
			}
		}
		if g.P(breakP) {
			b := &brokenConfig{cf.cfg, root}
			// a module without a configuration is ignored, so an absent one can't be broken
			if !cf.cfg.Absent {
				cf.cfg.Raw = badConfigs[g.Intn(len(badConfigs))]
				write(b.file(), cf.cfg.Raw)
				cw.broken = append(cw.broken, b)
			}
		}
	}
	sortFaults(cw.files)
	cw.env = mon.NewEnv(w)
	cw.env.Hook = cw.f.hook
	return cw, func() { c.Drop(dir) }
}

func sortFaults(ff []*fileFault) {
	for i := range ff {
		for j := i; j > 0 && ff[j].full() < ff[j-1].full(); j-- {
			ff[j], ff[j-1] = ff[j-1], ff[j]
		}
	}
}

// toggle alters what is broken
func (cw *c13world) toggle() string {
	switch n := cw.Intn(10); {
	case n < 1 && len(cw.broken) > 0 && cw.P(.6):
		cw.broken[0].repair()
		cw.broken = cw.broken[1:]
		return "repair config"
	case n < 6 && len(cw.files) > 0:
		ff := cw.files[cw.Intn(len(cw.files))]
		if ff.now != "" {
			ff.set("", "")
			return "repair file"
		}
		how := cw.Pick("removed", "malformed", "malformed", "directory")
		raw := "[1, 2\n"
		if ff.orig.Format == "yaml" {
			raw = cw.Pick("[1, 2\n", "a: b: c\n", "- a list\n", "")
		}
		ff.set(how, raw)
		return "file " + how
	default:
		cw.f.Lock()
		defer cw.f.Unlock()
		if len(cw.f.armed) > 0 && cw.P(.5) {
			ks := []string{}
			for k := range cw.f.armed {
				ks = append(ks, k)
			}
			delete(cw.f.armed, ensureSorted(ks)[cw.Intn(len(ks))])
			return "repair function"
		}
		if len(cw.calls) == 0 {
			return ""
		}
		e := cw.calls[cw.Intn(len(cw.calls))]
		cw.f.armed[callID(e.Fn, e.ID, e.Loc, e.Key)] = cw.Intn(5)
		return "break function"
	}
}

func (cw *c13world) faultsNow() string {
	s := cw.f.String()
	for _, b := range cw.broken {
		s += " config:" + model.RelLoc(cw.w.Root, b.file())
	}
	for _, ff := range cw.files {
		if ff.now != "" {
			s += " " + ff.now + ":" + model.RelLoc(cw.w.Root, ff.full())
		}
	}
	return s
}

func c13(c *C) {
	c.Assume("a plugin whose process ended stays unavailable in its session")
	c.Parallel(c.N(260, 4000), func(i int) { c.c13sequential(i) })
	if c.Violations() == 0 {
		n := c.N(60, 800)
		done := make(chan bool)
		go func() {
			c.Parallel(n, func(i int) { c.c13concurrent(i) })
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(time.Duration(c.N(200, 700)) * time.Second):
			c.Violation("concurrent lookups never end", map[string]interface{}{"blocked": blocked()})
		}
	}
	if c.Violations() == 0 {
		c.Parallel(c.N(16, 96), func(i int) { c.c13plugins(i) })
	}
	c.Need("lookups compared", 5000)
	c.Need("lookups failed by an injected fault", 300)
	c.Need("lookups that recovered", 100)
	c.Need("concurrent lookups", 2000)
	c.Need("concurrent lookups failed by an injected fault", 50)
	c.Need("plugin lookups", 200)
	c.Need("plugin failures", 40)
}

// c13sequential runs a random history of faults, repairs and lookups
func (c *C) c13sequential(i int) {
	cw, drop := c.c13make("seq", i, .25)
	defer drop()
	s := cw.env.Session()
	defer s.KillPlugins()
	var inv api.Invocation
	failed := map[string]bool{}
	var history []string
	for step := 0; step < 45; step++ {
		if step > 4 && cw.P(.3) {
			t := cw.toggle()
			if t != "" {
				history = append(history, t)
				c.Add("steps: "+t, 1)
				inv = nil
			}
			continue
		}
		key := cw.gw.Key()
		if len(failed) > 0 && cw.P(.3) {
			ks := []string{}
			for k := range failed {
				ks = append(ks, k)
			}
			key = ensureSorted(ks)[cw.Intn(len(ks))]
		}
		merge := cw.MergeOpt(.3)
		ev := model.NewEval(cw.w)
		want := ev.Lookup(key, merge)
		if want.Kind == "unsupported" {
			continue
		}
		hit, hitHash := cw.f.hits(ev.Trace)
		reused := inv != nil && cw.P(.6)
		if !reused {
			inv = cw.env.Inv(s, nil)
		}
		cw.env.Take()
		before := atomic.LoadInt64(&cw.f.fired)
		got := mon.Try(func() dgo.Value { return hiera.Lookup(inv, key, nil, MergeArg(merge)) })
		fired := atomic.LoadInt64(&cw.f.fired) > before
		cw.calls = append(cw.calls, cw.env.Take()...)
		if len(cw.calls) > 200 {
			cw.calls = cw.calls[100:]
		}
		c.Add("lookups compared", 1)
		if hit && want.Kind != "error" || fired {
			want = model.Outcome{Kind: "error", Err: "a backend function failed"}
			c.Add("lookups failed by an injected fault", 1)
		}
		_ = hitHash
		id := key + mv.Canon(merge)
		fn := cw.faultsNow()
		c.Case(fn + id + want.Canon())
		if fn != "" {
			c.Seen("distinct sets of faults", fn)
		}
		if want.Kind == "error" {
			failed[key] = true
		} else if failed[key] {
			delete(failed, key)
			c.Add("lookups that recovered", 1)
			c.Sample(map[string]interface{}{"history": append([]string{}, history...), "key": key, "value": want.Canon(), "faults still in force": fn})
		}
		history = append(history, "lookup "+key+" -> "+clip(got.String()))
		bad := ""
		switch {
		case !got.Same(want):
			bad = fmt.Sprintf("lookup of %s in case %d step %d: expected %s, observed %s", key, i, step, want, got)
		case fired && !strings.Contains(got.Err, "fault-") && !strings.Contains(got.Err, "nil"):
			bad = fmt.Sprintf("the error of lookup of %s in case %d step %d does not tell what failed: %s", key, i, step, got.Err)
		}
		if bad != "" {
			c.Violation(bad, map[string]interface{}{"case": i, "step": step, "key": key, "merge": mv.Canon(merge), "faults": fn, "history": history,
				"expected": want.String(), "observed": got.String(), "reused invocation": reused, "world": cw.w.Dump()})
			return
		}
	}
}

// MergeArg creates the options of a lookup
func MergeArg(merge interface{}) interface{} { return mon.MergeOption(merge) }

// c13concurrent lets some of a number of concurrent lookups fail
func (c *C) c13concurrent(i int) {
	cw, drop := c.c13make("conc", i, .5)
	defer drop()
	for n := 0; n < 2 && len(cw.files) > 0; n++ {
		cw.files[cw.Intn(len(cw.files))].set("malformed", "[1, 2\n")
	}
	type lk struct {
		key   string
		merge interface{}
	}
	var lks []lk
	var calls []model.Event
	for len(lks) < 12 {
		l := lk{cw.gw.Key(), cw.MergeOpt(.3)}
		ev := model.NewEval(cw.w)
		if ev.Lookup(l.key, l.merge).Kind != "unsupported" {
			lks = append(lks, l)
			for _, e := range ev.Trace {
				if e.Fn != "hv_hash" {
					calls = append(calls, e)
				}
			}
		}
	}
	armed := ""
	for n := cw.Intn(4); n > 0 && len(calls) > 0; n-- {
		e := calls[cw.Intn(len(calls))]
		if !isLookupOptions(e) || cw.P(.1) {
			cw.f.armed[callID(e.Fn, e.ID, e.Loc, e.Key)] = cw.Intn(5)
		}
	}
	cw.env.NoTrace = true
	s := cw.env.Session()
	for round := 0; round < 3; round++ {
		if round == 1 {
			for _, b := range cw.broken {
				b.repair()
			}
			cw.broken = nil
			for _, ff := range cw.files {
				if ff.now != "" {
					ff.set("", "")
				}
			}
		}
		if round == 2 {
			cw.f.armed = map[string]int{}
		}
		armed = cw.faultsNow()
		want := make([]model.Outcome, len(lks))
		for n, l := range lks {
			ev := model.NewEval(cw.w)
			want[n] = ev.Lookup(l.key, l.merge)
			if hit, _ := cw.f.hits(ev.Trace); hit {
				if want[n].Kind != "error" {
					c.Add("concurrent lookups failed by an injected fault", 6)
				}
				want[n] = model.Outcome{Kind: "error", Err: "a backend function failed"}
			}
		}
		wg := sync.WaitGroup{}
		for r := 0; r < 6; r++ {
			wg.Add(1)
			order := cw.Perm(len(lks))
			reuse := cw.P(.5)
			go func() {
				defer wg.Done()
				inv := cw.env.Inv(s, nil)
				for _, n := range order {
					l := lks[n]
					if !reuse {
						inv = cw.env.Inv(s, nil)
					}
					got := mon.Try(func() dgo.Value { return hiera.Lookup(inv, l.key, nil, MergeArg(l.merge)) })
					c.Add("concurrent lookups", 1)
					c.Case(armed + l.key + mv.Canon(l.merge) + want[n].Canon())
					if want[n].Kind != "unsupported" && !got.Same(want[n]) {
						c.Violation(fmt.Sprintf("concurrent lookup of %s in case %d round %d: expected %s, observed %s", l.key, i, round, want[n], got),
							map[string]interface{}{"case": i, "round": round, "key": l.key, "merge": mv.Canon(l.merge), "faults": armed, "world": cw.w.Dump()})
						return
					}
				}
			}()
		}
		wg.Wait()
		if c.Violations() > 0 {
			return
		}
	}
}

// c13plugins lets plugins fail
func (c *C) c13plugins(i int) {
	g := c.G("plugins", i)
	dir := c.Dir()
	defer c.Drop(dir)
	w := &model.World{Root: dir, Cfg: &model.Config{}, ModPaths: []*model.ModPath{{Dir: "mods"}}, Sess: mv.NewMap("v1", "val")}
	write(filepath.Join(dir, "hiera.yaml"), "version: 5\nhierarchy:\n  - name: good\n    lookup_key: hv_key\n    pluginfile: good\n    options: {data: {g: top}}\n")
	w.Providers = []string{"config", "module"}
	pd := filepath.Join(dir, "plugin")
	if err := os.MkdirAll(pd, 0755); err != nil {
		panic(err)
	}
	link := func(name string) {
		_ = os.Remove(filepath.Join(pd, name))
		if err := os.Symlink(filepath.Join(c.Bin, "plugin"), filepath.Join(pd, name)); err != nil {
			panic(err)
		}
	}
	script := func(name, text string) {
		write(filepath.Join(pd, name), text)
		_ = os.Chmod(filepath.Join(pd, name), 0755)
	}
	link("good")
	module := func(name, kind, fn, file string, opts *mv.Map) {
		m := mv.NewMap("data", mv.NewMap(name+"::k", "value of "+name))
		for _, k := range opts.Keys {
			m.Put(k, opts.Get(k))
		}
		write(filepath.Join(dir, "mods", name, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy",
			mv.L(mv.NewMap("name", "e", kind, fn, "plugindir", pd, "pluginfile", file, "options", m)))))
	}
	type plug struct {
		name   string
		msg    string // of the error
		repair func()
		dead   bool
	}
	var bad []*plug
	none := mv.NewMap()
	module("ok", g.Pick("lookup_key", "data_hash"), "", "", none)
	kf := func() (string, string) {
		k := g.Pick("lookup_key", "data_hash", "data_dig")
		return k, map[string]string{"lookup_key": "hv_key", "data_hash": "hv_hash", "data_dig": "hv_dig"}[k]
	}
	k, fn := kf()
	module("ok", k, fn, "good", none)
	k, fn = kf()
	module("panics", k, fn, "good", mv.NewMap("panic", "boom in plugin"))
	bad = append(bad, &plug{name: "panics", msg: "boom in plugin"})
	module("nofn", "lookup_key", "hv_nope", "good", none)
	bad = append(bad, &plug{name: "nofn", msg: "hv_nope"})
	fileFaults := []struct{ name, text string }{
		{"missing", ""},
		{"exits", "#!/bin/sh\nexit 1\n"},
		{"garbage", "#!/bin/sh\necho this is not JSON\nexec sleep 100\n"},
		{"notmeta", "#!/bin/sh\necho '{\"version\":1}'\nexec sleep 100\n"},
		{"version", "#!/bin/sh\necho '{\"version\":99,\"address\":\"x\",\"network\":\"unix\",\"functions\":{}}'\nexec sleep 100\n"},
		{"functions", "#!/bin/sh\necho '{\"version\":1,\"address\":\"x\",\"network\":\"unix\",\"functions\":{\"lookup_key\":\"hv_key\"}}'\nexec sleep 100\n"},
		{"nofunctions", "#!/bin/sh\necho '{\"version\":1,\"address\":\"x\",\"network\":\"unix\"}'\nexec sleep 100\n"},
		{"noaddress", "#!/bin/sh\necho '{\"version\":1,\"network\":\"unix\",\"functions\":{}}'\nexec sleep 100\n"},
		{"noversion", "#!/bin/sh\necho '{\"address\":\"x\",\"network\":\"unix\",\"functions\":{}}'\nexec sleep 100\n"},
		{"textversion", "#!/bin/sh\necho '{\"version\":\"1\",\"address\":\"x\",\"network\":\"unix\",\"functions\":{}}'\nexec sleep 100\n"},
		{"names", "#!/bin/sh\necho '{\"version\":1,\"address\":\"x\",\"network\":\"unix\",\"functions\":{\"lookup_key\":[\"hv_key\", 1]}}'\nexec sleep 100\n"},
		{"partial", "#!/bin/sh\nprintf '{\"version\":1,\"address\":\"x\"'\n"},
		{"interpreter", "#!/no/such/interpreter\n"},
		{"notprogram", "\x7fELF\x00"},
		{"notexec", "not executable"},
		{"array", "#!/bin/sh\necho '[1]'\nexec sleep 100\n"},
		{"silent", "#!/bin/sh\nexec sleep 100\n"},
	}
	for n := 0; n < 5; n++ {
		x := g.Intn(len(fileFaults) - n)
		if g.P(.5) && x == len(fileFaults)-1 {
			x = 0
		}
		ff := fileFaults[x]
		fileFaults[x] = fileFaults[len(fileFaults)-1-n]
		fileFaults[len(fileFaults)-1-n] = ff
		dup := false
		for _, b := range bad {
			dup = dup || b.name == ff.name
		}
		if dup {
			continue
		}
		k, fn = kf()
		module(ff.name, k, fn, ff.name, none)
		if ff.text != "" {
			script(ff.name, ff.text)
		}
		if ff.name == "notexec" {
			_ = os.Chmod(filepath.Join(pd, ff.name), 0644)
		}
		bad = append(bad, &plug{name: ff.name, repair: func() { link(ff.name) }})
	}
	tr := g.Pick("unix", "tcp")
	// A dead plugin remains unavailable. Not using tcp, since plugins of other sessions then may use its port.
	if tr == "unix" && g.P(.6) {
		link("dies")
		k, fn = kf()
		module("dies", k, fn, "dies", mv.NewMap("die", true))
		bad = append(bad, &plug{name: "dies", dead: true})
	}
	if g.P(.25) {
		k, fn = kf()
		module("slow", k, fn, "good", mv.NewMap("sleep", 5600))
		bad = append(bad, &plug{name: "slow"})
	}
	env := mon.NewEnv(w)
	env.NoTrace = true
	env.Plugins = true
	env.Extra = map[string]interface{}{"pluginTransport": tr, "unixSocketDir": dir}
	s := env.Session()
	ended := make(chan bool)
	go func() {
		defer close(ended)
		defer s.KillPlugins()
		look := func(key, want string) bool {
			got := env.Lookup(s, key, nil)
			c.Add("plugin lookups", 1)
			c.Case(key + want)
			if got.String() != want {
				c.Violation(fmt.Sprintf("lookup of %s in plugin case %d: expected %s, observed %s", key, i, want, got),
					map[string]interface{}{"case": i, "key": key, "world": w.Dump(), "options": fmt.Sprint(env.Extra)})
				return false
			}
			return true
		}
		good := func() bool {
			return look("g", mv.Canon("top")) && look("ok::k", mv.Canon("value of ok")) && look("ok::none", "<absent>")
		}
		fails := func(p *plug) bool {
			got := env.Lookup(s, p.name+"::k", nil)
			c.Add("plugin lookups", 1)
			c.Add("plugin failures", 1)
			c.Add("failures of kind "+p.name, 1)
			c.Case("fail " + p.name)
			if got.Kind != "error" || !strings.Contains(got.Err, p.msg) {
				c.Violation(fmt.Sprintf("lookup of %s::k in plugin case %d: expected an error with the text '%s', observed %s", p.name, i, p.msg, got),
					map[string]interface{}{"case": i, "world": w.Dump()})
				return false
			}
			return true
		}
		wg := sync.WaitGroup{}
		stop := make(chan bool)
		for r := 0; r < 2; r++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
						if !good() {
							return
						}
						time.Sleep(30 * time.Millisecond)
					}
				}
			}()
		}
		fw := sync.WaitGroup{}
		for _, p := range bad {
			p := p
			fw.Add(1)
			go func() {
				defer fw.Done()
				for n := 0; n < 2; n++ {
					if !fails(p) {
						return
					}
					if p.name == "silent" || p.name == "slow" {
						break
					}
				}
				if p.repair != nil {
					p.repair()
					if look(p.name+"::k", mv.Canon("value of "+p.name)) {
						c.Add("plugins that recovered", 1)
					}
				}
			}()
		}
		fw.Wait()
		close(stop)
		wg.Wait()
		good()
	}()
	select {
	case <-ended:
	case <-time.After(60 * time.Second):
		c.Violation(fmt.Sprintf("the lookups or the end of the session of plugin case %d never end", i), map[string]interface{}{"case": i, "blocked": blocked(), "world": w.Dump()})
	}
}
