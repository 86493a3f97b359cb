package checks

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"github.com/sirupsen/logrus"

	"hv/gen"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C30", "an operation in one of several sessions that exist at the same time; distinct by session, operation and outcome", c30)
	Modes["c30child"] = c30child
}

// A tenant makes sessions of one kind
type tenant struct {
	name string
	mk   func() api.Session
	end  func(s api.Session) // uses the session and ends it, unless nil
	ops  []*op
	dump func() interface{}
}

// together lets several go routines create, use and end sessions of the tenants
func together(out *childOut, r *rand.Rand, name string, ts []*tenant, routines, rounds int, busy *int64, late bool) bool {
	alone := func() bool {
		for _, t := range ts {
			for _, o := range t.ops {
				s := t.mk()
				got := o.f(s)
				s.KillPlugins()
				if o.want != "" && got.Canon != o.want {
					out.say(childReport{Kind: "bad", Text: fmt.Sprintf("%s: %s of %s gives %s when there is no other session, expected %s", name, o.desc, t.name, got, o.want), Detail: map[string]interface{}{"world": t.dump()}})
					return false
				}
				o.want = got.Canon
			}
		}
		return true
	}
	if !late && !alone() {
		return false
	}
	type result struct {
		t   *tenant
		o   *op
		got mon.Obs
		n   int
	}
	var lock sync.Mutex
	results := map[string]*result{}
	start := make(chan struct{})
	var wg sync.WaitGroup
	var open, most int64
	for i := 0; i < routines; i++ {
		seed := r.Int63()
		first := ts[i%len(ts)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			<-start
			for n := 0; n < rounds; n++ {
				t := first
				if n > 0 {
					t = ts[r.Intn(len(ts))]
				}
				s := t.mk()
				if k := atomic.AddInt64(&open, 1); k > atomic.LoadInt64(&most) {
					atomic.StoreInt64(&most, k)
				}
				use := func(perm []int) {
					for _, k := range perm {
						o := t.ops[k]
						got := o.f(s)
						atomic.AddInt64(busy, 1)
						id := fmt.Sprint(t.name, " ", k, " ", got.Canon)
						lock.Lock()
						if e := results[id]; e != nil {
							e.n++
						} else {
							results[id] = &result{t, o, got, 1}
						}
						lock.Unlock()
					}
				}
				p1, p2 := r.Perm(len(t.ops)), r.Perm(len(t.ops))
				if r.Intn(3) == 0 { // two go routines share the session
					done := make(chan struct{})
					go func() { use(p2); close(done) }()
					use(p1)
					<-done
				} else {
					use(p1)
				}
				if t.end != nil {
					t.end(s)
				}
				atomic.AddInt64(&open, -1)
				s.KillPlugins()
			}
		}()
	}
	close(start)
	wg.Wait()
	if late && !alone() {
		return false
	}
	for _, e := range results {
		if e.got.Canon != e.o.want {
			out.say(childReport{Kind: "bad", Text: fmt.Sprintf("%s: %s of %s gives %s while there are other sessions, alone it gives %s", name, e.o.desc, e.t.name, e.got, e.o.want), Detail: map[string]interface{}{"world": e.t.dump()}})
			return false
		}
		out.say(childReport{Kind: "case", Text: e.t.name + e.o.desc + e.o.want, N: e.n})
		out.count(e.o.kind, e.n)
	}
	if most > 1 {
		out.count("cases where sessions overlap", 1)
	}
	return true
}

// c30shared makes sessions that use the same configuration, and differ in their scope, functions, providers and dialect
func c30shared(g *gen.G, dir, plugin string, out *childOut, name string) []*tenant {
	pl := g.P(.4)
	h := mv.L(
		mv.NewMap("name", "fn", "lookup_key", "who_fn"),
		mv.NewMap("name", "hash", "data_hash", "who_hash", "options", mv.NewMap("o", "%{tenant}")),
		mv.NewMap("name", "own", "path", "%{tenant}.yaml"),
		mv.NewMap("name", "all", "paths", mv.L("common.yaml", "more.yaml")))
	if pl {
		h = append(h, mv.NewMap("name", "plugin", "lookup_key", "hv_exe", "plugindir", "plugin"))
		_ = os.MkdirAll(filepath.Join(dir, "plugin"), 0755)
		if err := os.Symlink(plugin, filepath.Join(dir, "plugin", "hv_exe")); err != nil {
			panic(err)
		}
	}
	// The sessions may also have a loader in common
	var parent dgo.Loader
	common := false
	switch g.Intn(3) {
	case 0:
		parent = loader.New(nil, "", nil, nil, nil)
	case 1:
		parent = loader.New(nil, "", nil, nil, func(l dgo.Loader, name string) dgo.Loader {
			if name == "function" {
				return loader.New(l, name, vf.Map("common_fn", func(pc sdk.ProviderContext, key string) dgo.Value {
					if key == "incommon" {
						return pc.Option("o")
					}
					return nil
				}), nil, nil)
			}
			return nil
		})
		parent.Namespace("function")
		common = true
		h = append(h, mv.NewMap("name", "common", "lookup_key", "common_fn", "options", mv.NewMap("o", "%{tenant}")))
	}
	write(filepath.Join(dir, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "defaults", mv.NewMap("datadir", g.Pick("d", "%{sub}")), "hierarchy", h)))
	lo := mv.NewMap("num", mv.NewMap("convert_to", g.Pick("int", "Integer")), "l", mv.NewMap("merge", g.Pick("unique", "first")))
	for _, d := range []string{"d", "e"} {
		write(filepath.Join(dir, d, "common.yaml"), mv.YAML(mv.NewMap("lookup_options", lo, "data", "common %{tenant}", "l", mv.L("c", "%{tenant}"), "num", "12", "x", "%{lookup('data')} %{who}", "set", "%{settings.level} %{settings.list.1.0}")))
	}
	write(filepath.Join(dir, "y.yaml"), "yaml: y\n")
	// values of the application, which are mutable, and which it gives to all sessions
	settings := vf.MutableMap()
	settings.Put("level", "high")
	settings.Put("list", vf.MutableValues("a", vf.MutableValues("b")))
	mutableScope := g.P(.6)
	var ts []*tenant
	var lock sync.Mutex
	pids := map[string]api.Session{}
	for i := 0; i < 3+g.Intn(2); i++ {
		id := fmt.Sprintf("t%d", i)
		sub := g.Pick("d", "e")
		for _, d := range []string{"d", "e"} {
			write(filepath.Join(dir, d, id+".yaml"), mv.YAML(mv.NewMap("data", "data of "+id+" in "+d, "l", mv.L(id, "%{tenant}"))))
		}
		opts := map[string]interface{}{
			api.HieraConfig:      filepath.Join(dir, "hiera.yaml"),
			api.HieraDialect:     g.Pick("dgo", "pcore"),
			api.HieraScope:       map[string]interface{}{"tenant": id, "sub": sub},
			"path":               filepath.Join(dir, "y.yaml"),
			"pluginTransport":    "unix",
			"unixSocketDir":      dir,
			"an option of " + id: "x",
			api.HieraFunctions: vf.Map("who_fn", func(pc sdk.ProviderContext, key string) dgo.Value {
				if key == "who" {
					return vf.String("function of " + id)
				}
				return nil
			}, "who_hash", func(pc sdk.ProviderContext) dgo.Map {
				return vf.Map("whose", "hash of "+id, "o", pc.Option("o"))
			}),
		}
		if mutableScope {
			m := vf.MutableMap()
			m.Put("tenant", id)
			m.Put("sub", sub)
			m.Put("settings", settings)
			opts[api.HieraScope] = m
			opts["settings"] = settings
		}
		var top sdk.LookupKey
		switch g.Intn(3) {
		case 0:
			top = provider.MuxLookupKey
			opts[provider.LookupKeyFunctions] = []sdk.LookupKey{provider.ConfigLookupKey, func(_ sdk.ProviderContext, key string) dgo.Value {
				if key == "mine" {
					return vf.String("provider of " + id)
				}
				return nil
			}, provider.YamlLookupKey}
		case 1:
			top = provider.ConfigLookupKey
		}
		mux := top != nil && i >= 0 && opts[provider.LookupKeyFunctions] != nil
		t := &tenant{name: id, dump: func() interface{} { return map[string]interface{}{"directory": dir, "plugin": pl} }}
		t.mk = func() api.Session {
			o := map[string]interface{}{}
			for k, v := range opts {
				o[k] = v
			}
			return session.New(context.Background(), top, o, parent)
		}
		add := func(key, want string) {
			t.ops = append(t.ops, &op{desc: "lookup " + key, kind: "lookup with a shared configuration", want: want, f: func(s api.Session) mon.Obs {
				return mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), key, nil, nil) })
			}})
		}
		known := func(s string) string { return mon.Try(func() dgo.Value { return vf.String(s) }).Canon }
		add("who", known("function of "+id))
		add("whose", known("hash of "+id))
		add("o", known(id))
		if parent != nil {
			out.count("sessions with a loader in common", 1)
		}
		if common {
			add("incommon", known(id))
		} else {
			add("incommon", mon.Try(func() dgo.Value { return nil }).Canon)
		}
		add("data", "")
		add("l", "")
		add("num", "")
		add("x", "")
		add("nothing", "")
		if mutableScope {
			add("set", known("high b"))
			out.count("sessions that are given values that the application may alter", 1)
		} else {
			add("set", known(" "))
		}
		if mux {
			add("mine", known("provider of "+id))
			add("yaml", known("y"))
		} else {
			add("mine", mon.Try(func() dgo.Value { return nil }).Canon)
			add("yaml", mon.Try(func() dgo.Value { return nil }).Canon)
		}
		for _, tp := range []string{"int", "Integer", "map[string]any"} {
			tp := tp
			t.ops = append(t.ops, &op{desc: "rendering num as " + tp, kind: "rendered lookup with a shared configuration", f: func(s api.Session) mon.Obs {
				return mon.Try(func() dgo.Value {
					b := bytes.Buffer{}
					ok := hiera.LookupAndRender(s, &hiera.CommandOptions{Type: tp, RenderAs: "json"}, []string{"num"}, &b)
					return vf.Values(ok, b.String())
				})
			}})
		}
		if pl {
			t.end = func(s api.Session) {
				o := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), "pid", nil, nil) })
				if o.Kind != "value" {
					out.say(childReport{Kind: "bad", Text: fmt.Sprintf("%s: the plugin of a session gives %s while other sessions start and end theirs", name, o), Detail: nil})
					return
				}
				lock.Lock()
				other := pids[o.Canon]
				pids[o.Canon] = s
				lock.Unlock()
				if other != nil {
					out.say(childReport{Kind: "bad", Text: fmt.Sprintf("%s: two sessions use the same plugin process %s", name, o), Detail: nil})
				}
				time.Sleep(time.Millisecond)
				again := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), "pid", nil, nil) })
				if again.Canon != o.Canon {
					out.say(childReport{Kind: "bad", Text: fmt.Sprintf("%s: the plugin of a session changes from %s to %s while other sessions start and end theirs", name, o, again), Detail: nil})
				}
				lock.Lock()
				delete(pids, o.Canon)
				lock.Unlock()
				out.count("plugin processes of a session", 1)
			}
		}
		ts = append(ts, t)
	}
	return ts
}

func c30child(args []string) int {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	from, _ := strconv.Atoi(args[1])
	to, _ := strconv.Atoi(args[2])
	tmp, plugin := args[3], args[4]
	logrus.SetOutput(io.Discard)
	out := newChildOut()
	var busy int64
	go watch(out, &busy)
	for i := from; i < to; i++ {
		g := gen.New(seed, "C30", i)
		r := rand.New(rand.NewSource(seed + int64(i)))
		dir := filepath.Join(tmp, strconv.Itoa(i))
		_ = os.MkdirAll(dir, 0755)
		name := fmt.Sprintf("case %d", i)
		var ts []*tenant
		if g.P(.6) {
			ts = c30shared(g, filepath.Join(dir, "s"), plugin, out, name)
		}
		for k := 0; k < 3 && (len(ts) == 0 || g.P(.5)); k++ {
			p := c11profile(g)
			w := gen.Build(g, p)
			w.Write(filepath.Join(dir, fmt.Sprintf("w%d", k)))
			gen.Fill(g, p, w)
			env := mon.NewEnv(w)
			env.NoTrace = true
			env.Hook = delays(seed + int64(i))
			t := &tenant{name: fmt.Sprintf("world %d", k), mk: env.Session, ops: worldOps(g, p, w, env, 4), dump: w.Dump}
			ts = append(ts, t)
		}
		ok := together(out, r, name, ts, 6+g.Intn(7), 3, &busy, i%2 == 0)
		_ = os.RemoveAll(dir)
		if !ok {
			break
		}
		out.say(childReport{Kind: "done", N: i})
	}
	atomic.StoreInt64(&busy, -1<<40)
	out.say(childReport{Kind: "end"})
	return 0
}

func c30(c *C) {
	n, chunk := c.N(300, 6000), c.N(30, 60)
	var next int64 = -1
	wg := sync.WaitGroup{}
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				f := int(atomic.AddInt64(&next, 1)) * chunk
				if f >= n || c.Violations() >= 5 {
					return
				}
				c.runChild("concurrent sessions", []string{"c30child", fmt.Sprint(c.Seed), fmt.Sprint(f), fmt.Sprint(f + chunk), "@TMP", filepath.Join(c.Bin, "plugin")}, []int{2, 4, 8, 3}[f/chunk%4])
			}
		}()
	}
	wg.Wait()
	c.Need("worlds", int64(n*9/10))
	c.Need("cases where sessions overlap", int64(n*8/10))
	c.Need("plugin processes of a session", 300)
	c.Need("lookup with a shared configuration", 20000)
}
