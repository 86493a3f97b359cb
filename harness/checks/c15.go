package checks

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"github.com/sirupsen/logrus"

	"hv/fns"
	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C15", "a lookup that called a function in a plugin; distinct by key, options and outcome", c15)
}

// fractions replaces floats with an integer value, which JSON can't tell from integers
func fractions(v interface{}) interface{} {
	switch v := v.(type) {
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1e18 {
			return v + .5
		}
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = fractions(e)
		}
		return r
	case *mv.Map:
		if v == nil {
			return v
		}
		r := mv.NewMap()
		for _, k := range v.Keys {
			r.Put(fractions(k), fractions(v.Get(k)))
		}
		return r
	case mv.Sensitive:
		return mv.Sensitive{V: fractions(v.V)}
	}
	return v
}

// configs calls the function with each configuration of the world and its directory
func configs(w *model.World, f func(cfg *model.Config, dir string)) {
	f(w.Cfg, "")
	for _, mp := range w.ModPaths {
		for _, m := range mp.Mods {
			if m.Cfg != nil {
				f(m.Cfg, filepath.Join(mp.Dir, m.Dir))
			}
		}
	}
}

func (c *C) linkPlugin(fn string) {
	if err := os.MkdirAll(filepath.Dir(fn), 0755); err != nil {
		panic(err)
	}
	if err := os.Symlink(filepath.Join(c.Bin, "plugin"), fn); err != nil && !os.IsExist(err) {
		panic(err)
	}
}

func c15(c *C) {
	logrus.SetOutput(io.Discard) // also gets what plugins write on stderr
	c.Assume("floats with an integer value are excluded since JSON can't tell them from integers, and the special keys __ref and __type of rich data in JSON are not used")
	c.RunWorlds(WorldRun{Name: "worlds", Worlds: c.N(150, 2500), Keys: 10, MergeP: .4,
		Profile: func(g *gen.G) *gen.Profile {
			p := gen.Default()
			p.Entries = 4
			p.Yaml, p.JSON, p.Hash, p.Key, p.Dig, p.Undef = 1, 0, 5, 6, 4, 0
			p.OptionsP = .8
			p.InterpCfg = .3
			p.Absent = .02
			if g.P(.3) {
				p.HasModules = true
				p.Providers = [][]string{{"config", "module"}}
			}
			return p
		},
		Tweak: func(g *gen.G, w *model.World) {
			configs(w, func(cfg *model.Config, _ string) {
				es := cfg.Entries
				if cfg.Defaults != nil {
					cfg.Defaults.Options, _ = fractions(cfg.Defaults.Options).(*mv.Map)
					if g.P(.5) {
						cfg.Defaults.PluginDir = g.Pick("pd", "./pd/../pd", "p%{undef}d")
					}
				}
				for _, e := range es {
					if e.Options != nil {
						e.Options = fractions(e.Options).(*mv.Map)
					}
					if !strings.HasPrefix(e.FnKind, "l") && !strings.HasPrefix(e.FnKind, "d") {
						continue
					}
					if g.P(.3) {
						e.PluginDir = g.Pick("pd", "plugin", "p%{undef}d", "pd/../plugin")
					}
					if g.P(.4) {
						e.PluginFile = g.Pick("other", "sub/one", "../pd/other")
					}
				}
			})
		},
		Prepare: func(g *gen.G, w *model.World, dir string, env *mon.Env) {
			ts := map[string]map[string]string{}
			for id, locs := range w.Tables {
				m := map[string]string{}
				for loc, t := range locs {
					locs[loc] = fractions(t).(*mv.Map)
					m[loc] = mv.Encode(locs[loc])
				}
				ts[id] = m
			}
			bs, err := json.Marshal(map[string]interface{}{"Root": w.Root, "Tables": ts})
			if err != nil {
				panic(err)
			}
			write(filepath.Join(dir, "hv-tables.json"), string(bs))
			configs(w, func(_ *model.Config, d string) {
				for _, pd := range []string{"plugin", "pd"} {
					for _, f := range []string{"hv_hash", "hv_key", "hv_dig", "other", "sub/one"} {
						c.linkPlugin(filepath.Join(dir, d, pd, f))
					}
				}
			})
			env.Log = filepath.Join(dir, "hv-calls.log")
			env.Plugins = true
			env.Extra = map[string]interface{}{"pluginTransport": g.Pick("unix", "tcp"), "unixSocketDir": dir}
			if g.P(.2) {
				// both the default
				env.Extra = nil
			}
		}})
	if c.Violations() == 0 {
		c.Parallel(c.N(240, 2500), func(i int) { c.c15values(i) })
	}
	if c.Violations() == 0 {
		c.Parallel(c.N(24, 400), func(i int) { c.c15answers(i) })
	}
	if c.Violations() == 0 {
		c.Parallel(c.N(16, 160), func(i int) { c.c15concurrent(i) })
	}
	if c.Violations() == 0 {
		c.Parallel(c.N(12, 100), func(i int) { c.c15unresolved(i) })
		c.Parallel(c.N(60, 600), func(i int) { c.c15same(i) })
	}
	c.Need("functions that the plugin doesn't have", 60)
	c.Need("backend calls observed", 1500)
	c.Need("calls with rich options", 800)
	c.Need("rich values returned", 300)
	c.Need("failures in a plugin", 60)
	c.Need("functions without options", 20)
	c.Need("concurrent calls", 2000)
	c.Need("answers of plugins", 1000)
}

// c15unresolved uses functions that the plugin doesn't have, which is an error, also when the lookup is explained
func (c *C) c15unresolved(i int) {
	g := c.G("unresolved", i)
	dir := c.Dir()
	defer c.Drop(dir)
	c.linkPlugin(filepath.Join(dir, "plugin", "p1"))
	write(filepath.Join(dir, "data", "common.yaml"), "a: [1]\n")
	kinds := []string{"data_hash", "lookup_key", "data_dig"}
	conf := func(name, kind, fn string) string {
		h := mv.L(mv.NewMap("name", "e", kind, fn, "pluginfile", "p1", "options", mv.NewMap("value", "found", "keys", mv.L("a"))), mv.NewMap("name", "last", "path", "common.yaml"))
		t := mv.JSON(mv.NewMap("version", 5, "hierarchy", h))
		write(filepath.Join(dir, name), t)
		return t
	}
	n := g.Intn(3)
	t := conf("hiera.yaml", kinds[n], fmt.Sprint("fn_unknown", g.Intn(3)))
	conf("good.yaml", kinds[n], []string{"fn_hash", "fn_key", "fn_dig"}[n])
	opts := map[string]interface{}{api.HieraRoot: dir, "pluginTransport": g.Pick("unix", "tcp"), "unixSocketDir": dir}
	s := session.New(context.Background(), func(pc sdk.ProviderContext, key string) dgo.Value {
		if strings.HasPrefix(key, "good_") {
			return provider.ConfigLookupKeyAt(pc.(api.ServerContext), filepath.Join(dir, "good.yaml"), key[5:], "")
		}
		return provider.ConfigLookupKey(pc, key)
	}, opts, nil)
	defer s.KillPlugins()
	for n := 0; n < 8; n++ {
		k := g.Pick("a", "missing", "a.0", "good_a")
		var ex api.Explainer
		if g.P(.5) {
			ex = explain.NewExplainer(g.P(.5), false)
		}
		o := mon.Try(func() dgo.Value {
			return hiera.Lookup(s.Invocation(nil, ex), k, nil, map[string]string{"merge": g.Pick("first", "deep", "hash")})
		})
		c.Case(fmt.Sprint("unresolved", i, k))
		c.Add("functions that the plugin doesn't have", 1)
		if k == "good_a" {
			if o.Kind != "value" || !strings.Contains(o.Canon, `"value":"found"`) {
				c.Violation(fmt.Sprintf("lookup with a function of the same plugin gives %s", o), t)
				return
			}
		} else if o.Kind != "error" || !strings.Contains(o.Err, "fn_unknown") {
			c.Violation(fmt.Sprintf("lookup of %s, with a function that the plugin doesn't have, gives %s (explained: %v)", k, o, ex != nil), t)
			return
		}
	}
}

// rich generates any value that can be transferred
func rich(g *gen.G, depth int) interface{} {
	n := 12
	if depth > 0 {
		n = 16
	}
	switch g.Intn(n) {
	case 0:
		return mv.Null{}
	case 1:
		return g.P(.5)
	case 2:
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, int64(g.Uint64())}[g.Intn(8)]
	case 3:
		return fractions([]float64{.1, -.5, math.Pi, 1e-300, 1.5e300, math.MaxFloat64, math.SmallestNonzeroFloat64, g.NormFloat64()}[g.Intn(8)])
	case 4:
		return mv.Binary(g.Pick("", "\x00\xff\xfe", "text", strings.Repeat("\x01", 300)))
	case 5:
		return strings.Repeat(g.Pick("a", "é", "\"", "\\", "&=", "+ ", "<>"), g.Intn(400))
	case 6, 7:
		return g.Pick("", " ", "a&b=c", "a+b", "100%", "%41", "%zz", "a;b", "a#b?c/d", "\x00\x01\x1f", "\u2028\u2029", "line\r\nbreak\n", "日本\U0001F600", "\"q\"", "__type", "null", "1", "1.5", "true", "~", "<script>&amp;", "\ufeff", "\u007f")
	case 8, 9, 10, 11:
		return g.Str()
	case 12, 13:
		l := make([]interface{}, g.Intn(4))
		for i := range l {
			l[i] = rich(g, depth-1)
		}
		return l
	default:
		m := mv.NewMap()
		for n := g.Intn(4); n > 0; n-- {
			switch g.Intn(6) {
			case 0:
				m.Put(int64(g.Intn(5)), rich(g, depth-1))
			case 1:
				m.Put(g.Pick("", "a b", "é", "x.y", "0", "__value", "a\nb"), rich(g, depth-1))
			default:
				m.Put(g.Pick("k1", "k2", "k3", "k4"), rich(g, depth-1))
			}
		}
		return m
	}
}

// shared makes a value where the same parts occur many times
func shared(g *gen.G) interface{} {
	a, b := rich(g, 2), rich(g, 1)
	s := strings.Repeat("long", 10)
	return mv.L(a, b, a, mv.NewMap("a", a, "b", b, "s", s), mv.L(a, mv.L(b, s)), s, mv.NewMap("a", a, "b", b, "s", s))
}

// noInterp replaces what would be an interpolation
func noInterp(v interface{}) interface{} {
	switch v := v.(type) {
	case string:
		return strings.ReplaceAll(v, "%{", "%")
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = noInterp(e)
		}
		return r
	case *mv.Map:
		r := mv.NewMap()
		for _, k := range v.Keys {
			r.Put(noInterp(k), noInterp(v.Get(k)))
		}
		return r
	case mv.Sensitive:
		return mv.Sensitive{V: noInterp(v.V)}
	}
	return v
}

// plain replaces what options can't have: binaries and keys that aren't strings
func plain(v interface{}) interface{} {
	switch v := v.(type) {
	case mv.Binary:
		return "bin"
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = plain(e)
		}
		return r
	case *mv.Map:
		r := mv.NewMap()
		for _, k := range v.Keys {
			if n, ok := k.(int64); ok {
				r.Put(fmt.Sprint(n), plain(v.Get(k)))
			} else {
				r.Put(k, plain(v.Get(k)))
			}
		}
		return r
	}
	return v
}

var oddRoots = []string{"k", "key with blank", "a&b=c", "a+b", "%41%zz", "x;y", "a#b?c/d", "日本", "tab\there", "a.b", "0", "'", "__type", "<a>", "::", "..", "key", "options", "\x01", strings.Repeat("k", 2000)}

func quoteRoot(k string) string {
	if strings.Contains(k, "'") {
		return `"` + k + `"`
	}
	return "'" + k + "'"
}

// c15values compares what a function in a plugin receives and returns with what the same function does in-process
func (c *C) c15values(i int) {
	g := c.G("values", i)
	dir := c.Dir()
	defer c.Drop(dir)
	tr := g.Pick("unix", "tcp")
	type ent struct {
		name, kind, root string
		opts             *mv.Map
		ret              interface{}
	}
	var es []*ent
	h := mv.L()
	// one configuration with many entries, each with a key of its own
	used := map[string]bool{}
	for n := 0; n < 8; n++ {
		root := oddRoots[g.Intn(len(oddRoots))]
		if used[root] {
			continue
		}
		used[root] = true
		kind := g.Pick("hash", "key", "key", "dig", "dig")
		if kind == "hash" && root == "__type" {
			continue
		}
		e := &ent{name: fmt.Sprintf("e%d", n), kind: kind, root: root, opts: mv.NewMap("keys", mv.L(root))}
		switch g.Intn(7) {
		case 0:
			// The value returned is rich
			e.ret = noInterp(fractions(shared(g)))
			e.opts.Put("return", mv.Encode(e.ret))
		case 1, 2:
			e.ret = noInterp(fractions(rich(g, 3)))
			if g.P(.2) {
				e.ret = mv.Sensitive{V: e.ret}
			}
			e.opts.Put("return", mv.Encode(e.ret))
		case 3:
			e.opts.Put("value", plain(noInterp(fractions(shared(g)))))
		default:
			e.opts.Put("value", plain(noInterp(fractions(rich(g, 3)))))
			if g.P(.2) {
				e.opts.Put(g.Pick("option", "name-with_more", "key", "return2"), plain(noInterp(fractions(rich(g, 1)))))
			}
		}
		es = append(es, e)
	}
	for _, e := range es {
		h = append(h, mv.NewMap("name", e.name, map[string]string{"hash": "data_hash", "key": "lookup_key", "dig": "data_dig"}[e.kind], "fn_"+e.kind,
			"pluginfile", g.Pick("p1", "p2"), "options", e.opts))
	}
	if g.P(.4) {
		k := g.Pick("key", "hash", "dig")
		h = append(h, mv.NewMap("name", "no options", map[string]string{"hash": "data_hash", "key": "lookup_key", "dig": "data_dig"}[k], "fn_"+k, "pluginfile", g.Pick("p1", "p2")))
		c.Add("functions without options", 1)
	}
	// the last entry fails for everything that isn't found in the others
	fk := g.Pick("key", "dig")
	msg := g.Pick("boom", "a message with \"quotes\" & <tags>", "line one\nline two", "100% é", strings.Repeat("m", 3000))
	var failKey string
	if g.P(.5) {
		failKey = g.Pick("panic", "error")
		h = append(h, mv.NewMap("name", "fail", map[string]string{"key": "lookup_key", "dig": "data_dig"}[fk], "fn_"+fk, "pluginfile", "p1", "options", mv.NewMap(failKey, msg)))
	}
	write(filepath.Join(dir, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", h)))
	c.linkPlugin(filepath.Join(dir, "plugin", "p1"))
	c.linkPlugin(filepath.Join(dir, "plugin", "p2"))
	funcs := vf.Map("fn_hash", fns.Hash, "fn_key", fns.Key, "fn_dig", fns.Dig)
	run := func(opts map[string]interface{}, f func(s api.Session)) {
		opts[api.HieraRoot] = dir
		hiera.DoWithParent(nil, nil, opts, f)
	}
	keys := []string{}
	for _, e := range es {
		q := quoteRoot(e.root)
		keys = append(keys, q)
		if e.ret == nil {
			keys = append(keys, q+".options", q+".value", q+".key", q+".nope.1", q+".0")
		} else {
			keys = append(keys, q+".k1", q+".0")
		}
	}
	keys = append(keys, "missing", "missing.a.0.'x.y'")
	look := func(s api.Session) (r []mon.Obs) {
		for _, k := range keys {
			r = append(r, mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), k, nil, nil) }))
		}
		return
	}
	var in, out []mon.Obs
	run(map[string]interface{}{api.HieraFunctions: funcs}, func(s api.Session) { in = look(s) })
	run(map[string]interface{}{"pluginTransport": tr, "unixSocketDir": dir}, func(s api.Session) { out = look(s) })
	detail := func(n int) map[string]interface{} {
		bs, _ := os.ReadFile(filepath.Join(dir, "hiera.yaml"))
		return map[string]interface{}{"case": i, "key": keys[n], "transport": tr, "in-process": in[n].String(), "plugin": out[n].String(), "hiera.yaml": string(bs)}
	}
	for n, k := range keys {
		c.Case(k + in[n].String())
		c.Add("lookups compared", 1)
		if in[n].Canon != out[n].Canon {
			c.Violation(fmt.Sprintf("lookup of %s in case %d: %s in-process, %s in a plugin", clip(k), i, clip(in[n].String()), clip(out[n].String())), detail(n))
			return
		}
		if in[n].Kind == "error" && failKey != "" && strings.HasPrefix(k, "missing") {
			c.Add("failures in a plugin", 1)
			if !strings.Contains(out[n].Err, msg) {
				c.Violation(fmt.Sprintf("lookup of %s in case %d: the error from the plugin lacks the message: %s", k, i, clip(out[n].Err)), detail(n))
				return
			}
		}
	}
	n := 0
	for _, e := range es {
		// what the model expects
		o := mv.NewMap()
		for _, k := range e.opts.Keys {
			o.Put(k, e.opts.Get(k))
		}
		want := ""
		if e.ret != nil {
			c.Add("rich values returned", 1)
			want = mv.Canon(e.ret)
			if out[n].Canon != want {
				c.Violation(fmt.Sprintf("the value of %s returned by a plugin in case %d is %s, expected %s", clip(e.root), i, clip(out[n].String()), clip(want)), detail(n))
				return
			}
			n += 3
			continue
		}
		c.Add("calls with rich options", 1)
		want = mv.Canon(mv.Canon(o))
		if out[n+1].Canon != want && e.kind != "dig" {
			c.Violation(fmt.Sprintf("the options received by a plugin in case %d are %s, expected %s", i, clip(out[n+1].String()), clip(want)), detail(n+1))
			return
		}
		n += 6
	}
}

// c15concurrent makes concurrent calls where each should get the answer of its own
func (c *C) c15concurrent(i int) {
	g := c.G("conc", i)
	dir := c.Dir()
	defer c.Drop(dir)
	tr := g.Pick("unix", "tcp")
	h := mv.L()
	const nk = 24
	keys := make([]interface{}, nk)
	for n := range keys {
		keys[n] = fmt.Sprintf("k%d", n)
	}
	for n, kind := range []string{"key", "dig", "hash"} {
		h = append(h, mv.NewMap("name", kind, map[string]string{"hash": "data_hash", "key": "lookup_key", "dig": "data_dig"}[kind], "fn_"+kind,
			"pluginfile", g.Pick("p1", "p2"), "options", mv.NewMap("keys", mv.L(keys[n*8:n*8+8]...), "value", g.Str(), "n", n)))
	}
	write(filepath.Join(dir, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", h)))
	c.linkPlugin(filepath.Join(dir, "plugin", "p1"))
	c.linkPlugin(filepath.Join(dir, "plugin", "p2"))
	look := func(s api.Session, k string) mon.Obs {
		return mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), k, nil, nil) })
	}
	want := map[string]string{}
	hiera.DoWithParent(nil, nil, map[string]interface{}{api.HieraRoot: dir,
		api.HieraFunctions: vf.Map("fn_hash", fns.Hash, "fn_key", fns.Key, "fn_dig", fns.Dig)}, func(s api.Session) {
		for _, k := range keys {
			want[k.(string)] = look(s, k.(string)).Canon
		}
	})
	hiera.DoWithParent(nil, nil, map[string]interface{}{api.HieraRoot: dir, "pluginTransport": tr, "unixSocketDir": dir}, func(s api.Session) {
		wg := sync.WaitGroup{}
		for r := 0; r < 10; r++ {
			wg.Add(1)
			order := g.Perm(nk)
			go func() {
				defer wg.Done()
				for _, n := range order {
					k := keys[n].(string)
					o := look(s, k)
					c.Add("concurrent calls", 1)
					c.Case("conc" + k + o.Canon)
					if o.Canon != want[k] {
						c.Violation(fmt.Sprintf("concurrent lookup of %s in case %d: %s, expected %s", k, i, clip(o.String()), clip(want[k])),
							map[string]interface{}{"case": i, "transport": tr, "key": k})
						return
					}
				}
			}()
		}
		wg.Wait()
	})
}
