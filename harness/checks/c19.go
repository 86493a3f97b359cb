package checks

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C19", "a lookup with modules that found a value or called a backend function; distinct by key, value and calls", c19)
}

var c19keys = []string{"alpha", "one::alpha", "two::beta", "one::list", "One::alpha", "ones::map", "one::two::list", "three::map", "on::x.y", "two::one::scalar"}

func c19profile(g *gen.G) *gen.Profile {
	p := gen.Default()
	p.Keys = c19keys
	p.HasModules = true
	p.Providers = [][]string{{"config", "module"}, {"module"}, {"module", "config"}, {"custom1", "module", "config"}, {"config", "module", "env"}}
	p.Entries = 3
	p.Sparse, p.LuOpts, p.Strategy = .3, .6, .7
	p.Missing = .15
	p.InterpVal, p.InterpCfg = .12, .15
	return p
}

func c19key(w *gen.W) string {
	k := c19keys[w.Intn(len(c19keys))]
	switch w.Intn(14) {
	case 0:
		return w.Pick("ONE", "TWO", "Two", "oNe", "ONES", "Three") + "::" + w.Pick("alpha", "beta", "list", "map")
	case 1:
		return w.Pick("nope::alpha", "::alpha", "one:alpha", "one:::alpha", "'../mods0/one::alpha'", "'/one::alpha'", "'./one::alpha'", "one/::alpha", "one", "one::", "mods0::alpha", "on::alpha", "tw::beta", "o*::alpha", " one::alpha", "hiera::alpha")
	case 2:
		return w.Pick(k+".a", k+".0", "'"+k+"'")
	case 3:
		return w.Key()
	}
	return k
}

func c19(c *C) {
	each := func(wc *WorldCase) {
		root := strings.Trim(strings.SplitN(wc.Key, ".", 2)[0], "'")
		if !strings.Contains(root, "::") {
			c.Add("lookups of keys without a module", 1)
			return
		}
		mod := strings.ToLower(root[:strings.Index(root, "::")])
		if mod != root[:len(mod)] {
			c.Add("lookups of keys with another case", 1)
		}
		dirs, cfgs := 0, 0
		for _, p := range wc.World.ModPaths {
			for _, m := range p.Mods {
				if !p.Missing && strings.EqualFold(m.Dir, mod) {
					dirs++
					if !m.Plain && m.Cfg != nil && !m.Cfg.Absent {
						cfgs++
					}
				}
			}
		}
		switch {
		case dirs == 0:
			c.Add("lookups in unknown modules", 1)
		case cfgs == 0:
			c.Add("lookups in modules without configuration", 1)
		case cfgs > 1:
			c.Add("lookups in modules that are found more than once", 1)
		default:
			c.Add("lookups in modules", 1)
		}
		if wc.Want.Kind == "value" {
			c.Add("values of module keys", 1)
			if wc.Merge == nil {
				c.Seen("module values", wc.Key+wc.Want.String())
			}
		}
	}
	c.RunWorlds(WorldRun{Name: "modules", Profile: c19profile, Worlds: c.N(1500, 30000), Keys: 8, MergeP: .35, KeyGen: c19key, Each: each,
		Tweak: func(g *gen.G, w *model.World) {
			for _, p := range w.ModPaths {
				for _, m := range p.Mods {
					if m.Cfg != nil && g.P(.05) {
						m.Cfg.Raw = g.Pick("version: 5\nhierarchy: [", "version: 4\n", "[]", "hierarchy: 3\n")
						c.Add("modules with a broken configuration", 1)
					}
				}
			}
		}})

	// Data of modules that are of no concern, broken or not, is irrelevant, and so is the order of what is
	c.Parallel(c.N(300, 6000), func(i int) { c19unrelated(c, i) })
	c19paths(c)
	c.Need("lookups in modules that are found more than once", 500)
	c.Need("lookups in unknown modules", 100)
	c.Need("lookups in modules without configuration", 100)
	c.Need("lookups of keys with another case", 100)
}

func c19unrelated(c *C, i int) {
	g := c.G("unrelated", i)
	p := c19profile(g)
	w := gen.Build(g, p)
	dir := c.Dir()
	defer c.Drop(dir)
	w.Write(dir)
	gen.Fill(g, p, w)
	env := mon.NewEnv(w)
	mods := []string{"one", "two", "three", "ones", "on"}
	mod := g.Pick(mods[:4]...)
	gw := gen.NewW(g, p, w)
	type q struct {
		key   string
		merge interface{}
		want  mon.Obs
		calls []model.Event
	}
	var qs []*q
	s := env.Session()
	for k := 0; k < 6; k++ {
		x := &q{key: c19key(gw), merge: g.MergeOpt(.3)}
		root := strings.Trim(x.key, "'")
		if !strings.HasPrefix(root, mod+"::") && strings.Contains(root, "::") {
			continue
		}
		env.Take()
		ev := model.NewEval(w)
		if o := ev.Lookup(x.key, x.merge); ev.Depth > 1 || o.Kind == "unsupported" {
			continue // its data refers, or may refer, to other keys
		}
		x.want = env.Lookup(s, x.key, x.merge)
		x.calls = env.Take()
		qs = append(qs, x)
	}
	s.KillPlugins()
	// Break all other modules, and add new ones
	for _, mp := range w.ModPaths {
		pd := filepath.Join(dir, mp.Dir)
		if mp.Missing {
			continue
		}
		for _, m := range mp.Mods {
			if !strings.EqualFold(m.Dir, mod) && !m.Plain && !(m.Link && m.Cfg == nil) {
				write(filepath.Join(pd, m.Dir, "hiera.yaml"), g.Pick("version: 5\nhierarchy: [", "", "version: 3\n", "version: 5\nhierarchy: [{name: x, path: a.yaml}, {name: x}]\n"))
			}
		}
		for _, n := range []string{mod + "x", "x" + mod, mod[:len(mod)-1], "zz", ".hidden", mod + ".d", mod + " "} {
			if g.P(.5) && !contains(mods, strings.ToLower(n)) {
				write(filepath.Join(pd, n, "hiera.yaml"), "version: 5\nhierarchy: [")
				write(filepath.Join(pd, n, "data/common.yaml"), "broken: [")
			}
		}
	}
	s = env.Session()
	defer s.KillPlugins()
	for _, x := range qs {
		env.Take()
		got := env.Lookup(s, x.key, x.merge)
		calls := env.Take()
		c.Case("unrelated" + x.key + x.want.Canon + strings.Join(events(calls), " "))
		c.Add("lookups repeated with other modules broken", 1)
		if got.Canon != x.want.Canon || strings.Join(events(got2(calls)), "\n") != strings.Join(events(got2(x.calls)), "\n") {
			c.Violation(fmt.Sprintf("case %d: lookup of %s gives %s, and %s when modules other than %s are broken", i, x.key, x.want, got, mod),
				map[string]interface{}{"world": w.Dump(), "calls": events(x.calls), "calls afterwards": events(calls)})
			return
		}
	}
}

// got2 leaves out what is only done when a configuration is first used
func got2(es []model.Event) []model.Event {
	var r []model.Event
	for _, e := range es {
		if e.Fn != "hv_hash" && !isLookupOptions(e) {
			r = append(r, e)
		}
	}
	return r
}

func contains(ss []string, s string) bool {
	for _, e := range ss {
		if e == s {
			return true
		}
	}
	return false
}

// c19paths uses module paths of all kinds
func c19paths(c *C) {
	dir := c.Dir()
	defer c.Drop(dir)
	mod := func(p, v string) {
		write(filepath.Join(dir, p, "hiera.yaml"), "version: 5\nhierarchy: [{name: a, path: c.yaml}]\n")
		n := strings.ToLower(filepath.Base(p))
		write(filepath.Join(dir, p, "data", "c.yaml"), mv.YAML(mv.NewMap(n+"::v", v, n+"::l", mv.L(v), "v", "bare "+v)))
	}
	mod("p1/one", "p1-one")
	mod("p2/One", "p2-one")
	mod("p2/two", "p2-two")
	mod("p 3/two", "p3-two")
	mod("p4/été", "p4-été")
	mod("one/two", "nested")
	_ = os.MkdirAll(filepath.Join(dir, "p5", "one"), 0755) // no configuration
	_ = os.MkdirAll(filepath.Join(dir, "p6", "one", "hiera.yaml"), 0755)
	write(filepath.Join(dir, "p7", "one"), "a file")
	write(filepath.Join(dir, "file"), "a file")
	_ = os.MkdirAll(filepath.Join(dir, "empty"), 0755)
	for i := 0; i < 1500; i++ { // more than what one read of the directory gives
		_ = os.MkdirAll(filepath.Join(dir, "many", fmt.Sprintf("m%04d", i)), 0755)
	}
	mod("many/one", "many-one")
	mod("many/zz_last", "many-last")
	_ = os.Symlink(filepath.Join(dir, "p1"), filepath.Join(dir, "link"))
	for _, p := range []string{"p8", "p9"} {
		_ = os.MkdirAll(filepath.Join(dir, p), 0755)
	}
	mod("elsewhere/seven", "elsewhere-seven")
	_ = os.Symlink("../elsewhere/seven", filepath.Join(dir, "p8", "Seven"))
	_ = os.Symlink("gone", filepath.Join(dir, "p8", "one"))
	_ = os.Symlink("../file", filepath.Join(dir, "p8", "two"))
	_ = os.Symlink("three", filepath.Join(dir, "p8", "three"))
	for _, n := range []string{"ONE", "OnE", "oNe"} {
		write(filepath.Join(dir, "p9", n), "a file")
	}
	mod("p9/One", "p9-one")
	_ = os.MkdirAll(filepath.Join(dir, "p9", "one"), 0755) // no configuration
	_ = os.Symlink("loop", filepath.Join(dir, "loop"))
	_ = os.Symlink("nowhere", filepath.Join(dir, "dangling"))
	type q struct{ path, key, want string }
	const absent, failure = "<absent>", "<error>"
	str := func(s string) string { return mv.Canon(s) }
	qs := []q{
		{"p1:p2", "one::v", str("p1-one")}, {"p2:p1", "one::v", str("p2-one")}, {"p2:p1", "ONE::v", absent}, {"p1:p2", "two::v", str("p2-two")},
		{"p 3:p2", "two::v", str("p3-two")}, {"p1:p 3:p2", "two::v", str("p3-two")}, {"p4", "été::v", str("p4-été")},
		{"p5:p1", "one::v", str("p1-one")}, {"p6:p1", "one::v", str("p1-one")}, {"p7:p1", "one::v", str("p1-one")}, {"p5", "one::v", absent},
		{"p6", "one::v", absent}, {"p7", "one::v", absent}, {"empty:p1", "one::v", str("p1-one")}, {"missing:p1", "one::v", str("p1-one")},
		{"missing", "one::v", absent}, {"p1", "v", absent}, {"p1", "one", absent}, {"p1", "two::v", absent}, {"p1", "::v", absent},
		{"p1", "::one::v", absent}, {"p1/", "one::v", str("p1-one")}, {"many", "one::v", str("many-one")}, {"many", "zz_last::v", str("many-last")},
		{"many", "m0007::v", absent}, {"many", "zz::v", absent}, {"p1", "'../p2/two::v'", absent}, {"p1", "'..::v'", absent}, {"p1", "'.::v'", absent},
		{"p1", "'one/::v'", absent}, {"", "one::v", absent}, {"link", "one::v", str("p1-one")}, {"dangling:p1", "one::v", str("p1-one")},
		{"loop:p1", "one::v", failure}, {"file", "one::v", failure}, {"file:p1", "one::v", failure}, {"p1:file", "one::v", str("p1-one")},
		{"one", "two::v", str("nested")}, {"one", "one::v", absent}, {"p1:p2", "one::l", mv.Canon(mv.L("p1-one"))},
		{"p8", "seven::v", str("elsewhere-seven")}, {"p8", "seven::l", mv.Canon(mv.L("elsewhere-seven"))}, {"p8:p1", "one::v", str("p1-one")},
		{"p8:p2", "two::v", str("p2-two")}, {"p8", "three::v", absent}, {"p9", "one::v", str("p9-one")}, {"p9:p1", "one::v", str("p9-one")},
		{"p1:p2", "one::nope", absent}, {"p1:p2", "one::v.x", absent}, {"p1/" + strings.Repeat("x", 300) + ":p1", "one::v", failure},
	}
	for _, x := range qs {
		for _, how := range []string{"module", "config and module", "twice"} {
			var ps []string
			for _, p := range strings.Split(x.path, ":") {
				if p != "" {
					end := ""
					if strings.HasSuffix(p, "/") {
						end = "/"
					}
					ps = append(ps, filepath.Join(dir, p)+end)
				} else {
					ps = append(ps, "")
				}
			}
			opts := map[string]interface{}{api.HieraRoot: filepath.Join(dir, "empty"), provider.ModulePath: strings.Join(ps, string(filepath.ListSeparator))}
			top := provider.ModuleLookupKey
			if how != "module" {
				top = provider.MuxLookupKey
				opts[provider.LookupKeyFunctions] = vf.Values(provider.ConfigLookupKey, provider.ModuleLookupKey)
			}
			s := session.New(context.Background(), top, opts, nil)
			look := func() mon.Obs {
				return mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), x.key, nil, nil) })
			}
			got := look()
			if how == "twice" && got.Canon == x.want {
				got = look()
			}
			s.KillPlugins()
			c.Case("paths" + x.path + x.key + how + x.want)
			c.Add("module paths used", 1)
			if got.Canon != x.want {
				c.Violation(fmt.Sprintf("module path %q, lookup of %s using %s: expected %s, observed %s", x.path, x.key, how, x.want, got), nil)
			}
		}
	}
	// Not a path
	for _, v := range []interface{}{nil, 3, true, vf.Values("p1")} {
		opts := map[string]interface{}{api.HieraRoot: filepath.Join(dir, "empty")}
		if v != nil {
			opts[provider.ModulePath] = v
		}
		s := session.New(context.Background(), provider.ModuleLookupKey, opts, nil)
		got := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), "one::v", nil, nil) })
		c.Case(fmt.Sprint("no path", v))
		if got.Canon != absent {
			c.Violation(fmt.Sprintf("module path %v: lookup gives %s", v, got), nil)
		}
	}
}
