package checks

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/merge"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C02", "a merged lookup that found a value or during which a backend function was called, or a direct merge of two values; distinct by key, strategy, value and calls", c02)
	register("C03", "a lookup with an explicit merge, lookup options, both, or neither; distinct by key, merge, value and calls", c03)
	register("C05", "a lookup of data that contains at least one interpolation expression; distinct by key, value and calls", c05)
}

func mergeProfile(g *gen.G) *gen.Profile {
	p := gen.Default()
	p.LuOpts, p.InterpVal, p.InterpKey, p.InterpCfg = .25, .03, 0, .03
	p.Strategy, p.Convert = .9, 0
	p.Null, p.Sparse, p.Shape = .05, .25, .85
	p.Entries = 5
	p.Key, p.Dig = 5, 3
	p.Missing = .2
	p.Depth = 4
	p.IntKeys = .05
	p.Keys = gen.Keys[:5]
	return p
}

func c02(c *C) {
	// The merge of two values, without any hierarchy
	n := c.N(30000, 400000)
	c.Parallel(n, func(i int) {
		g := c.G("deep", i)
		a, b := g.PlainValue(1+g.Intn(4), .1, true), g.PlainValue(1+g.Intn(4), .1, true)
		if g.P(.3) { // structures that have a lot in common
			b = perturb(g, a)
		}
		da, db := mon.ToDgo(a), mon.ToDgo(b)
		ca, cb := mv.CanonDgo(da), mv.CanonDgo(db)
		want := mv.Canon(model.DeepMerge(a, b))
		r, merged := merge.Deep(da, db, nil)
		got := mv.CanonDgo(r)
		c.Case("deep" + ca + cb)
		c.Add("direct deep merges", 1)
		if got != ca {
			c.Add("direct deep merges that changed the value", 1)
		}
		d := map[string]interface{}{"case": i, "a": ca, "b": cb, "expected": want, "observed": got}
		if got != want {
			c.Violation(fmt.Sprintf("merge.Deep of case %d: expected %s, observed %s", i, want, got), d)
		}
		if mv.CanonDgo(da) != ca || mv.CanonDgo(db) != cb {
			c.Violation(fmt.Sprintf("merge.Deep of case %d modified its arguments", i), d)
		}
		if merged != (got != ca) {
			c.Violation(fmt.Sprintf("merge.Deep of case %d: returned merged=%v", i, merged), d)
		}
	})
	single := func(wc *WorldCase) {
		if wc.Want.Kind == "value" {
			c.Seen("strategies and kinds", fmt.Sprintf("%v %T", wc.Merge, wc.Want.V))
			if len(wc.Eval.Found) > 1 {
				c.Add("values merged from more than one source", 1)
			}
		}
	}
	c.RunWorlds(WorldRun{Name: "merge", Profile: mergeProfile, Worlds: c.N(1600, 25000), Keys: 10, MergeP: .75, Each: single})
	c.RunWorlds(WorldRun{Name: "mux", Profile: func(g *gen.G) *gen.Profile {
		p := mergeProfile(g)
		p.HasModules = true
		p.Keys = gen.Keys
		p.Providers = [][]string{{"config", "module"}, {"custom1", "config", "custom2"}, {"module", "config"}, {"custom1"}, {"yaml", "config", "scope"}}
		return p
	}, Worlds: c.N(500, 9000), Keys: 10, MergeP: .75, Each: single})
	// Only backend functions, to observe the calls
	c.RunWorlds(WorldRun{Name: "calls", Profile: func(g *gen.G) *gen.Profile {
		p := mergeProfile(g)
		p.Yaml, p.JSON = 0, 0
		p.LuOpts = .1
		return p
	}, Worlds: c.N(600, 9000), Keys: 10, MergeP: .9, Each: single})
	c.Need("values merged from more than one source", 500)
	c.Need("direct deep merges that changed the value", 500)
}

// perturb makes a copy with differences
func perturb(g *gen.G, v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		r := []interface{}{}
		for _, e := range v {
			switch g.Intn(5) {
			case 0:
			case 1:
				r = append(r, g.Scalar(.1))
			case 2:
				r = append(r, perturb(g, e), e)
			default:
				r = append(r, e)
			}
		}
		return r
	case *mv.Map:
		r := mv.NewMap()
		for _, k := range v.Keys {
			switch g.Intn(5) {
			case 0:
			case 1:
				r.Put(k, g.PlainValue(2, .1, false))
			default:
				r.Put(k, perturb(g, v.Get(k)))
			}
		}
		if g.P(.3) {
			r.Put("extra", g.PlainValue(1, .1, false))
		}
		return r
	}
	if g.P(.3) {
		return g.Scalar(.1)
	}
	return v
}

func c03(c *C) {
	prof := func(g *gen.G) *gen.Profile {
		p := mergeProfile(g)
		p.LuOpts, p.Sparse = .7, .3
		p.InterpVal = 0
		p.Keys = gen.Keys
		if g.P(.15) {
			p.BadStrat = .15
		}
		return p
	}
	each := func(wc *WorldCase) {
		if wc.Want.Kind == "error" {
			c.Add("errors", 1)
		}
		if wc.Merge == nil {
			c.Add("lookups without explicit merge", 1)
		}
		// An explicit strategy, given as a string or as a map, always wins, and a lookup option has no effect unless
		// it is for exactly the root of the key. This is the model's prediction, so what remains is to check that the
		// outcome really depends on the strategy.
		if wc.Merge == nil && wc.Want.Kind == "value" {
			other := model.NewEval(wc.World).Lookup(wc.Key, "first")
			if other.Canon() != wc.Want.Canon() {
				c.Add("outcomes decided by lookup_options", 1)
			}
		}
	}
	c.RunWorlds(WorldRun{Name: "lo", Profile: prof, Worlds: c.N(1800, 26000), Keys: 10, MergeP: .25, Each: each})
	c.RunWorlds(WorldRun{Name: "mux", Profile: func(g *gen.G) *gen.Profile {
		p := prof(g)
		p.HasModules = true
		p.Providers = [][]string{{"config", "module"}, {"module", "config"}, {"custom1", "config"}, {"config"}, {"yaml", "config"}, {"config", "yaml", "scope"}, {"scope", "yaml"}, {"yaml"}, {"scope", "config"}}
		return p
	}, Worlds: c.N(700, 10000), Keys: 10, MergeP: .25, Each: each})
	// lookup_options is not data, and unknown strategies are errors
	for i := 0; i < c.N(300, 3000) && c.Violations() < 10; i++ {
		g := c.G("not data", i)
		p := prof(g)
		p.LuOpts, p.BadStrat = .9, 0
		w := gen.Build(g, p)
		dir := c.Dir()
		w.Write(dir)
		gen.Fill(g, p, w)
		env := mon.NewEnv(w)
		s := env.Session()
		if model.NewEval(w).Lookup("alpha", nil).Kind != "error" {
			for _, k := range []string{"lookup_options", "lookup_options.alpha", "'lookup_options'", "lookup_options.alpha.merge"} {
				o := env.Lookup(s, k, nil)
				c.Case(fmt.Sprint(i, k))
				c.Add("lookups of lookup_options", 1)
				if o.Kind != "absent" {
					c.Violation(fmt.Sprintf("lookup of %s gives %s", k, o), map[string]interface{}{"world": w.Dump(), "case": i})
				}
			}
			for _, m := range []interface{}{"bogus", "", "First", "deeper", mv.NewMap("strategy", "bogus"), mv.NewMap("other", 1), mv.NewMap(), "first "} {
				o := env.Lookup(s, "alpha", m)
				c.Case(fmt.Sprint(i, m))
				c.Add("lookups with an unknown strategy", 1)
				if o.Kind != "error" {
					c.Violation(fmt.Sprintf("lookup with merge %s gives %s", mv.Canon(m), o), map[string]interface{}{"world": w.Dump(), "case": i})
				}
			}
		}
		c.Drop(dir)
	}
	// The lookup options are exposed by the resolved configuration. They must be the deep merge of all sources
	c.Need("outcomes decided by lookup_options", 300)
	c.Need("lookups of lookup_options", 300)
}

func c05(c *C) {
	prof := func(g *gen.G) *gen.Profile {
		p := gen.Default()
		p.InterpVal, p.InterpKey, p.InterpCfg = .55, .2, .05
		p.LuOpts, p.Convert = .3, .12
		p.Sparse, p.Missing = .2, .15
		p.Null = .03
		p.Entries = 3
		p.Defaults = .1
		p.NoScope = .03
		return p
	}
	each := func(wc *WorldCase) {
		if wc.Eval.Depth > 1 {
			c.Add("outcomes that needed other lookups or variables", 1)
			c.Seen("depth of references", fmt.Sprint(wc.Eval.Depth))
		}
	}
	c.RunWorlds(WorldRun{Name: "ipl", Profile: prof, Worlds: c.N(2200, 30000), Keys: 10, MergeP: .1, Each: each})
	c.RunWorlds(WorldRun{Name: "mux", Profile: func(g *gen.G) *gen.Profile {
		p := prof(g)
		p.HasModules = true
		p.Providers = [][]string{{"config", "module"}, {"custom1", "config"}, {"config", "env"}, {"scope", "config"}, {"yaml", "scope", "config"}}
		return p
	}, Worlds: c.N(700, 10000), Keys: 10, MergeP: .1, Each: each})

	// Direct interpolation of values, by means of the invocation
	c.Parallel(c.N(20000, 200000), func(i int) {
		g := c.G("direct", i)
		p := prof(g)
		p.Methods = []string{"", "", "scope", "literal", "lookup", "hiera", "alias", "strict_alias"}
		p.InterpVal = .7
		w := gen.NewW(g, p, &model.World{Root: "/nonexistent-hv", Cfg: &model.Config{Absent: true, Files: map[string]*model.File{}},
			Providers: []string{"custom1"}, Tables: map[string]map[string]*mv.Map{"custom1": {"": gen.Data(g, p)}}, Env: map[string]string{}})
		w.Scope()
		v := w.Val(3, -2)
		ev := model.NewEval(w.World)
		want := model.Run(func() interface{} { return ev.Interpolate(v, true) })
		if want.Kind == "unsupported" {
			c.Add("lookups without a prediction", 1)
			return
		}
		env := mon.NewEnv(w.World)
		s := env.Session()
		dv := mon.ToDgo(v)
		got := mon.Try(func() dgo.Value { return env.Inv(s, nil).Interpolate(dv, true) })
		c.Add("direct interpolations", 1)
		c.Case(mv.Canon(v) + want.String())
		d := map[string]interface{}{"case": i, "value": mv.Canon(v), "expected": want.String(), "observed": got.String(), "world": w.World.Dump()}
		if !got.Same(want) {
			c.Violation(fmt.Sprintf("interpolation of %s: expected %s, observed %s", mv.Canon(v), want, got), d)
		}
		if mv.CanonDgo(dv) != mv.Canon(v) {
			c.Violation("interpolation modified the value", d)
		}
	})

	// alias to a key is the same as lookup of the key, for each key of each world
	c.aliasLaw(prof)
	c.plainText()
	c.doubleInterpolation()
	c.Need("outcomes that needed other lookups or variables", 500)
	c.Need("direct interpolations", 1000)
	c.Need("alias comparisons", 200)
}

// aliasLaw checks that an alias gives exactly what the lookup gives, without involving the model. The aliases come from
// a custom function in front of the hierarchy.
func (c *C) aliasLaw(prof func(g *gen.G) *gen.Profile) {
	c.Parallel(c.N(400, 6000), func(i int) {
		g := c.G("law", i)
		p := prof(g)
		p.LuOpts, p.Convert = .6, .3
		w := gen.Build(g, p)
		w.Providers = []string{"refs", "config"}
		dir := c.Dir()
		defer c.Drop(dir)
		w.Write(dir)
		gen.Fill(g, p, w)
		refs := mv.NewMap()
		gw := gen.NewW(g, p, w)
		type law struct{ ref, key, kind string }
		var laws []law
		for j := 0; j < 8; j++ {
			k := gw.Ref(-1)
			if strings.Contains(k, "'") && strings.Contains(k, `"`) {
				continue
			}
			q := "'"
			if strings.Contains(k, "'") {
				q = `"`
			}
			for _, m := range []string{"alias", "strict_alias", "lookup"} {
				ref := fmt.Sprintf("ref-%s-%d", m, j)
				e := "%{" + m + "(" + q + k + q + ")}"
				if m == "lookup" {
					e = "<" + e + ">"
				}
				refs.Put(ref, mv.L("x", e))
				laws = append(laws, law{ref, k, m})
			}
		}
		w.Tables["refs"] = map[string]*mv.Map{"": refs}
		env := mon.NewEnv(w)
		s := env.Session()
		for _, l := range laws {
			want := env.Lookup(s, l.key, nil)
			got := env.Lookup(s, l.ref, nil)
			c.Case(l.kind + l.key + want.String())
			c.Add("alias comparisons", 1)
			var exp string
			switch {
			case want.Kind == "error":
				exp = "<error>"
			case l.kind == "lookup" && want.Kind == "absent":
				exp = `["x","<>"]`
			case l.kind == "lookup":
				exp = mv.CanonDgo(vf.Values("x", "<"+want.V.String()+">"))
			case want.Kind == "absent" && l.kind == "alias":
				exp = `["x",""]`
			case want.Kind == "absent":
				exp = `["x",null]`
			default:
				exp = mv.CanonDgo(vf.Values("x", want.V))
			}
			if got.Canon != exp {
				c.Violation(fmt.Sprintf("%s of %s: expected %s, observed %s", l.kind, l.key, exp, got),
					map[string]interface{}{"case": i, "world": w.Dump()})
			}
		}
	})
}

// plainText checks that text without expressions is never altered
func (c *C) plainText() {
	c.Parallel(c.N(3000, 40000), func(i int) {
		g := c.G("plain", i)
		n := g.Intn(12)
		b := strings.Builder{}
		for j := 0; j < n; j++ {
			b.WriteString(g.Pick("%", "{", "}", "%%", "$", "\\", "a", " ", "é", "(", ")", "'", "lookup('x')", "\n", "${v}", "%(v)", "::", "% {v1}"))
		}
		t := b.String()
		for strings.Contains(t, "%{") {
			t = strings.ReplaceAll(t, "%{", "%")
		}
		w := &model.World{Root: "/nonexistent-hv", Cfg: &model.Config{Absent: true}, Sess: mv.NewMap("v1", "X", "v", "Y")}
		env := mon.NewEnv(w)
		iv := env.Inv(env.Session(), nil)
		v := vf.Values(t, vf.Map(t, t))
		got := mon.Try(func() dgo.Value { return iv.Interpolate(v, true) })
		c.Case(t)
		c.Add("plain texts", 1)
		if got.Canon != mv.CanonDgo(v) {
			c.Violation(fmt.Sprintf("interpolation altered %q into %s", t, got), map[string]interface{}{"case": i, "text": t})
		}
	})
}

// doubleInterpolation observes the known finding: the outcome of an interpolation is interpolated again
func (c *C) doubleInterpolation() {
	w := &model.World{Cfg: &model.Config{
		Entries: []*model.Entry{{Name: "a", Loc: &model.Loc{Kind: "path", Args: []string{"a.yaml"}}}},
		Files: map[string]*model.File{"data/a.yaml": {Format: "yaml", V: mv.NewMap(
			"a", "%{literal('%')}{foo}", "b", "%{literal('%')}(foo)")}}},
		Sess: mv.NewMap("foo", "FOO")}
	dir := c.Dir()
	defer c.Drop(dir)
	w.Write(dir)
	env := mon.NewEnv(w)
	s := env.Session()
	o := env.Lookup(s, "a", nil)
	d := map[string]interface{}{"world": w.Dump(), "observed": o.String()}
	switch o.Canon {
	case `"%{foo}"`:
	case `"FOO"`:
		c.Known("double-interpolation", "%{literal('%')}{foo} gives the value of foo", d)
	default:
		c.Violation("%{literal('%')}{foo} gives "+o.String(), d)
	}
	if o = env.Lookup(s, "b", nil); o.Canon != `"%(foo)"` {
		c.Violation("%{literal('%')}(foo) gives "+o.String(), d)
	}
	// A backend function that isn't a data_hash function isn't affected
	iv := env.Inv(s, nil)
	if v := hiera.Lookup(iv, "nope", vf.String("%{foo}"), nil); v.String() != "%{foo}" {
		c.Violation("a default value was interpolated", d)
	}
	_ = api.NewKey
}
