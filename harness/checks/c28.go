package checks

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C28", "something that a backend function does with its context; distinct by operation, arguments and outcome", c28)
}

// A ctxOp is something that a function does with its context
type ctxOp struct {
	desc string
	do   func(sc api.ServerContext) dgo.Value
	want model.Outcome
}

// A ctxPlan is what a function does when it is asked for a key
type ctxPlan struct {
	key    string
	merge  interface{}
	ops    []*ctxOp
	text   string
	fail   bool
	got    []mon.Obs
	texts  int
	broken string
	runs   int
}

// c28host adds a place where the function that carries out the plans is called from
func c28host(g *gen.G, w *model.World, plans []*ctxPlan) string {
	t := mv.NewMap()
	for _, p := range plans {
		t.Put(p.key, "done")
	}
	kind := g.Pick("lookup_key", "lookup_key", "data_dig")
	if w.Providers != nil {
		kind = "provider"
		w.Tables["go"] = map[string]*mv.Map{"": t}
	} else {
		e := &model.Entry{Name: "the function", FnKind: kind, FnName: map[string]string{"lookup_key": "hv_key", "data_dig": "hv_dig"}[kind], Options: mv.NewMap("id", "ctx")}
		w.Tables["ctx"] = map[string]*mv.Map{"": t}
		i := 0
		if g.P(.3) {
			i = g.Intn(len(w.Cfg.Entries) + 1)
		}
		w.Cfg.Entries = append(w.Cfg.Entries[:i:i], append([]*model.Entry{e}, w.Cfg.Entries[i:]...)...)
	}
	return kind
}

// carryOut performs the plan
func (p *ctxPlan) carryOut(sc api.ServerContext) {
	p.runs++
	p.got = nil
	ic := sc.Invocation()
	if !ic.DataMode() || ic.LookupOptionsMode() {
		p.broken = "the function is not called in data mode"
	}
	if sc.ForData().Invocation().LookupOptionsMode() || !sc.ForData().Invocation().DataMode() || !sc.ForLookupOptions().Invocation().LookupOptionsMode() || !ic.DataMode() {
		p.broken = "ForData or ForLookupOptions has the wrong mode"
	}
	scope := ic.Scope()
	for _, op := range p.ops {
		op := op
		p.got = append(p.got, mon.Try(func() dgo.Value { return op.do(sc) }))
		if ic.Scope() != scope {
			p.broken = "the scope of the invocation isn't the same after " + op.desc
		}
		if !ic.DataMode() {
			p.broken = "the invocation isn't in data mode after " + op.desc
		}
	}
	sc.Explain(func() string {
		p.texts++
		return p.text
	})
	if p.fail {
		panic(errors.New(p.text))
	}
}

// value generates a value to interpolate
func c28value(gw *gen.W, depth int) interface{} {
	if depth > 0 {
		switch gw.Intn(4) {
		case 0:
			m := mv.NewMap()
			for k := gw.Intn(4); k > 0; k-- {
				key := gw.Pick("a", "b", "x.y", "c d")
				if gw.P2() && gw.P2() {
					key = gw.Pick("%{v1}", "k-%{v2}", "%{literal('l')}", "%{undef}")
				}
				m.Put(key, c28value(gw, depth-1))
			}
			return m
		case 1:
			l := []interface{}{}
			for k := gw.Intn(4); k > 0; k-- {
				l = append(l, c28value(gw, depth-1))
			}
			return l
		}
	}
	switch gw.Intn(6) {
	case 0:
		return gw.Scalar(.2)
	case 1:
		return gw.Str()
	case 2:
		return mv.Binary("b\x00")
	}
	return gw.InterpString(-1)
}

func c28(c *C) {
	c.Parallel(c.N(1200, 20000), func(i int) {
		if c.Violations() > 3 {
			return
		}
		g := c.G("ctx", i)
		dir := c.Dir()
		defer c.Drop(dir)
		c.c28world(g, dir, i)
	})
	c.Parallel(c.N(600, 10000), func(i int) {
		if c.Violations() > 3 {
			return
		}
		c.c28scopes(i)
	})
	c.Need("lookups in inner scopes of an application", 1000)
	c.Need("operations of functions", 10000)
	c.Need("operations that end with an error", 800)
	c.Need("operations that find a value", 4000)
	c.Need("cycles through a function", 50)
	c.Need("explained plans", 400)
	c.Need("calls of a top provider", 3000)
}

func (c *C) c28world(g *gen.G, dir string, i int) {
	p := gen.Default()
	p.Entries = 4
	p.Absent, p.IntKeys = 0, 0
	p.InterpVal = .3
	p.Convert = .1
	if g.P(.3) {
		p.Providers = [][]string{{"go", "config"}, {"config", "go"}, {"go", "config", "module"}}
		p.HasModules = true
	}
	w := gen.Build(g, p)
	if w.Cfg.Raw != "" {
		return
	}
	var plans []*ctxPlan
	for n := range make([]int, 2+g.Intn(3)) {
		plans = append(plans, &ctxPlan{key: fmt.Sprintf("go%d", n), text: fmt.Sprintf("the function did %d", n)})
	}
	kind := c28host(g, w, plans)
	w.Write(dir)
	gen.Fill(g, p, w)
	gw := gen.NewW(g, p, w)

	// another configuration, that has data in files only
	p2 := gen.Default()
	p2.Entries = 3
	p2.InterpCfg, p2.Mapped, p2.Absent, p2.IntKeys = 0, 0, 0, 0
	p2.Hash, p2.Key, p2.Dig, p2.Scope, p2.URI, p2.URIs = 0, 0, 0, 0, 0, 0
	w2 := gen.Build(g, p2)
	dir2 := filepath.Join(dir, "other tree")
	w2.Write(dir2)
	path2 := filepath.Join(dir2, "hiera.yaml")
	if w2.Cfg.FileName != "" {
		path2 = filepath.Join(dir2, w2.Cfg.FileName)
	}

	scoped := func() (*mv.Map, *model.World) {
		m := mv.NewMap()
		for k := 1 + g.Intn(5); k > 0; k-- {
			m.Put(g.Pick("v1", "v2", "v3", "vi", "lst", "env"), gw.Pick("own", "own-%{v1}", "o", "%{lookup('alpha')}"))
		}
		wc := *w
		wc.Sess, wc.Inv = m, nil
		return m, &wc
	}
	lookKey := func() string {
		if g.P(.1) {
			return plans[g.Intn(len(plans))].key
		}
		return gw.Key()
	}
	for _, pl := range plans {
		pl := pl
		if g.P(.4) {
			pl.merge = g.Pick("unique", "deep", "hash")
		}
		pl.fail = g.P(.1)
		during := func(in0 *model.World, f func(ev *model.Eval) interface{}) model.Outcome {
			ev := model.NewEval(in0)
			in := ev.During
			if in0 != w {
				in = ev.Scoped
			}
			return model.Run(func() interface{} { return in(pl.key, func() interface{} { return f(ev) }) })
		}
		for n := 2 + g.Intn(5); n > 0; n-- {
			op := &ctxOp{}
			switch g.Intn(10) {
			case 0, 1:
				v := c28value(gw, 3)
				d := mon.ToDgo(v)
				if g.P(.3) {
					if f, ok := d.(dgo.Freezable); ok {
						d = f.FrozenCopy()
					}
				}
				before := mv.CanonDgo(d)
				methods := g.P(.8)
				op.desc = fmt.Sprintf("interpolation of %s (methods: %v)", mv.Canon(v), methods)
				op.do = func(sc api.ServerContext) (r dgo.Value) {
					defer func() {
						if mv.CanonDgo(d) != before {
							pl.broken = op.desc + " changes the given value into " + mv.CanonDgo(d)
						}
					}()
					if methods {
						return sc.Interpolate(d)
					}
					return sc.Invocation().Interpolate(d, false)
				}
				op.want = during(w, func(ev *model.Eval) interface{} { return ev.Interpolate(v, methods) })
			case 2:
				s := gw.InterpString(-1)
				if g.P(.2) {
					s = gw.Str()
				}
				op.desc = "interpolation of the string " + s
				op.do = func(sc api.ServerContext) dgo.Value {
					v, changed := sc.Invocation().InterpolateString(s, true)
					if changed != strings.Contains(s, "%{") {
						pl.broken = fmt.Sprintf("interpolation of the string %s tells changed = %v", s, changed)
					}
					return v
				}
				op.want = during(w, func(ev *model.Eval) interface{} { return ev.Interpolate(s, true) })
			case 3:
				s := g.Pick("v1", "v2", "v3.k1", "v3.k2.deep", "v3.'a.b'", "lst.0", "lst.2", "vi", "nope", "nope.x", "v3.nope", "lst.9", "'dot.ted'", "fact", "v1..x", "'v1", "1.a", "v1.k")
				op.desc = "the value of the variable " + s
				op.do = func(sc api.ServerContext) dgo.Value { return sc.Invocation().InterpolateInScope(s, true) }
				op.want = during(w, func(ev *model.Eval) interface{} { return ev.InScope(s, true) })
			case 4, 5:
				k, m := lookKey(), g.MergeOpt(.4)
				var o dgo.Map
				if m != nil {
					o = vf.Map("merge", mon.ToDgo(m))
				}
				op.desc = fmt.Sprintf("lookup of %s %s", k, mv.Canon(m))
				op.do = func(sc api.ServerContext) dgo.Value { return sc.Invocation().Lookup(api.NewKey(k), o) }
				op.want = during(w, func(ev *model.Eval) interface{} { return ev.Must(k, m) })
			case 6:
				k1, k2, m := lookKey(), lookKey(), g.MergeOpt(.4)
				op.desc = fmt.Sprintf("lookup of %s or %s %s with a default", k1, k2, mv.Canon(m))
				op.do = func(sc api.ServerContext) dgo.Value {
					o, _ := mon.MergeOption(m).(dgo.Map)
					return hiera.Lookup2(sc.Invocation(), []string{k1, k2}, typ.Any, vf.String("the default"), nil, nil, o, nil)
				}
				op.want = during(w, func(ev *model.Eval) interface{} {
					for _, k := range []string{k1, k2} {
						if v := ev.Must(k, m); v != nil {
							return v
						}
					}
					return "the default"
				})
			case 7:
				sm, ws := scoped()
				k, m := lookKey(), g.MergeOpt(.4)
				s := gw.InterpString(-1)
				bad := g.Intn(4) == 0
				op.desc = fmt.Sprintf("lookup of %s %s and interpolation of %s in the scope %s", k, mv.Canon(m), s, mv.Canon(sm))
				if bad {
					op.desc += " that fails"
				}
				op.do = func(sc api.ServerContext) dgo.Value {
					r := vf.MutableValues()
					sc.Invocation().DoWithScope(mon.ToDgo(sm).(dgo.Map), func() {
						if bad {
							panic(errors.New("failed in its own scope"))
						}
						for _, f := range []func() dgo.Value{
							func() dgo.Value { return hiera.Lookup(sc.Invocation(), k, nil, mon.MergeOption(m)) },
							func() dgo.Value { return sc.Interpolate(vf.String(s)) }} {
							v := f()
							if v == nil {
								v = vf.String("<absent>")
							}
							r.Add(v)
						}
					})
					return r
				}
				op.want = during(ws, func(ev *model.Eval) interface{} {
					if bad {
						return ev.Must("0", nil) // fails
					}
					r := mv.L()
					for _, v := range []func() interface{}{func() interface{} { return ev.Must(k, m) }, func() interface{} { return ev.Interpolate(s, true) }} {
						x := v()
						if x == nil {
							x = "<absent>"
						}
						r = append(r, x)
					}
					return r
				})
			case 8:
				// an invocation of its own
				sm, _ := scoped()
				wc := *w
				wc.Inv = sm
				k, m := lookKey(), g.MergeOpt(.4)
				if strings.Contains(k, "go") {
					k = "alpha"
				}
				op.desc = fmt.Sprintf("lookup of %s %s in a new invocation with %s", k, mv.Canon(m), mv.Canon(sm))
				op.do = func(sc api.ServerContext) dgo.Value {
					return hiera.Lookup(sc.Invocation().Invocation(mon.ToDgo(sm), nil), k, nil, mon.MergeOption(m))
				}
				op.want = model.NewEval(&wc).Lookup(k, m)
			case 9:
				k := g.Pick(gen.Keys...)
				st := "first"
				if s, ok := pl.merge.(string); ok {
					st = s
				}
				op.desc = fmt.Sprintf("what the other configuration has for %s (%s)", k, st)
				op.do = func(sc api.ServerContext) dgo.Value { return provider.ConfigLookupKeyAt(sc, path2, k, "") }
				op.want = during(w, func(ev *model.Eval) interface{} { return ev.At(w2.Cfg, dir2, k, st) })
			}
			if op.want.Kind == "unsupported" {
				c.Add("operations without a prediction", 1)
				continue
			}
			pl.ops = append(pl.ops, op)
		}
	}
	env := mon.NewEnv(w)
	env.NoTrace = true
	by := map[string]*ctxPlan{}
	for _, pl := range plans {
		by[pl.key] = pl
	}
	busy := false
	host := func(pc sdk.ProviderContext, key string) {
		if sc, ok := pc.(api.ServerContext); ok && by[key] != nil && !busy && !sc.Invocation().LookupOptionsMode() {
			// What it does may lead to further calls, that then only return the value
			busy = true
			defer func() { busy = false }()
			by[key].carryOut(sc)
		}
	}
	fs := env.Functions()
	key, dig := fs.Get("hv_key").(dgo.Function), fs.Get("hv_dig").(dgo.Function)
	env.Extra = map[string]interface{}{api.HieraFunctions: fs.Merge(vf.Map(
		"hv_key", func(pc sdk.ProviderContext, k string) dgo.Value {
			if vf.String("ctx").Equals(pc.Option("id")) {
				host(pc, k)
			}
			return key.Call(vf.MutableValues(pc, k))[0]
		},
		"hv_dig", func(pc sdk.ProviderContext, ks dgo.Array) dgo.Value {
			if vf.String("ctx").Equals(pc.Option("id")) {
				host(pc, ks.Get(0).(dgo.String).GoString())
			}
			return dig.Call(vf.MutableValues(pc, ks))[0]
		}))}
	opts := env.Options()
	if kind == "provider" {
		sfs := opts[provider.LookupKeyFunctions].([]sdk.LookupKey)
		for n, pn := range w.Providers {
			if pn == "go" {
				orig := sfs[n]
				sfs[n] = func(pc sdk.ProviderContext, key string) dgo.Value {
					host(pc, key)
					return orig(pc, key)
				}
			}
		}
	}
	top, topBroken := env.Top(), ""
	if g.P(.5) {
		top = func(pc sdk.ProviderContext, key string) dgo.Value {
			sc := pc.(api.ServerContext)
			ic := sc.Invocation()
			state := func() string {
				asked := 0
				sc.Explain(func() string {
					asked++
					return "the top provider is asked for " + key
				})
				return fmt.Sprintf("data mode %v, options mode %v, explains %v, asks for its text %d times", ic.DataMode(), ic.LookupOptionsMode(), ic.ExplainMode(), asked)
			}
			before := state()
			check := func(after string) {
				if now := state(); now != before || sc.Invocation() != ic {
					topBroken = fmt.Sprintf("after %s the context of the top provider is no longer the same: %s; before: %s", after, now, before)
				}
			}
			for _, n := range g.Perm(3) {
				switch n {
				case 0:
					d := sc.ForData()
					check("ForData")
					if i := d.Invocation(); !i.DataMode() || i.LookupOptionsMode() {
						topBroken = "ForData has the wrong mode"
					}
				case 1:
					d := sc.ForLookupOptions()
					check("ForLookupOptions")
					if i := d.Invocation(); i.DataMode() || !i.LookupOptionsMode() {
						topBroken = "ForLookupOptions has the wrong mode"
					}
				case 2:
					d := sc.ForLookupOptions().ForData().ForLookupOptions()
					check("ForLookupOptions, ForData, and ForLookupOptions")
					if i := d.Invocation(); i.DataMode() || !i.LookupOptionsMode() {
						topBroken = "ForLookupOptions of ForData has the wrong mode"
					}
				}
			}
			defer check("the lookup")
			c.Add("calls of a top provider", 1)
			return env.Top()(pc, key)
		}
	}
	s := session.New(context.Background(), top, opts, nil)
	defer s.KillPlugins()
	var one api.Invocation
	for n := 0; n < 3+len(plans); n++ {
		pl := plans[g.Intn(len(plans))]
		var ex api.Explainer
		if g.P(.4) {
			ex = explain.NewExplainer(g.P(.3), false)
		}
		ic := env.Inv(s, ex)
		if ex == nil && g.P(.3) {
			if one == nil {
				one = ic
			}
			ic = one
		}
		detail := func() map[string]interface{} {
			t, _ := os.ReadFile(path2)
			ops := []string{}
			for k, op := range pl.ops {
				got := ""
				if k < len(pl.got) {
					got = pl.got[k].String()
				}
				ops = append(ops, fmt.Sprintf("%s: expected %s, observed %s", op.desc, op.want, got))
			}
			return map[string]interface{}{"case": i, "kind": kind, "key": pl.key, "merge": pl.merge, "operations": ops, "world": w.Dump(), "other hiera.yaml": string(t), "other world": w2.Dump()}
		}
		want := model.NewEval(w).Lookup(pl.key, pl.merge)
		if want.Kind == "unsupported" {
			continue
		}
		pl.runs, pl.texts = 0, 0
		o := mon.Try(func() dgo.Value { return hiera.Lookup(ic, pl.key, nil, mon.MergeOption(pl.merge)) })
		if pl.broken == "" {
			pl.broken = topBroken
		}
		if pl.broken != "" {
			c.Violation(fmt.Sprintf("case %d (%s): %s", i, kind, clip(pl.broken)), detail())
			return
		}
		if pl.runs == 0 {
			if want.Kind == "value" && pl.merge == nil {
				c.Violation(fmt.Sprintf("case %d: the function is not called for %s", i, pl.key), detail())
				return
			}
			continue
		}
		for k, op := range pl.ops {
			c.Case(op.desc + " " + op.want.String())
			c.Add("operations of functions", 1)
			switch op.want.Kind {
			case "error":
				c.Add("operations that end with an error", 1)
				if strings.Contains(op.want.Err, "recursive") && strings.Contains(op.want.Err, "go") {
					c.Add("cycles through a function", 1)
				}
			case "value":
				c.Add("operations that find a value", 1)
			}
			if !pl.got[k].Same(op.want) {
				c.Violation(fmt.Sprintf("case %d (%s): %s: expected %s, observed %s", i, kind, clip(op.desc), clip(op.want.String()), clip(pl.got[k].String())), detail())
				return
			}
		}
		if pl.fail {
			if o.Kind != "error" || !strings.Contains(o.Err, pl.text) {
				c.Violation(fmt.Sprintf("case %d (%s): the function fails with %q, and the lookup gives %s", i, kind, pl.text, clip(o.String())), detail())
				return
			}
		} else if !o.Same(want) {
			c.Violation(fmt.Sprintf("case %d (%s): lookup of %s: expected %s, observed %s", i, kind, pl.key, clip(want.String()), clip(o.String())), detail())
			return
		}
		if ex == nil {
			if pl.texts > 0 {
				c.Violation(fmt.Sprintf("case %d (%s): a text is asked for although nothing is explained", i, kind), detail())
				return
			}
			continue
		}
		c.Add("explained plans", 1)
		if n := strings.Count(ex.String(), pl.text); n < 1 && o.Kind == "value" || pl.texts != pl.runs {
			c.Violation(fmt.Sprintf("case %d (%s): the text of the function occurs %d times in the explanation, and was asked for %d times in %d calls", i, kind, n, pl.texts, pl.runs),
				map[string]interface{}{"case": i, "explanation": ex.String(), "world": w.Dump()})
			return
		}
	}
}

// c28scopes has an application that uses one invocation with different scopes, one after the other and one within the other
func (c *C) c28scopes(i int) {
	g := c.G("scopes", i)
	dir := c.Dir()
	defer c.Drop(dir)
	p := gen.Default()
	p.Entries = 3
	p.InterpCfg, p.Mapped, p.Globs, p.InterpVal = .5, 3, 2, .3
	p.IntKeys = 0
	if g.P(.3) {
		p.HasModules = true
		p.Providers = [][]string{{"config", "module"}, {"module", "config"}, {"scope", "config"}}
	}
	w := gen.Build(g, p)
	w.Write(dir)
	gen.Fill(g, p, w)
	gw := gen.NewW(g, p, w)
	env := mon.NewEnv(w)
	s := env.Session()
	defer s.KillPlugins()
	iv := env.Inv(s, nil)
	other := gen.Build(c.G("scopes other", i), p)
	var hist []string
	var step func(depth int, ws *model.World) bool
	step = func(depth int, ws *model.World) bool {
		for n := 2 + g.Intn(3); n > 0; n-- {
			if depth < 3 && g.P(.4) {
				wc := *w
				sm := mv.NewMap()
				for _, src := range []*mv.Map{w.Sess, w.Inv, other.Sess, other.Inv} {
					if src == nil {
						continue
					}
					for _, k := range src.Keys {
						if g.P(.6) {
							sm.Put(k, src.Get(k))
						}
					}
				}
				wc.Sess, wc.Inv = sm, nil
				bad, fine := g.P(.2), true
				hist = append(hist, "in the scope "+mv.Canon(sm)+" {")
				o := mon.Try(func() dgo.Value {
					iv.DoWithScope(mon.ToDgo(sm).(dgo.Map), func() {
						fine = step(depth+1, &wc)
						if bad {
							panic(errors.New("failed in its own scope"))
						}
					})
					return nil
				})
				hist = append(hist, "}")
				if !fine {
					return false
				}
				if bad && !strings.Contains(o.Err, "failed in its own scope") || !bad && o.Kind != "absent" {
					c.Violation(fmt.Sprintf("case scopes%d: DoWithScope ended with %s", i, o), map[string]interface{}{"history": hist})
					return false
				}
				continue
			}
			key, merge := gw.Key(), g.MergeOpt(.3)
			if g.P(.15) {
				key = g.Pick("%{v1}", "%{v2}", "%{v3.k1}")
			}
			want := model.NewEval(ws).Lookup(key, merge)
			var got mon.Obs
			if strings.HasPrefix(key, "%") {
				want = model.Run(func() interface{} { return model.NewEval(ws).Interpolate(key, true) })
				got = mon.Try(func() dgo.Value { return iv.Interpolate(vf.String(key), true) })
			} else {
				got = mon.Try(func() dgo.Value { return hiera.Lookup(iv, key, nil, mon.MergeOption(merge)) })
			}
			hist = append(hist, key)
			c.Case(fmt.Sprint("scopes ", key, depth, want.Canon()))
			if want.Kind == "unsupported" {
				continue
			}
			c.Add("lookups in scopes of an application", 1)
			if depth > 0 {
				c.Add("lookups in inner scopes of an application", 1)
			}
			if !got.Same(want) {
				c.Violation(fmt.Sprintf("case scopes%d: lookup of %s: expected %s, observed %s", i, key, want, got), map[string]interface{}{"history": hist, "world": w.Dump()})
				return false
			}
		}
		return true
	}
	step(0, w)
}
