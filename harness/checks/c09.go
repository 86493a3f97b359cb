package checks

import (
	"context"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C09", "a call of Lookup2 or LookupAll; distinct by names, arguments, type and outcome", c09)
}

var c09types = []string{"any", "any", "any", "string", "int", "float", "bool", "[]any", "[]string", "[]int", "map[string]any", "map[string]int",
	"0..3", `"red"|"blue"`, "string|int", "string[1,3]", "/^[a-z]+$/", "sensitive"}

// ensure predicts the outcome when v is required to be an instance of t. The conversion itself is that of the type.
func ensure(t dgo.Type, v dgo.Value) mon.Obs {
	return mon.Try(func() dgo.Value {
		if t == nil || t.Instance(v) {
			return v
		}
		return vf.New(t, v)
	})
}

func c09(c *C) {
	prof := func(g *gen.G) *gen.Profile {
		p := gen.Default()
		p.Entries = 3
		p.Depth = 2
		p.Sparse = .55
		p.Cyclic = .05
		p.LuOpts = .15
		return p
	}
	names := func(g *gen.G, gw *gen.W, n int) []string {
		r := make([]string, n)
		for i := range r {
			switch g.Intn(5) {
			case 0:
				r[i] = g.Pick("missing1", "missing2", "missing3", "m.issing", "alpha.nokey")
			case 1:
				if i > 0 && g.P(.3) {
					r[i] = r[g.Intn(i)]
					continue
				}
				fallthrough
			default:
				r[i] = gw.Key()
			}
		}
		return r
	}
	amap := func(g *gen.G, ns []string, p float64) *mv.Map {
		if g.P(.35) {
			return nil
		}
		m := mv.NewMap("other", "x", "missing", 1)
		for _, i := range g.Perm(len(ns)) {
			if g.P(p) {
				m.Put(ns[i], g.PlainValue(2, .1, false))
			} else if g.P(.2) && strings.Contains(ns[i], ".") {
				m.Put(strings.SplitN(ns[i], ".", 2)[0], mv.NewMap("k1", "dug", "nokey", "dug"))
			}
		}
		if g.P(.1) {
			return mv.NewMap()
		}
		return m
	}
	dmap := func(m *mv.Map) dgo.Map {
		if m == nil {
			return nil
		}
		return ToMap(m)
	}
	mget := func(m *mv.Map, n string) interface{} {
		if m == nil {
			return nil
		}
		return m.Get(n)
	}
	mdump := func(m *mv.Map) string {
		if m == nil {
			return "-"
		}
		return mv.Canon(m)
	}

	n := c.N(2200, 40000)
	c.Parallel(n, func(i int) {
		g := c.G("", i)
		p := prof(g)
		w := gen.Build(g, p)
		dir := c.Dir()
		defer c.Drop(dir)
		w.Write(dir)
		gen.Fill(g, p, w)
		env := mon.NewEnv(w)
		s := env.Session()
		gw := gen.NewW(g, p, w)
		for k := 0; k < 6; k++ {
			ns := names(g, gw, 1+g.Intn(4))
			over, defs := amap(g, ns, .12), amap(g, ns, .4)
			merge := g.MergeOpt(.3)
			var opts dgo.Map
			if merge != nil {
				opts = vf.Map("merge", mon.ToDgo(merge))
			}
			lookup := func(name string) model.Outcome { return model.NewEval(w).Lookup(name, merge) }

			if k%3 == 2 { // all
				var tp dgo.StructMapType
				ets := map[string]dgo.Type{}
				ttext := "-"
				if g.P(.5) {
					fs := []string{}
					for _, nm := range ns {
						if g.P(.9) && ets[nm] == nil {
							t := g.Pick(c09types...)
							ets[nm] = tf.ParseType(t)
							fs = append(fs, fmt.Sprintf("%s?:%s", tfQuote(nm), t))
						}
					}
					ttext = "{" + strings.Join(fs, ",") + "}"
					t, err := parseStruct(ttext)
					if err != nil {
						c.Add("unusable types", 1)
						continue
					}
					tp = t
				}
				want := vf.MutableMap()
				kind := ""
				predicted := true
				for _, nm := range ns {
					var v dgo.Value
					if ov := mget(over, nm); ov != nil {
						v = mon.ToDgo(ov)
					} else {
						o := lookup(nm)
						if o.Kind == "unsupported" {
							predicted = false
							break
						}
						if o.Kind == "error" {
							kind = "error"
							break
						}
						if o.Kind == "value" {
							v = mon.ToDgo(o.V)
						} else if dv := mget(defs, nm); dv != nil {
							v = mon.ToDgo(dv)
						}
					}
					if v == nil {
						continue
					}
					if tp != nil {
						t := ets[nm]
						if t == nil {
							kind = "error"
							break
						}
						if _, ok := v.(dgo.Map); !ok && strings.HasPrefix(t.String(), "map[") {
							predicted = false
							break
						}
						e := ensure(t, v)
						if e.Kind != "value" {
							kind = "error"
							break
						}
						v = e.V
					}
					want.Put(nm, v)
				}
				if !predicted {
					c.Add("calls without a prediction", 1)
					continue
				}
				got := mon.Try(func() dgo.Value { return hiera.LookupAll(env.Inv(s, nil), ns, tp, dmap(over), dmap(defs), opts) })
				exp := "<error>"
				if kind == "" {
					exp = mv.CanonDgo(want)
				}
				c.Add("LookupAll", 1)
				c.Case(fmt.Sprint("all", ns, mdump(over), mdump(defs), ttext, exp))
				if got.Canon != exp {
					c.Violation(fmt.Sprintf("LookupAll in case %d of %v, overrides %s, default values %s, type %s: expected %s, observed %s",
						i, ns, mdump(over), mdump(defs), ttext, exp, got), map[string]interface{}{"case": i, "world": w.Dump(), "merge": mv.Canon(merge)})
					return
				}
				continue
			}

			var dv, dfv interface{}
			if g.P(.5) {
				dv = g.PlainValue(2, .1, false)
			}
			calls := 0
			var df dgo.Producer
			if g.P(.5) {
				if g.P(.9) {
					dfv = g.PlainValue(2, .1, false)
				}
				df = func() dgo.Value { calls++; return mon.ToDgo(dfv) }
			}
			ts := g.Pick(c09types...)
			tp := tf.ParseType(ts)
			if ts == "any" && g.P(.5) {
				tp = nil
			}
			var v dgo.Value
			stage, wantCalls, predicted := "nothing", 0, true
		find:
			for {
				for _, nm := range ns {
					if ov := mget(over, nm); ov != nil {
						v, stage = mon.ToDgo(ov), "override"
						break find
					}
				}
				for _, nm := range ns {
					o := lookup(nm)
					switch o.Kind {
					case "unsupported":
						predicted = false
						break find
					case "error":
						stage = "error"
						break find
					case "value":
						v, stage = mon.ToDgo(o.V), "data"
						break find
					}
				}
				for _, nm := range ns {
					if d := mget(defs, nm); d != nil {
						v, stage = mon.ToDgo(d), "default values"
						break find
					}
				}
				if dv != nil {
					v, stage = mon.ToDgo(dv), "default"
					break
				}
				if df != nil {
					v, stage, wantCalls = mon.ToDgo(dfv), "default function", 1
				}
				break
			}
			if v != nil && tp != nil && strings.HasPrefix(ts, "map[") {
				if _, ok := v.(dgo.Map); !ok {
					predicted = false
				}
			}
			if v == nil && stage == "default function" && tp != nil {
				predicted = false
			}
			if !predicted {
				c.Add("calls without a prediction", 1)
				continue
			}
			exp := mon.Obs{Kind: "absent", Canon: "<absent>"}
			if stage == "error" {
				exp = mon.Obs{Kind: "error", Canon: "<error>"}
			} else if v != nil {
				exp = ensure(tp, v)
			}
			got := mon.Try(func() dgo.Value {
				return hiera.Lookup2(env.Inv(s, nil), ns, tp, mon.ToDgo(dv), dmap(over), dmap(defs), opts, df)
			})
			c.Add("Lookup2 decided by "+stage, 1)
			if exp.Kind == "value" && tp != nil && ts != "any" {
				c.Add("typed results", 1)
				if !tp.Instance(v) {
					c.Add("converted results", 1)
				}
			}
			if exp.Kind == "error" && stage != "error" {
				c.Add("type errors", 1)
			}
			text := fmt.Sprintf("%v, overrides %s, default values %s, default %s, function %t %s, type %s", ns, mdump(over), mdump(defs), mv.Canon(dv), df != nil, mv.Canon(dfv), ts)
			c.Case(text + exp.Canon)
			if i%401 == 0 {
				c.Sample(map[string]interface{}{"arguments": text, "decided by": stage, "observed": got.String()})
			}
			bad := ""
			switch {
			case got.Canon != exp.Canon:
				bad = "expected " + exp.String() + " (" + stage + "), observed " + got.String()
			case calls != wantCalls:
				bad = fmt.Sprintf("the default function was called %d times, expected %d", calls, wantCalls)
			case got.Kind == "value" && tp != nil && !tp.Instance(got.V):
				bad = "not an instance of the type: " + got.String()
			}
			if bad != "" {
				c.Violation(fmt.Sprintf("Lookup2 in case %d of %s: %s", i, text, bad),
					map[string]interface{}{"case": i, "world": w.Dump(), "merge": mv.Canon(merge)})
				return
			}
		}
	})
	c09options(c)
	for _, st := range []string{"override", "data", "default values", "default", "default function", "nothing", "error"} {
		c.Need("Lookup2 decided by "+st, 40)
	}
	c.Need("converted results", 100)
	c.Need("type errors", 100)
	c.Need("LookupAll", 500)
}

// c09options passes options of all kinds to Lookup. Those without a merge have no effect, and those that aren't a map are
// an error, also when it is the default that decides.
func c09options(c *C) {
	dir := c.Dir()
	defer c.Drop(dir)
	write(filepath.Join(dir, "data/a.yaml"), "a: [1, 2]\nm: {x: 1}\nlookup_options: {l: {merge: unique}}\nl: [1, 1]\n")
	write(filepath.Join(dir, "data/b.yaml"), "a: [2, 3]\nm: {y: 2}\nl: [2]\n")
	write(filepath.Join(dir, "hiera.yaml"), "version: 5\nhierarchy: [{name: a, path: a.yaml}, {name: b, path: b.yaml}]\n")
	env := mon.NewEnv(&model.World{Root: dir, Cfg: &model.Config{}})
	s := env.Session()
	defer s.KillPlugins()
	type m = map[string]interface{}
	var none dgo.Map
	def := vf.String("default")
	for name, want := range map[string]string{"a": "[i1,i2]", "m": "", "l": "[i1,i2]", "no": ""} {
		plain := mon.Try(func() dgo.Value { return hiera.Lookup(env.Inv(s, nil), name, def, nil) })
		if want != "" && plain.Canon != want {
			c.Violation(fmt.Sprintf("lookup of %s without options gives %s, expected %s", name, plain, want), nil)
		}
		for i, o := range []struct {
			opts interface{}
			same string // the merge that gives the same, or - for an error
		}{{none, ""}, {vf.Nil, ""}, {vf.Map(), ""}, {m{}, ""}, {m{"other": "x"}, ""}, {m{"Merge": "deep"}, ""}, {m{"convert_to": "int"}, ""},
			{vf.Map("merge", "deep"), "deep"}, {m{"merge": "deep"}, "deep"}, {map[string]string{"merge": "unique"}, "unique"}, {m{"merge": m{"strategy": "hash"}, "x": 1}, "hash"}, {m{"merge": "first"}, "first"},
			{"deep", "-"}, {5, "-"}, {[]string{"merge", "deep"}, "-"}, {vf.String("merge"), "-"}, {true, "-"}} {
			got := mon.Try(func() dgo.Value { return hiera.Lookup(env.Inv(s, nil), name, def, o.opts) })
			exp := plain
			switch o.same {
			case "":
			case "-":
				exp = mon.Obs{Kind: "error", Canon: "<error>"}
			default:
				exp = mon.Try(func() dgo.Value {
					return hiera.Lookup2(env.Inv(s, nil), []string{name}, nil, def, nil, nil, vf.Map("merge", o.same), nil)
				})
			}
			c.Case(fmt.Sprint("options", name, i))
			c.Add("calls with options of all kinds", 1)
			if got.Canon != exp.Canon {
				c.Violation(fmt.Sprintf("lookup of %s with the options %v gives %s, expected %s", name, o.opts, got, exp), nil)
			}
		}
	}
	// The provider of providers has none
	for _, fs := range []interface{}{nil, []sdk.LookupKey{}} {
		opts := m{api.HieraRoot: dir}
		if fs != nil {
			opts[provider.LookupKeyFunctions] = fs
		}
		sn := session.New(context.Background(), provider.MuxLookupKey, opts, nil)
		for _, merge := range []string{"first", "unique", "hash", "deep"} {
			for _, d := range []dgo.Value{nil, def} {
				got := mon.Try(func() dgo.Value { return hiera.Lookup(sn.Invocation(nil, nil), "a", d, m{"merge": merge}) })
				exp := mon.Try(func() dgo.Value { return d })
				c.Case(fmt.Sprint("mux", fs == nil, merge, d))
				if got.Canon != exp.Canon {
					c.Violation(fmt.Sprintf("lookup with no providers and the default %v gives %s", d, got), nil)
				}
			}
		}
	}
}

// ToMap converts a map
func ToMap(m *mv.Map) dgo.Map { return mon.ToDgo(m).(dgo.Map) }

func tfQuote(s string) string { return fmt.Sprintf("%q", s) }

func parseStruct(s string) (t dgo.StructMapType, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	t, ok := tf.ParseType(s).(dgo.StructMapType)
	if !ok {
		err = fmt.Errorf("not a struct type")
	}
	return
}
