package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C04", "a key text that was parsed, a dig, or a lookup that found a value or called a backend function; distinct by key, value and calls", c04)
}

func partsOf(k api.Key) []interface{} {
	ps := k.Parts()
	r := make([]interface{}, len(ps))
	for i, p := range ps {
		r[i] = mv.Norm(p)
	}
	return r
}

// strangeNames are names of root keys that need quotes
var strangeNames = []string{"a.b", "0", "12", "-3", "it's", `say "hi"`, "a b", "a.b.c.", "..", ".", "1.5", "æ.ø", "a.'b", "x,y", "%"}

func quoteName(g *gen.G, n string) string {
	switch {
	case strings.Contains(n, "'"):
		return `"` + n + `"`
	case strings.Contains(n, `"`):
		return "'" + n + "'"
	}
	return g.Quote(n)
}

func c04(c *C) {
	// Parsing
	c.Parallel(c.N(60000, 900000), func(i int) {
		g := c.G("parse", i)
		b := strings.Builder{}
		for n := g.Intn(9); n > 0; n-- {
			b.WriteString(g.Pick("a", "b", "k1", "é", " ", ".", ".", ".", "'", `"`, "0", "1", "-1", "12", "::", "x.y", "'q'", `"d.d"`, "'a.b'", "007", "_", "%"))
		}
		s := b.String()
		for _, p := range strings.FieldsFunc(s, func(r rune) bool { return r == '.' || r == '\'' || r == '"' }) {
			if len(p) > 9 && strings.Trim(p, "-0123456789") == "" {
				return // beyond what an index can be
			}
		}
		want := model.Run(func() interface{} { return model.ParseKey(s) })
		if want.Kind == "unsupported" {
			return
		}
		var k api.Key
		got := mon.Try(func() dgo.Value { k = api.NewKey(s); return nil })
		c.Case("parse" + s)
		c.Add("keys parsed", 1)
		d := map[string]interface{}{"key": s, "expected": want.String(), "observed": got.String()}
		if want.Kind == "error" {
			c.Add("malformed keys", 1)
			if got.Kind != "error" {
				c.Violation(fmt.Sprintf("malformed key <%s> was accepted", s), d)
			}
			return
		}
		if got.Kind == "error" {
			c.Violation(fmt.Sprintf("key <%s> was rejected: %s", s, got.Err), d)
			return
		}
		if gp := mv.Canon(partsOf(k)); gp != want.Canon() {
			c.Violation(fmt.Sprintf("key <%s> has parts %s, expected %s", s, gp, want), d)
		}
		if k.Source() != s || mv.Canon(k.Root()) != mv.Canon(want.V.([]interface{})[0]) || !k.Equals(api.NewKey(s)) {
			c.Violation(fmt.Sprintf("key <%s> has source %s and root %s", s, k.Source(), k.Root()), d)
		}
		env := mon.NewEnv(&model.World{Root: "/nonexistent-hv", Cfg: &model.Config{Absent: true}})
		s2 := env.Session()
		// A key that was rendered and decoded is the same key
		o := mon.Try(func() dgo.Value {
			b := &bytes.Buffer{}
			hiera.Render(s2, hiera.JSON, k, b)
			return streamer.UnmarshalJSON(b.Bytes(), s2.Dialect())
		})
		c.Add("keys decoded", 1)
		if dk, ok := o.V.(api.Key); !ok || dk.Source() != s || mv.Canon(partsOf(dk)) != want.Canon() {
			c.Violation(fmt.Sprintf("key <%s> is rendered as JSON and decoded into %s", s, o), d)
		}
		// Bury and dig
		v := mon.ToDgo(g.PlainValue(2, .1, true))
		cv := mv.CanonDgo(v)
		o = mon.Try(func() dgo.Value { return k.Dig(s2.Invocation(nil, nil), k.Bury(v)) })
		c.Add("values buried", 1)
		if o.Canon != cv {
			c.Violation(fmt.Sprintf("value %s buried with <%s> is dug as %s", cv, s, o), d)
		}
		bc := cv
		ps := want.V.([]interface{})
		for j := len(ps) - 1; j > 0; j-- {
			bc = "{" + mv.Canon(ps[j]) + ":" + bc + "}"
		}
		if o = mon.Try(func() dgo.Value { return k.Bury(v) }); o.Canon != bc {
			c.Violation(fmt.Sprintf("value %s buried with <%s> is %s", cv, s, o), d)
		}
	})
	// Digging
	c.Parallel(c.N(20000, 300000), func(i int) {
		g := c.G("dig", i)
		v := g.PlainValue(4, .1, true)
		env := mon.NewEnv(&model.World{Root: "/nonexistent-hv", Cfg: &model.Config{Absent: true}})
		s := env.Session()
		dv := mon.ToDgo(v)
		for j := 0; j < 4; j++ {
			ks := "r"
			cur := v
			for n := 1 + g.Intn(4); n > 0; n-- {
				seg := g.Pick("k1", "k2", "0", "1", "'0'", "'a.b'", "-1", "99", "k3")
				// mostly follow what is there
				switch cv := cur.(type) {
				case *mv.Map:
					if cv.Len() > 0 && g.P(.8) {
						k := cv.Keys[g.Intn(cv.Len())]
						cur = cv.Get(k)
						if s, ok := k.(string); ok {
							seg = s
							if strings.Contains(s, ".") || s == "0" {
								seg = g.Quote(s)
							}
						} else {
							seg = fmt.Sprint(k)
						}
					}
				case []interface{}:
					if g.P(.8) {
						ix := g.Intn(len(cv)+2) - 1
						seg = fmt.Sprint(ix)
						if ix >= 0 && ix < len(cv) {
							cur = cv[ix]
						}
					}
				}
				ks += "." + seg
			}
			want := model.Run(func() interface{} { return model.Dig(model.ParseKey(ks), v) })
			got := mon.Try(func() dgo.Value { return api.NewKey(ks).Dig(s.Invocation(nil, nil), dv) })
			c.Case("dig" + ks + want.String())
			c.Add("digs "+want.Kind, 1)
			if !got.Same(want) {
				c.Violation(fmt.Sprintf("dig of <%s> in %s: expected %s, observed %s", ks, mv.Canon(v), want, got), map[string]interface{}{"case": i})
			}
		}
	})
	law := func(wc *WorldCase) {
		// following the segments after a lookup of the root is the same as looking up the key
		r := model.Run(func() interface{} { return model.ParseKey(wc.Key) })
		if r.Kind != "value" || len(r.V.([]interface{})) < 2 || wc.Got.Kind == "error" {
			return
		}
		ps := r.V.([]interface{})
		root := quoteName(wc.G, ps[0].(string))
		s := wc.Env.Session()
		ro := wc.Env.Lookup(s, root, wc.Merge)
		o := ro
		if ro.Kind == "value" {
			o = mon.Try(func() dgo.Value { return api.NewKey(wc.Key).Dig(s.Invocation(nil, nil), ro.V) })
		}
		c.Add("dug lookups compared with lookup of the root", 1)
		if o.Canon != wc.Got.Canon {
			c.Violation(fmt.Sprintf("lookup of <%s> gives %s, following it in the value of %s gives %s", wc.Key, wc.Got, root, o), wc.Detail())
		}
	}
	prof := func(g *gen.G) *gen.Profile {
		p := gen.Default()
		p.InterpVal, p.InterpCfg, p.Depth = .1, .02, 4
		p.Sparse, p.IntKeys = .2, .2
		p.Key, p.Dig = 5, 4
		return p
	}
	keys := func(w *gen.W) string {
		k := quoteName(w.G, w.P.Keys[w.Intn(len(w.P.Keys))])
		if !strings.ContainsAny(k, ". ") && strings.Trim(k, "'\"0123456789-") != "" && w.G.P(.6) {
			k = strings.Trim(k, `'"`)
		}
		for n := w.Intn(4); n > 0; n-- {
			k += "." + w.Pick("k1", "k2", "k3", "k4", "0", "1", "2", "-1", "'a.b'", "'0'", "99", `"k1"`)
		}
		if w.G.P(.04) {
			k = w.Pick("0.a", "a..b", "'x", ".a", "a.", "", "12", "alpha.'k1", "alpha..k1", `"a.b`, "alpha.k1.", "-1")
		}
		return k
	}
	c.RunWorlds(WorldRun{Name: "dug", Profile: prof, Worlds: c.N(900, 15000), Keys: 12, MergeP: .2, KeyGen: keys, Each: law})
	c.RunWorlds(WorldRun{Name: "literal", Profile: func(g *gen.G) *gen.Profile {
		p := prof(g)
		p.Keys = strangeNames
		p.InterpVal = 0
		p.Providers = [][]string{nil, {"config"}, {"custom1", "config"}}
		return p
	}, Worlds: c.N(900, 15000), Keys: 12, MergeP: .2, KeyGen: keys, Each: law})
	c.Need("malformed keys", 1000)
	c.Need("digs value", 5000)
	c.Need("dug lookups compared with lookup of the root", 2000)
}
