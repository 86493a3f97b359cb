package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	log "github.com/sirupsen/logrus"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C10", "a lookup that is affected by convert_to, or one in a world with secrets; distinct by key, value and data", c10)
}

type lockedBuffer struct {
	sync.Mutex
	b bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.Lock()
	defer l.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string {
	l.Lock()
	defer l.Unlock()
	return l.b.String()
}

// clearText returns the places in a value, outside of sensitive values, where the token occurs
func clearText(v dgo.Value, token, at string) string {
	switch v := v.(type) {
	case nil:
		return ""
	case dgo.Sensitive:
		if strings.Contains(v.String(), token) {
			return at + " (text of sensitive)"
		}
		return ""
	case dgo.String:
		if strings.Contains(v.GoString(), token) {
			return at
		}
	case dgo.Array:
		for i := 0; i < v.Len(); i++ {
			if r := clearText(v.Get(i), token, fmt.Sprintf("%s[%d]", at, i)); r != "" {
				return r
			}
		}
	case dgo.Map:
		r := ""
		v.EachEntry(func(e dgo.MapEntry) {
			if r == "" {
				if r = clearText(e.Key(), token, at+" key"); r == "" {
					r = clearText(e.Value(), token, at+"."+e.Key().String())
				}
			}
		})
		return r
	default:
		if strings.Contains(v.String(), token) {
			return at
		}
	}
	return ""
}

func c10(c *C) {
	prof := func(g *gen.G) *gen.Profile {
		p := gen.Default()
		p.LuOpts, p.Convert, p.Strategy = .8, .7, .5
		p.Sparse = .35
		p.InterpVal = .25
		p.Shape = .9
		p.Depth = 2
		return p
	}
	each := func(wc *WorldCase) {
		if wc.Want.Kind == "value" && strings.Contains(wc.Want.Canon(), "sensitive") {
			c.Add("sensitive values compared", 1)
		}
	}
	c.RunWorlds(WorldRun{Name: "convert", Profile: prof, Worlds: c.N(1800, 40000), Keys: 8, MergeP: .4, Each: each})
	c.RunWorlds(WorldRun{Name: "mod", Profile: func(g *gen.G) *gen.Profile {
		p := prof(g)
		p.HasModules = true
		p.Providers = [][]string{{"config", "module"}}
		return p
	}, Worlds: c.N(300, 6000), Keys: 8, MergeP: .4, Each: each})
	if c.Violations() > 0 {
		return
	}
	c10table(c)
	c10secrets(c)
	c.Need("sensitive values compared", 100)
	c.Need("texts searched for secrets", 5000)
	c.Need("texts with a redacted value", 500)
	c.Need("error messages searched", 500)
}

// c10table converts known values, found in every kind of source and in different ways
func c10table(c *C) {
	type row struct {
		v, to, want interface{} // a want of nil is an error
	}
	rows := []row{
		{"ff", mv.L("int", 16), 255}, {"101", mv.L("int", 2), 5}, {"17", mv.L("int", 8), 15}, {"17", mv.L("int", 10), 17}, {"17", mv.L("int"), 17},
		{"zz", mv.L("int", 16), nil}, {"42", "int", 42}, {"-7", "int", -7}, {3.9, "int", 3}, {true, "int", 1}, {"abc", "int", nil}, {mv.L(1), "int", nil},
		{"1.5", "float", 1.5}, {3, "float", 3.0}, {"x", "float", nil}, {"true", "bool", true}, {"false", "bool", false}, {"maybe", "bool", nil},
		{0, "bool", false}, {42, "string", "42"}, {true, "string", "true"}, {1.5, "string", "1.5"}, {"s", "string", "s"},
		{"aGVsbG8=", "binary", mv.Binary("hello")}, {"!!", "binary", nil}, {mv.L("a", 1), "map[string]int", mv.NewMap("a", 1)},
		{"5", "0..9", 5}, {"50", "0..9", nil}, {"pw", "sensitive", mv.Sensitive{V: "pw"}}, {mv.L(1, "x"), "sensitive", mv.Sensitive{V: mv.L(1, "x")}},
		{mv.NewMap("a", 1), mv.L("sensitive"), mv.Sensitive{V: mv.NewMap("a", 1)}}, {7, mv.L("sensitive"), mv.Sensitive{V: 7}}, {"x", "nosuchtype", nil},
		{"12", mv.L(), "12"}, {mv.L(1), mv.L(), mv.L(1)}, {"x", 5, nil}, {"x", mv.NewMap("int", 1), nil}, {"x", mv.L(1), nil}, {"5", mv.L(mv.L("int")), nil},
		{"ab", mv.L("string", "%5s"), "   ab"}, {"ab", mv.L("string", "%-4s"), "ab  "}, {"a'b", mv.L("string", "%q"), `"a'b"`}, {"x", mv.L("string", "text"), nil},
		{42, mv.L("string", "%04d"), "0042"}, {255, mv.L("string", "%x"), "ff"}, {2.5, mv.L("string", "%.2f"), "2.50"}, {true, mv.L("string", "%t"), "true"},
		{7, mv.L("int", 16), 7}, {7, mv.L("int", 16, 2), nil}, {7, mv.L("int", "x"), nil}, {"s", mv.L("string", 5), nil}}
	n := c.N(8, 40) * len(rows)
	c.Parallel(n, func(i int) {
		g := c.G("table", i)
		r := rows[i%len(rows)]
		w := &model.World{Env: map[string]string{}, Tables: map[string]map[string]*mv.Map{}, Cfg: &model.Config{Files: map[string]*model.File{}}}
		lo := mv.NewMap("key", mv.NewMap("convert_to", r.to))
		if g.P(.4) {
			lo.Get("key").(*mv.Map).Put("merge", g.Pick("first", "deep", "hash"))
		}
		d := mv.NewMap("key", r.v, "ali", "%{alias('key')}", "lst", mv.L("%{strict_alias('key')}"))
		ld := mv.NewMap("lookup_options", lo)
		if g.P(.5) {
			d.Put("lookup_options", lo)
			ld = mv.NewMap("other", 1)
		}
		for j, dd := range []*mv.Map{ld, d} {
			e := &model.Entry{Name: fmt.Sprint("e", j)}
			f := g.Pick("yaml", "json", "hv_hash", "hv_key", "hv_dig")
			switch f {
			case "yaml", "json":
				fn := fmt.Sprintf("f%d.%s", j, f)
				e.FnKind, e.FnName = "data_hash", f+"_data"
				e.Loc = &model.Loc{Kind: "path", Args: []string{fn}}
				w.Cfg.Files["data/"+fn] = &model.File{Format: f, V: dd}
			default:
				e.FnKind = map[string]string{"hv_hash": "data_hash", "hv_key": "lookup_key", "hv_dig": "data_dig"}[f]
				e.FnName, e.Options = f, mv.NewMap("id", e.Name)
				w.Tables[e.Name] = map[string]*mv.Map{"": dd}
			}
			w.Cfg.Entries = append(w.Cfg.Entries, e)
		}
		dir := c.Dir()
		defer c.Drop(dir)
		w.Write(dir)
		env := mon.NewEnv(w)
		s := env.Session()
		for _, key := range []string{"key", "ali", "lst", "lst.0"} {
			want := "<error>"
			if r.want != nil {
				want = mv.Canon(r.want)
				if key == "lst" {
					want = mv.Canon(mv.L(r.want))
				}
			}
			merge := g.MergeOpt(.2)
			if m, ok := merge.(string); ok && m == "unique" {
				merge = nil
			}
			o := env.Lookup(s, key, merge)
			c.Add("conversions of known values", 1)
			c.Case(fmt.Sprint(i, key, want))
			if m, ok := merge.(*mv.Map); ok && m.Get("strategy") == "unique" {
				continue
			}
			if o.Canon != want {
				c.Violation(fmt.Sprintf("conversion of %s to %s, lookup of %s: expected %s, observed %s", mv.Canon(r.v), mv.Canon(r.to), key, want, o),
					map[string]interface{}{"case": i, "world": w.Dump()})
			}
		}
	})
	c.Need("conversions of known values", 500)
}

var convertible = []string{"sensitive", "sensitive", "sensitive", "list", "typed"}

func c10secrets(c *C) {
	logs := &lockedBuffer{}
	log.SetOutput(logs)
	log.SetLevel(log.TraceLevel)
	errFile := filepath.Join(c.Tmp, "stderr")
	ef, err := os.Create(errFile)
	if err != nil {
		panic(err)
	}
	oldErr, oldOut := os.Stderr, os.Stdout
	os.Stderr, os.Stdout = ef, ef
	defer func() {
		log.SetOutput(io.Discard)
		os.Stderr, os.Stdout = oldErr, oldOut
		_ = ef.Close()
	}()

	n := c.N(1500, 25000)
	c.Parallel(n, func(i int) {
		g := c.G("secrets", i)
		token := fmt.Sprintf("7%07d%d", g.Intn(10000000), 1000+i)
		secret := func() interface{} {
			switch g.Intn(6) {
			case 0:
				return mv.NewMap("user", "u", "pw", "p"+token, token, "v", "nested", mv.L(token))
			case 1:
				return mv.L("a", token, mv.NewMap("x", token))
			case 2:
				v := int64(0)
				_, _ = fmt.Sscan(token, &v)
				return v
			case 3:
				return "line1\n" + token + "\nline3"
			}
			return "pw-" + token
		}
		keys := []string{"s1", "s2", "s3", "mymod::s4"}
		luo := mv.NewMap()
		shape := map[string]int{}
		for _, k := range keys {
			o := mv.NewMap()
			switch g.Pick(convertible...) {
			case "sensitive":
				o.Put("convert_to", "sensitive")
			case "list":
				o.Put("convert_to", mv.L("sensitive"))
			case "typed":
				o.Put("convert_to", g.Pick("sensitive[any]", "sensitive"))
			}
			if g.P(.5) {
				o.Put("merge", g.Pick("first", "unique", "deep", "hash"))
			}
			luo.Put(k, o)
			shape[k] = g.Intn(3)
		}
		ref := func() string {
			k := g.Pick(keys...)
			if g.P(.2) {
				k += g.Pick(".pw", ".0", ".nested.0", ".user", "."+token, ".x")
			}
			q := g.Pick("'", `"`)
			return "%{" + g.Pick("lookup", "hiera", "lookup", "hiera", "alias", "strict_alias") + "(" + q + k + q + ")}"
		}
		var public func(d int) interface{}
		public = func(d int) interface{} {
			switch g.Intn(6) {
			case 0:
				return ref()
			case 1:
				if d > 0 {
					return mv.L("x", public(d-1), public(d-1))
				}
			case 2:
				if d > 0 {
					return mv.NewMap("k", public(d-1), "<"+strings.Replace(strings.Replace(ref(), "strict_alias", "lookup", 1), "alias", "lookup", 1)+">", "v")
				}
			case 3:
				return "a " + ref() + " b" // an error when ref is an alias
			case 4:
				return "user:" + strings.Replace(strings.Replace(ref(), "strict_alias", "lookup", 1), "alias", "lookup", 1) + "%{sv}%{iv}"
			}
			return "%{lookup('" + g.Pick("p1", "p2", "p3") + "x')}"
		}
		w := &model.World{Env: map[string]string{}, Tables: map[string]map[string]*mv.Map{}, Cfg: &model.Config{Files: map[string]*model.File{}}}
		w.Sess = mv.NewMap("sv", "%{lookup('s1')}", "plain", "pl")
		w.Inv = mv.NewMap("iv", mv.L("%{hiera('s2')}", "%{alias('s3')}"), "ok", 1)
		data := func() *mv.Map {
			m := mv.NewMap()
			for _, k := range keys {
				if g.P(.6) {
					m.Put(k, secret())
				}
			}
			for _, k := range []string{"p1", "p2", "p3"} {
				if g.P(.7) {
					m.Put(k, public(2))
				}
				if g.P(.7) {
					m.Put(k+"x", ref())
				}
			}
			if g.P(.1) {
				m.Put("p1", "%{nomethod('"+token[:3]+"')} "+"%{lookup('s1')}")
			}
			return m
		}
		mod := &model.Config{Files: map[string]*model.File{}}
		ns := 1 + g.Intn(4)
		for k := 0; k < ns; k++ {
			d := data()
			if k == 0 {
				d.Put("lookup_options", luo)
				for _, k := range keys[:3] {
					if d.Get(k) == nil {
						d.Put(k, secret())
					}
				}
			}
			e := &model.Entry{Name: fmt.Sprint("e", k)}
			switch g.Intn(5) {
			case 0, 1:
				f := g.Pick("yaml", "json")
				fn := fmt.Sprintf("f%d.%s", k, f)
				e.FnKind, e.FnName = "data_hash", f+"_data"
				e.Loc = &model.Loc{Kind: "path", Args: []string{fn}}
				w.Cfg.Files["data/"+fn] = &model.File{Format: f, V: d}
			default:
				kind := g.Pick("data_hash:hv_hash", "lookup_key:hv_key", "data_dig:hv_dig")
				p := strings.Split(kind, ":")
				e.FnKind, e.FnName, e.Options = p[0], p[1], mv.NewMap("id", e.Name)
				w.Tables[e.Name] = map[string]*mv.Map{"": d}
			}
			w.Cfg.Entries = append(w.Cfg.Entries, e)
		}
		if g.P(.5) {
			mo := mv.NewMap("convert_to", "sensitive")
			mod.Entries = []*model.Entry{{Name: "m", Loc: &model.Loc{Kind: "path", Args: []string{"m.yaml"}}}}
			mod.Files["data/m.yaml"] = &model.File{Format: "yaml", V: mv.NewMap("mymod::s4", secret(), "mymod::p4", public(2), "lookup_options", mv.NewMap("mymod::s4", mo))}
			w.ModPaths = []*model.ModPath{{Dir: "mods", Mods: []*model.Mod{{Dir: "mymod", Cfg: mod}}}}
			w.Providers = []string{"config", "module"}
		}
		dir := c.Dir()
		defer c.Drop(dir)
		w.Write(dir)
		env := mon.NewEnv(w)
		env.NoTrace = true
		s := env.Session()
		bad := func(key, how, text string) {
			c.Violation(fmt.Sprintf("secret in clear text in case %d, lookup of %s: %s", i, key, how),
				map[string]interface{}{"case": i, "token": token, "text": text, "world": w.Dump()})
		}
		for _, key := range []string{"s1", "s2", "s3", "p1", "p2", "p3", "p1x", "mymod::s4", "mymod::p4", "s1.pw", "s2.0", "s3." + token, "p1.1", "p2.k"} {
			merge := g.MergeOpt(.3)
			tp := ""
			f := func() dgo.Value { return hiera.Lookup(env.Inv(s, nil), key, nil, mon.MergeOption(merge)) }
			if g.P(.4) { // require a type
				tp = g.Pick("string", "int", "[]string", "map[string]int", "0..3", `"a"|"b"`, "bool", "float", "sensitive[int]", "binary")
				t := tf.ParseType(tp)
				f = func() dgo.Value {
					var opts dgo.Map
					if merge != nil {
						opts = mon.MergeOption(merge).(dgo.Map)
					}
					return hiera.Lookup2(env.Inv(s, nil), []string{"nokey", key}, t, nil, nil, nil, opts, nil)
				}
			}
			want := model.NewEval(w).Lookup(key, merge)
			o := mon.Try(f)
			c.Case(fmt.Sprint(i, key, tp, o.Canon))
			if tp == "" && want.Kind != "unsupported" && !o.Same(want) {
				c.Violation(fmt.Sprintf("lookup of %s in case %d: expected %s, observed %s", key, i, want, o), map[string]interface{}{"world": w.Dump()})
				return
			}
			switch o.Kind {
			case "error", "crash":
				c.Add("error messages searched", 1)
				c.Seen("error messages", strings.ReplaceAll(o.Err, token, "TOKEN"))
				if strings.Contains(o.Err, token) && !(strings.HasSuffix(key, token) || strings.HasPrefix(o.Err, "recursive lookup detected") && !strings.Contains(o.Err, "pw-")) {
					bad(key, "error message "+o.Err, o.Err)
					return
				}
			case "value":
				if strings.HasPrefix(key, "s") && key == key[:2] || key == "mymod::s4" {
					if _, ok := o.V.(dgo.Sensitive); !ok && tp == "" {
						bad(key, "the value is not sensitive", o.String())
						return
					}
					c.Add("sensitive values found", 1)
				}
				if at := clearText(o.V, token, "value"); at != "" {
					bad(key, at, o.Canon)
					return
				}
				txt := &bytes.Buffer{}
				hiera.Render(s, hiera.Text, o.V, txt)
				for _, t := range []string{o.V.String(), fmt.Sprint(o.V), fmt.Sprintf("%s %v", o.V, o.V), txt.String()} {
					c.Add("texts searched for secrets", 1)
					if strings.Contains(t, "redacted") {
						c.Add("texts with a redacted value", 1)
					}
					if strings.Contains(t, token) {
						bad(key, "text "+t, t)
						return
					}
				}
				if i%301 == 0 {
					c.Sample(map[string]interface{}{"key": key, "text": txt.String()})
				}
				be := mon.Try(func() dgo.Value { hiera.Render(s, hiera.Binary, o.V, io.Discard); return nil })
				if strings.Contains(be.Err, token) {
					bad(key, "binary rendering "+be.Err, be.Err)
				}
			}
			// the same as the command does it
			if g.P(.3) {
				out := &bytes.Buffer{}
				var d *string
				if g.P(.3) {
					x := "dflt"
					d = &x
				}
				m := ""
				if ms, ok := merge.(string); ok {
					m = ms
				}
				co := mon.Try(func() dgo.Value {
					hiera.LookupAndRender(s, &hiera.CommandOptions{RenderAs: "s", Merge: m, Type: tp, Default: d, Variables: []string{"iv=x"}}, []string{key}, out)
					return nil
				})
				c.Add("texts searched for secrets", 1)
				if strings.Contains(out.String(), token) || strings.Contains(co.Err, token) && !strings.HasSuffix(key, token) {
					bad(key, "rendered "+out.String()+co.Err, out.String())
					return
				}
			}
		}
		if l := logs.String(); strings.Contains(l, token) {
			bad("any", "log", l)
		}
	})
	c.Add("bytes logged", len(logs.String()))
	bs, _ := os.ReadFile(errFile)
	c.Add("bytes written to stderr and stdout", len(bs))
	for i := 0; i < n; i++ {
		g := c.G("secrets", i)
		if token := fmt.Sprintf("7%07d%d", g.Intn(10000000), 1000+i); bytes.Contains(bs, []byte(token)) {
			c.Violation(fmt.Sprintf("secret in the output of the process in case %d", i), map[string]interface{}{"token": token})
			return
		}
	}
	_ = provider.ModulePath
}
