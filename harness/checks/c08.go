package checks

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C08", "a configuration and how it is used; distinct by its text and the kind of mutation", c08)
}

// cfgGen generates valid configurations that have the data sk = sv in some source
type cfgGen struct {
	*gen.G
	n int
}

func (g *cfgGen) optName() string {
	return g.Pick("a", "Z", "opt", "my_opt", "my-opt", "o1", "A-b_C9", "x__y", "q-1", "pathX", "urif", "Path", "URI", "paths", "uris", "glob", "data")
}

func (g *cfgGen) options() *mv.Map {
	m := mv.NewMap()
	for i := g.Intn(4); i > 0; i-- {
		m.Put(g.optName(), g.PlainValue(2, .1, false))
	}
	return m
}

func (g *cfgGen) fn(m *mv.Map, hash bool) {
	switch g.Intn(5) {
	case 0:
		m.Put("data_hash", g.Pick("yaml_data", "json_data", "hv_hash"))
	case 1:
		if !hash {
			m.Put("lookup_key", g.Pick("hv_key", "scope", "environment"))
		}
	case 2:
		if !hash {
			m.Put("data_dig", "hv_dig")
		}
	case 3:
		m.Put("data_hash", "yaml_data")
	}
}

func strs(ss ...string) []interface{} {
	r := make([]interface{}, len(ss))
	for i, s := range ss {
		r[i] = s
	}
	return r
}

func (g *cfgGen) loc(m *mv.Map) {
	switch g.Intn(9) {
	case 0:
		m.Put("path", g.Pick("no.yaml", "a/b/c", "%{x}.yaml", "/no/such/file"))
	case 1:
		m.Put("paths", strs("no1.yaml", "no2", "no3")[:1+g.Intn(3)])
	case 2:
		m.Put("glob", g.Pick("no*/*.yaml", "zz*"))
	case 3:
		m.Put("globs", strs("no*.yaml", "nono?", "no/**/x")[:1+g.Intn(3)])
	case 4:
		if _, ok := m.Get("data_hash").(string); !ok {
			return
		}
		m.Put("data_hash", "hv_hash")
		m.Put("uri", g.Pick("http://localhost/a", "x:y"))
	case 5:
		if _, ok := m.Get("data_hash").(string); !ok {
			return
		}
		m.Put("data_hash", "hv_hash")
		m.Put("uris", strs("http://h/1", "u:2", "v:3")[:1+g.Intn(3)])
	case 6:
		m.Put("mapped_paths", strs(g.Pick("nosuch", "lst"), "it", "no/%{it}.yaml"))
	}
}

func (g *cfgGen) entry() *mv.Map {
	g.n++
	m := mv.NewMap("name", fmt.Sprintf("%s%d", g.Pick("entry ", "e", "Höjd ", "x.y ", "defaults", "'q' ", "%{x}"), g.n))
	g.fn(m, false)
	g.loc(m)
	if m.Get("data_hash") == "yaml_data" || m.Get("data_hash") == "json_data" || m.Get("data_hash") == nil && m.Get("lookup_key") == nil && m.Get("data_dig") == nil {
		if len(m.Keys) == 1 || !hasLoc(m) {
			m.Put("path", "no.yaml")
		}
	}
	if g.P(.4) {
		m.Put("options", g.options())
	}
	if g.P(.3) {
		m.Put("datadir", g.Pick("data", "nodir", "../x", "/no/such/dir", "d%{x}"))
	}
	if g.P(.2) {
		m.Put("plugindir", g.Pick("plugin", "/p", "x%{x}"))
	}
	if g.P(.2) {
		m.Put("pluginfile", g.Pick("p.sh", "plug"))
	}
	return m
}

func hasLoc(m *mv.Map) bool {
	for _, k := range locKeys {
		if m.Get(k) != nil {
			return true
		}
	}
	return false
}

var locKeys = []string{"path", "paths", "glob", "globs", "uri", "uris", "mapped_paths"}

func locValue(k string) interface{} {
	switch k {
	case "path", "glob", "uri":
		return "other"
	case "mapped_paths":
		return strs("a", "b", "c")
	}
	return strs("other")
}

func (g *cfgGen) hierarchy(sentinel bool) []interface{} {
	var es []interface{}
	for i := g.Intn(5); i > 0; i-- {
		es = append(es, g.entry())
	}
	if sentinel {
		s := mv.NewMap("name", "sentinel", "data_hash", "yaml_data", "datadir", "data")
		switch g.Intn(5) {
		case 0:
			s.Put("path", "sentinel.yaml")
		case 1:
			s.Put("paths", strs("no.yaml", "sentinel.yaml"))
		case 2:
			s.Put("glob", "sent*.yaml")
		case 3:
			s.Put("globs", strs("no*", "sent*.yaml"))
		case 4:
			s.Put("mapped_paths", strs("lst", "it", "%{it}.yaml"))
		}
		p := g.Intn(len(es) + 1)
		es = append(es[:p], append([]interface{}{s}, es[p:]...)...)
	}
	if es == nil {
		es = []interface{}{}
	}
	return es
}

// valid generates a valid configuration
func (g *cfgGen) valid() *mv.Map {
	m := mv.NewMap()
	ks := []string{"version"}
	if g.P(.4) {
		ks = append(ks, "defaults")
	}
	if g.P(.85) {
		ks = append(ks, "hierarchy")
	}
	if g.P(.2) {
		ks = append(ks, "default_hierarchy")
	}
	g.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for _, k := range ks {
		switch k {
		case "version":
			m.Put(k, 5)
		case "defaults":
			d := mv.NewMap()
			g.fn(d, true)
			if m.Get("hierarchy") == nil && g.P(.3) {
				d.Put("data_hash", "yaml_data")
			}
			if g.P(.4) {
				d.Put("options", g.options())
			}
			if g.P(.5) {
				d.Put("datadir", g.Pick("data", "defdir"))
			}
			if g.P(.2) {
				d.Put("plugindir", g.Pick("plugin", "pd"))
			}
			m.Put(k, d)
		case "hierarchy":
			m.Put(k, g.hierarchy(true))
		case "default_hierarchy":
			m.Put(k, g.hierarchy(false))
		}
	}
	// When there is no hierarchy, the files data.yaml and common.yaml are read using the default function
	if d, ok := m.Get("defaults").(*mv.Map); ok && m.Get("hierarchy") == nil && d.Get("data_hash") != nil {
		d.Put("data_hash", "yaml_data")
	}
	return m
}

func (g *cfgGen) text(m *mv.Map) string {
	var t string
	if g.P(.7) {
		t = mv.YAML(m)
	} else {
		t = mv.JSON(m)
	}
	switch g.Intn(6) {
	case 0:
		t = "---\n" + t
	case 1:
		t = "# a comment\n\n" + t + "\n# end\n"
	}
	return t
}

// cfgMutation makes a valid configuration invalid. It returns false if it cannot be applied
type cfgMutation struct {
	name string
	f    func(g *cfgGen, m *mv.Map) bool
}

// anyEntry returns some entry, from any of the hierarchies
func (g *cfgGen) anyEntry(m *mv.Map) (*mv.Map, []interface{}) {
	var all []*mv.Map
	var hs [][]interface{}
	for _, k := range []string{"hierarchy", "default_hierarchy"} {
		if h, ok := m.Get(k).([]interface{}); ok {
			for _, e := range h {
				all, hs = append(all, e.(*mv.Map)), append(hs, h)
			}
		}
	}
	if len(all) == 0 {
		return nil, nil
	}
	i := g.Intn(len(all))
	return all[i], hs[i]
}

func (g *cfgGen) notString() interface{} {
	switch g.Intn(6) {
	case 0:
		return 3
	case 1:
		return true
	case 2:
		return mv.Null{}
	case 3:
		return strs("x")
	case 4:
		return mv.NewMap("x", "y")
	}
	return ""
}

func onEntry(f func(g *cfgGen, e *mv.Map, h []interface{}) bool) func(g *cfgGen, m *mv.Map) bool {
	return func(g *cfgGen, m *mv.Map) bool {
		e, h := g.anyEntry(m)
		if e == nil {
			return false
		}
		return f(g, e, h)
	}
}

func onDefaults(f func(g *cfgGen, d *mv.Map) bool) func(g *cfgGen, m *mv.Map) bool {
	return func(g *cfgGen, m *mv.Map) bool {
		d, ok := m.Get("defaults").(*mv.Map)
		if !ok {
			d = mv.NewMap()
			m.Put("defaults", d)
		}
		return f(g, d)
	}
}

func badOptions(g *cfgGen, e *mv.Map) bool {
	o, ok := e.Get("options").(*mv.Map)
	if !ok {
		o = mv.NewMap("ok", 1)
		e.Put("options", o)
	}
	o.Put(g.Pick("1a", "a_", "-a", "a b", "a-", "", "å", "a.b", "_", "a/"), "x")
	return true
}

func reserved(g *cfgGen, e *mv.Map) bool {
	o, ok := e.Get("options").(*mv.Map)
	if !ok {
		o = mv.NewMap()
		e.Put("options", o)
	}
	o.Put(g.Pick("path", "uri"), g.PlainValue(1, .1, false))
	return true
}

func twoFunctions(g *cfgGen, e *mv.Map) bool {
	fks := []string{"data_hash", "lookup_key", "data_dig"}
	n := 0
	for _, k := range g.Perm(3) {
		if e.Get(fks[k]) != nil {
			n++
			continue
		}
		if n < 2 {
			e.Put(fks[k], g.Pick("yaml_data", "hv_key", "f"))
			n++
		}
	}
	return true
}

var cfgMutations = []cfgMutation{
	{"version is another number", func(g *cfgGen, m *mv.Map) bool {
		m.Put("version", []interface{}{4, 3, 6, 0, -5, 55, 50}[g.Intn(7)])
		return true
	}},
	{"version has the wrong type", func(g *cfgGen, m *mv.Map) bool {
		m.Put("version", []interface{}{"5", "v5", strs("5"), mv.Null{}, true, mv.NewMap("x", 5), mv.L(5)}[g.Intn(7)])
		return true
	}},
	{"no version", func(g *cfgGen, m *mv.Map) bool { m.Delete("version"); return true }},
	{"unknown key", func(g *cfgGen, m *mv.Map) bool {
		m.Put(g.Pick("Hierarchy", "hierarchies", "backends", ":hierarchy", "default", "x", "options", "datadir"), g.PlainValue(2, .1, false))
		return true
	}},
	{"hierarchy has the wrong type", func(g *cfgGen, m *mv.Map) bool {
		m.Put(g.Pick("hierarchy", "default_hierarchy"), []interface{}{mv.Null{}, "x", mv.NewMap("name", "x"), 3, strs("common"), mv.L(mv.Null{})}[g.Intn(6)])
		return true
	}},
	{"defaults has the wrong type", func(g *cfgGen, m *mv.Map) bool {
		m.Put("defaults", []interface{}{mv.Null{}, "x", strs("x"), 3, mv.L(mv.NewMap("datadir", "data"))}[g.Intn(5)])
		return true
	}},
	{"unknown key in defaults", onDefaults(func(g *cfgGen, d *mv.Map) bool {
		k := g.Pick("name", "path", "paths", "glob", "globs", "uri", "uris", "mapped_paths", "pluginfile", "x", "data_dir", "lookup")
		v := interface{}("x")
		if k == "mapped_paths" || strings.HasSuffix(k, "s") {
			v = strs("a", "b", "c")
		}
		d.Put(k, v)
		return true
	})},
	{"value of the wrong type in defaults", onDefaults(func(g *cfgGen, d *mv.Map) bool {
		d.Put(g.Pick("datadir", "plugindir", "data_hash"), g.notString())
		return true
	})},
	{"options of the wrong type in defaults", onDefaults(func(g *cfgGen, d *mv.Map) bool {
		d.Put("options", []interface{}{mv.Null{}, "x", strs("x"), 3}[g.Intn(4)])
		return true
	})},
	{"more than one function in defaults", onDefaults(twoFunctions)},
	{"reserved option in defaults", onDefaults(reserved)},
	{"bad option name in defaults", onDefaults(badOptions)},
	{"unknown key in entry", onEntry(func(g *cfgGen, e *mv.Map, h []interface{}) bool {
		e.Put(g.Pick("Name", "data_dir", "mapped_path", "file", "backend", "hiera3_backend", "x", "version", "lookup"), g.Pick("x", "data", "5"))
		return true
	})},
	{"value of the wrong type in entry", onEntry(func(g *cfgGen, e *mv.Map, h []interface{}) bool {
		k := g.Pick("datadir", "plugindir", "pluginfile", "path", "glob", "uri", "data_hash")
		if k == "data_hash" {
			e.Delete("lookup_key")
			e.Delete("data_dig")
		}
		if k == "path" || k == "glob" || k == "uri" {
			for _, l := range locKeys {
				e.Delete(l)
			}
		}
		e.Put(k, g.notString())
		return true
	})},
	{"list of the wrong type in entry", onEntry(func(g *cfgGen, e *mv.Map, h []interface{}) bool {
		for _, l := range locKeys {
			e.Delete(l)
		}
		e.Put(g.Pick("paths", "globs", "uris"),
			[]interface{}{"x", mv.L(), mv.Null{}, mv.L("a", 3), mv.L(mv.L("a")), mv.L(""), mv.L("a", mv.Null{}), mv.NewMap("a", "b")}[g.Intn(8)])
		return true
	})},
	{"mapped_paths of the wrong type", onEntry(func(g *cfgGen, e *mv.Map, h []interface{}) bool {
		for _, l := range locKeys {
			e.Delete(l)
		}
		e.Put("mapped_paths", []interface{}{mv.L(), strs("a"), strs("a", "b"), strs("a", "b", "c", "d"), "a", mv.L("a", "b", 3),
			mv.L("a", "", "c"), mv.NewMap("a", "b")}[g.Intn(8)])
		return true
	})},
	{"options of the wrong type in entry", onEntry(func(g *cfgGen, e *mv.Map, h []interface{}) bool {
		e.Put("options", []interface{}{mv.Null{}, "x", strs("x"), 3}[g.Intn(4)])
		return true
	})},
	{"bad option name in entry", onEntry(func(g *cfgGen, e *mv.Map, h []interface{}) bool { return badOptions(g, e) })},
	{"reserved option in entry", onEntry(func(g *cfgGen, e *mv.Map, h []interface{}) bool { return reserved(g, e) })},
	{"more than one function in entry", onEntry(func(g *cfgGen, e *mv.Map, h []interface{}) bool { return twoFunctions(g, e) })},
	{"more than one kind of location", onEntry(func(g *cfgGen, e *mv.Map, h []interface{}) bool {
		n := 0
		for _, k := range locKeys {
			if e.Get(k) != nil {
				n++
			}
		}
		for _, i := range g.Perm(len(locKeys)) {
			if n < 2 && e.Get(locKeys[i]) == nil {
				e.Put(locKeys[i], locValue(locKeys[i]))
				n++
			}
		}
		return true
	})},
	{"no name", onEntry(func(g *cfgGen, e *mv.Map, h []interface{}) bool { e.Delete("name"); return true })},
	{"bad name", onEntry(func(g *cfgGen, e *mv.Map, h []interface{}) bool { e.Put("name", g.notString()); return true })},
	{"repeated name", func(g *cfgGen, m *mv.Map) bool {
		var hs []string
		for _, k := range []string{"hierarchy", "default_hierarchy"} {
			if h, ok := m.Get(k).([]interface{}); ok && len(h) > 1 {
				hs = append(hs, k)
			}
		}
		if len(hs) == 0 {
			return false
		}
		h := m.Get(g.Pick(hs...)).([]interface{})
		p := g.Perm(len(h))
		h[p[0]].(*mv.Map).Put("name", h[p[1]].(*mv.Map).Get("name"))
		return true
	}},
	{"repeated entry", func(g *cfgGen, m *mv.Map) bool {
		h, ok := m.Get("hierarchy").([]interface{})
		if !ok || len(h) == 0 {
			return false
		}
		m.Put("hierarchy", append(h, h[g.Intn(len(h))]))
		return true
	}},
}

var badConfigTexts = []string{"", "# just a comment\n", "---\n", "[]\n", "- version: 5\n", "5\n", "version\n", "null\n", "\"version: 5\"\n",
	"version: 5\nhierarchy: [\n", "version: 5\n  hierarchy: []\n", "{version: 5", "version: 5\nhierarchy:\n- name: \"x\n", "\tversion: 5\n",
	"version: 5\nhierarchy: *nope\n", "version: 5\n}\n", "%{x}\n", "version: 5\nhierarchy:\n  - name: a\n path: b\n", "version: 5\n:\n- :\n -", "\x00\x01\x02"}

func c08(c *C) {
	fns := (&mon.Env{W: &model.World{Tables: map[string]map[string]*mv.Map{}}, NoTrace: true}).Functions()
	n := c.N(6000, 120000)
	c.Parallel(n, func(i int) {
		g := &cfgGen{G: c.G("", i)}
		m := g.valid()
		kind := "valid"
		text := ""
		switch {
		case i%5 < 3: // mutated
			mu := cfgMutations[(i/5)%len(cfgMutations)]
			if !mu.f(g, m) {
				c.Add("mutations that could not be applied", 1)
				return
			}
			kind = mu.name
			text = g.text(m)
		case i%25 == 3:
			kind = "malformed"
			text = badConfigTexts[(i/25)%(len(badConfigTexts))]
		default:
			text = g.text(m)
		}
		dir := c.Dir()
		defer c.Drop(dir)
		module := g.P(.35)
		root := dir
		cfgName := g.Pick("hiera.yaml", "hiera.yaml", "hiera.yaml", "other.yml")
		prefix := ""
		opts := map[string]interface{}{api.HieraRoot: dir, api.HieraFunctions: fns, api.HieraScope: vf.Map("x", "X", "lst", vf.Values("nope", "sentinel"))}
		if module {
			root = filepath.Join(dir, "mods", "mymod")
			cfgName = "hiera.yaml"
			prefix = "mymod::"
			opts[provider.ModulePath] = filepath.Join(dir, "mods")
			ps := []sdk.LookupKey{provider.ModuleLookupKey}
			if g.P(.5) {
				ps = []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey}
			}
			opts[provider.LookupKeyFunctions] = ps
		} else {
			switch g.Intn(3) {
			case 0:
				opts[api.HieraConfig] = filepath.Join(dir, cfgName)
			default:
				opts[api.HieraConfigFileName] = cfgName
			}
		}
		put := func(f, s string) {
			f = filepath.Join(root, f)
			_ = os.MkdirAll(filepath.Dir(f), 0755)
			if err := os.WriteFile(f, []byte(s), 0644); err != nil {
				panic(err)
			}
		}
		put("data/sentinel.yaml", prefix+"sk: sv\n")
		put("data.yaml", prefix+"sk: sv\n")
		how := g.Intn(40)
		switch {
		case kind == "valid" && !module && how == 0:
			kind = "configuration is a directory"
			_ = os.Mkdir(filepath.Join(root, cfgName), 0755)
		case kind == "valid" && !module && how == 1:
			kind = "configuration is a loop of links"
			_ = os.Symlink(cfgName, filepath.Join(root, cfgName))
		default:
			put(cfgName, text)
		}
		top := provider.ConfigLookupKey
		if module {
			top = provider.MuxLookupKey
		}
		s := session.New(context.Background(), top, opts, nil)
		ok := kind == "valid"
		type use struct {
			name string
			f    func(s api.Session) mon.Obs
			want string
		}
		lk := func(key string, dv dgo.Value, merge interface{}) func(s api.Session) mon.Obs {
			return func(s api.Session) mon.Obs {
				return mon.Try(func() dgo.Value {
					return hiera.Lookup(s.Invocation(nil, nil), prefix+key, dv, mon.MergeOption(merge))
				})
			}
		}
		uses := []use{{"found", lk("sk", nil, nil), mv.Canon("sv")}, {"missing", lk("nokey", nil, nil), "<absent>"},
			{"missing with default", lk("nokey", vf.String("dflt"), nil), mv.Canon("dflt")},
			{"merge", lk("sk", nil, g.Pick("unique", "hash", "deep", "first")), ""},
			{"same invocation", func(s api.Session) (o mon.Obs) {
				iv := s.Invocation(nil, nil)
				for k := 0; k < 3; k++ {
					o = mon.Try(func() dgo.Value { return hiera.Lookup(iv, prefix+"sk", nil, nil) })
					if ok != (o.Kind == "value") {
						return
					}
				}
				return
			}, mv.Canon("sv")},
			{"lookup all", func(s api.Session) mon.Obs {
				return mon.Try(func() dgo.Value {
					return hiera.LookupAll(s.Invocation(nil, nil), []string{prefix + "nokey", prefix + "nokey2"}, nil, nil, nil, nil)
				})
			}, mv.Canon(mv.NewMap())},
		}
		c.Seen("kinds of configuration", kind)
		c.Case(kind + text + fmt.Sprint(module))
		if ok {
			c.Add("valid configurations", 1)
		} else {
			c.Add("invalid configurations", 1)
			if module {
				c.Add("invalid module configurations", 1)
			}
		}
		reasons := map[string]string{}
		reasonsLock := sync.Mutex{}
		check := func(u use, o mon.Obs) {
			bad := ""
			if !ok && o.Kind == "error" { // everyone is told the reason
				reasonsLock.Lock()
				for r, n := range reasons {
					if r != o.Err {
						bad = "the same reason as the lookup '" + n + "', " + r
					}
				}
				reasons[o.Err] = u.name
				reasonsLock.Unlock()
				c.Add("reasons compared", 1)
			}
			switch {
			case bad != "":
			case !ok && o.Kind != "error":
				bad = "an error"
			case ok && u.want == "" && o.Kind == "crash":
				bad = "no crash"
			case ok && u.want != "" && o.Canon != u.want:
				bad = u.want
			}
			c.Add("lookups checked", 1)
			if bad != "" {
				c.Violation(fmt.Sprintf("case %d (%s, module=%t), lookup '%s': expected %s, observed %s", i, kind, module, u.name, bad, o),
					map[string]interface{}{"configuration": text, "kind": kind, "case": i})
			}
			if i%501 == 0 {
				c.Sample(map[string]interface{}{"kind": kind, "configuration": text, "use": u.name, "observed": o.String()})
			}
		}
		if g.P(.15) { // concurrently
			wg := sync.WaitGroup{}
			for k := 0; k < 8; k++ {
				u := uses[g.Intn(len(uses))]
				wg.Add(1)
				go func() {
					defer wg.Done()
					check(u, u.f(s))
				}()
			}
			wg.Wait()
			c.Add("concurrent first uses", 1)
			return
		}
		for _, k := range g.Perm(len(uses)) {
			check(uses[k], uses[k].f(s))
		}
		if c.Violations() == 0 && g.P(.3) {
			s2 := session.New(context.Background(), top, opts, nil)
			check(uses[0], uses[0].f(s2))
		}
	})
	c08closed(c)
	c.Need("valid configurations", 500)
	c.Need("invalid configurations", 1000)
	c.Need("kinds of configuration", int64(len(cfgMutations)))
}
