// Package gen generates worlds, values and keys from a pseudo random sequence.
package gen

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"hv/model"
	"hv/mv"
)

// G is a generator
type G struct{ *rand.Rand }

// New creates a generator for a case that is determined by the seed, a name and a number
func New(seed int64, name string, n int) *G {
	h := uint64(seed)*0x9E3779B97F4A7C15 + uint64(n)*0xD1B54A32D192ED03
	for _, c := range name {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	return &G{rand.New(rand.NewSource(int64(h >> 1)))}
}

// P is true with the given probability
func (g *G) P(p float64) bool { return g.Float64() < p }

// Pick picks one of the strings
func (g *G) Pick(ss ...string) string { return ss[g.Intn(len(ss))] }

// Weighted picks an index according to the weights
func (g *G) Weighted(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	n := g.Intn(t)
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}
	return 0
}

// Profile controls the generation
type Profile struct {
	Entries int // max number of entries
	// weights for how an entry gets its data
	Yaml, JSON, Hash, Key, Dig, Undef, Scope, Env int
	// weights of location kinds
	NoLoc, Path, Paths, Glob, Globs, URI, URIs, Mapped int
	// probabilities
	Missing    float64 // a file is not written
	Sparse     float64 // a key is left out of a source
	InterpCfg  float64 // interpolation in strings of the configuration
	InterpVal  float64 // interpolation in a string value
	InterpKey  float64 // interpolation in a map key
	Cyclic     float64 // a reference to a key that isn't later
	Defaults   float64
	OptionsP   float64 // an entry has more options than the id
	LuOpts     float64 // a source has lookup_options
	Strategy   float64 // the lookup options of a key have a merge
	Convert    float64 // the lookup options of a key have convert_to
	Null       float64
	Shape      float64 // a value is of the shape that belongs to the key
	ScalarOnly bool
	IntKeys    float64
	Absent     float64 // no hiera.yaml
	Malformed  float64 // a data file is malformed
	HasModules bool
	Providers  [][]string
	Methods    []string
	DataDirEnv float64
	Depth      int
	NoScope    float64
	BadStrat   float64 // unknown strategy
	Keys       []string
	ModNames   []string
	Big        float64 // something is much larger than usual
}

// Default is a profile with a bit of everything
func Default() *Profile {
	return &Profile{Entries: 4, Yaml: 6, JSON: 2, Hash: 3, Key: 4, Dig: 2, Scope: 1,
		NoLoc: 3, Path: 5, Paths: 5, Glob: 2, Globs: 1, URI: 1, URIs: 2, Mapped: 2,
		Missing: .3, Sparse: .45, InterpCfg: .2, InterpVal: .15, InterpKey: .05, Cyclic: 0, Defaults: .3, OptionsP: .4,
		LuOpts: .35, Strategy: .6, Convert: .15, Null: .06, Shape: .75, IntKeys: .1, Absent: .04,
		Methods: []string{"", "scope", "lookup", "hiera", "alias", "strict_alias", "literal"}, Depth: 3, NoScope: .1,
		Providers: [][]string{nil}, Keys: Keys, Big: .005}
}

// many returns n or, sometimes, a much larger number
func (w *W) many(n, max int) int {
	if w.P.Big > 0 && w.G.P(w.P.Big) {
		return n + 5 + w.Intn(max)
	}
	return n
}

// Keys are the root keys of the generated data, in the order that they may refer to each other
var Keys = []string{"alpha", "beta", "gamma", "delta", "omega", "x.y", "one::alpha", "two::beta"}

// W generates worlds
type W struct {
	*G
	P      *Profile
	World  *model.World
	module string
	nid    int
	prefix string
}

var words = []string{"red", "blue", "one", "", "a b", "x", "x/y", "10", "true", "null", "~", "é", "ünï", "line\nbreak", "tab\there", " lead", "#no", "a: b", "'q'", `"dq"`, `back\slash`, "- dash", "%", "100%", "%{open", "{}", "}", "[1]", "2020-01-01", "1.5", "0x10", "NO", "日本"}

// Str generates a string without interpolation
func (g *G) Str() string {
	switch g.Intn(4) {
	case 0:
		return words[g.Intn(len(words))]
	case 1:
		return fmt.Sprintf("s%d", g.Intn(6))
	default:
		return g.Pick("red", "blue", "green", "s1", "s2")
	}
}

// Scalar generates a scalar
func (g *G) Scalar(null float64) interface{} {
	if g.P(null) {
		return mv.Null{}
	}
	switch g.Weighted(6, 4, 2, 2) {
	case 0:
		return g.Str()
	case 1:
		if g.P(.1) {
			return []int64{-1, 1 << 40, -(1 << 62), 9223372036854775807, 1000000}[g.Intn(5)]
		}
		return int64(g.Intn(5))
	case 2:
		return g.P(.5)
	}
	return []float64{0, 1, 2, -1.5, 3.25, 1e21, 0.1, 123456.789}[g.Intn(8)]
}

// PlainValue generates a value without interpolations
func (g *G) PlainValue(depth int, null float64, intKeys bool) interface{} {
	w := &W{G: g, P: &Profile{Null: null}}
	if intKeys {
		w.P.IntKeys = .15
	}
	return w.value(depth, -1, "")
}

func (w *W) mapKey() interface{} {
	if w.G.P(w.P.IntKeys) {
		return int64(w.Intn(3))
	}
	return w.Pick("k1", "k2", "k3", "k4", "a.b", "0")
}

// value generates a value. The index of the key determines what keys it may refer to
func (w *W) value(depth, ki int, shape string) interface{} {
	if shape == "" || !w.G.P(w.P.Shape) {
		if depth <= 0 {
			shape = "scalar"
		} else {
			shape = []string{"scalar", "list", "map"}[w.Weighted(4, 3, 3)]
		}
	}
	switch shape {
	case "list":
		n := w.many(w.Intn(5), 60)
		l := make([]interface{}, n)
		for i := range l {
			if w.G.P(.25) && depth > 1 && n < 9 {
				l[i] = w.value(depth-1, ki, "")
			} else {
				l[i] = w.scalar(few(ki, i))
			}
		}
		return l
	case "map":
		m := mv.NewMap()
		n := w.many(w.Intn(5), 40)
		if n > 8 {
			for i := 0; i < n; i++ {
				m.Put(fmt.Sprintf("key%d", w.Intn(60)), w.scalar(few(ki, i)))
			}
			n = 3
		}
		for ; n > 0; n-- {
			var k interface{} = w.mapKey()
			if ki >= 0 && w.G.P(w.P.InterpKey) {
				k = w.Pick("k-%{v1}", "%{v2}", "%{literal('k1')}", "k%{v3.k1}")
			}
			m.Put(k, w.value(depth-1, ki, ""))
		}
		return m
	}
	return w.scalar(ki)
}

// few returns the index of the key for the first elements of something, and none for the others. Many references in the
// values of many keys would make the result of a lookup enormous.
func few(ki, i int) int {
	if i > 3 {
		return -1
	}
	return ki
}

func (w *W) scalar(ki int) interface{} {
	if ki >= 0 && w.G.P(w.P.InterpVal) {
		return w.InterpString(ki)
	}
	if w.P.Big > 0 && w.G.P(w.P.Big/10) {
		return strings.Repeat(w.Pick("x", "long text ", "é", "- a: %\n", "{\"a\": ["), 100+w.Intn(2000)) + "."
	}
	return w.Scalar(w.P.Null)
}

// VarRefs are expressions that refer to variables
var VarRefs = []string{"v1", "v2", "v3.k1", "v3.k2.deep", "lst.0", "lst.1", "lst.7", "vi", "undef", "v1.k1", "::v1", "'dot.ted'", "v3.nope", "vb", "'v1'", "v3.'a.b'", "fact"}

// Ref returns a reference to a key with a higher index than the given one
func (w *W) Ref(ki int) string {
	ks := w.P.Keys
	var k string
	if ki+1 >= len(ks) || w.G.P(w.P.Cyclic) {
		if w.G.P(w.P.Cyclic) {
			k = ks[w.Intn(len(ks))]
		} else {
			k = w.Pick("missing", "nokey.k1")
		}
	} else {
		k = ks[ki+1+w.Intn(len(ks)-ki-1)]
		if w.G.P(.05) {
			k = "missing"
		}
	}
	if strings.Contains(k, ".") && k != "nokey.k1" {
		k = w.Quote(k)
	}
	for n := w.Weighted(5, 3, 1); n > 0; n-- {
		k += "." + w.Pick("k1", "k2", "k3", "0", "1", "'a.b'")
	}
	return k
}

// Quote quotes a key
func (g *G) Quote(k string) string {
	if g.P(.5) {
		return "'" + k + "'"
	}
	return `"` + k + `"`
}

// Expr generates one interpolation expression
func (w *W) Expr(ki int) string {
	m := w.P.Methods[w.Intn(len(w.P.Methods))]
	sp := w.Pick("", "", "", "", "", "", " ", w.Pick(" ", "\n", "\t", "\n  "))
	if w.P.Big > 0 && w.G.P(w.P.Big/3) {
		sp = strings.Repeat(sp+" ", 20+w.Intn(200))
	}
	q := func(a string) string {
		if strings.Contains(a, "'") {
			return `"` + a + `"`
		}
		if strings.Contains(a, `"`) || w.G.P(.6) {
			return "'" + a + "'"
		}
		return `"` + a + `"`
	}
	switch m {
	case "":
		e := VarRefs[w.Intn(len(VarRefs))]
		if w.G.P(.1) {
			e = w.Pick("", "::", `""`, "''", `"::"`, "'::'")
		}
		return "%{" + sp + e + sp + "}"
	case "scope":
		return "%{" + sp + "scope(" + q(VarRefs[w.Intn(len(VarRefs))]) + ")" + sp + "}"
	case "literal":
		return "%{" + sp + "literal(" + q(w.Pick("x", "%", " ", "lit eral", "v1", "a.b")) + ")" + sp + "}"
	}
	return "%{" + sp + m + "(" + q(w.Ref(ki)) + ")" + sp + "}"
}

// InterpString generates a string with interpolation
func (w *W) InterpString(ki int) string {
	e := w.Expr(ki)
	if strings.Contains(e, "alias(") {
		if w.G.P(.03) {
			return "x" + e // misplaced
		}
		return e
	}
	if w.G.P(.02) {
		return w.Pick("%{bogus('x')}", "a%{nope('v1')}b", "%{Lookup('x')}")
	}
	if n := w.many(0, 40); n > 0 {
		b := strings.Builder{}
		for ; n > 0; n-- {
			b.WriteString(w.Pick("", ", ", "é") + "%{" + VarRefs[w.Intn(len(VarRefs))] + "}")
		}
		return b.String()
	}
	switch w.Intn(5) {
	case 0:
		return e
	case 1:
		return "pre " + e
	case 2:
		return e + " post"
	case 3:
		e2 := w.Expr(ki)
		if strings.Contains(e2, "alias(") {
			e2 = "%{v1}"
		}
		return e + w.Pick("", "-", "%", " and ", "}") + e2
	}
	return "<" + e + ">" + w.Pick("", " 100%", "}", " %{open", "{x}")
}

func shapeOf(i int) string { return []string{"map", "list", "scalar", "map", "list"}[i%5] }

// data generates the data of one source
func (w *W) data() *mv.Map {
	m := mv.NewMap()
	for i, k := range w.P.Keys {
		if w.module != "" && !strings.HasPrefix(k, w.module+"::") && !w.G.P(.15) {
			continue
		}
		if w.G.P(w.P.Sparse) {
			continue
		}
		sh := shapeOf(i)
		if w.P.ScalarOnly {
			sh = "scalar"
		}
		if w.G.P(w.P.Null) {
			m.Put(k, mv.Null{})
		} else {
			m.Put(k, w.value(w.P.Depth, i, sh))
		}
	}
	if w.G.P(w.P.LuOpts) {
		lo := mv.NewMap()
		for i, k := range w.P.Keys {
			if w.G.P(.5) {
				continue
			}
			o := mv.NewMap()
			if w.G.P(w.P.Strategy) {
				s := w.Pick("first", "unique", "hash", "deep")
				if w.G.P(w.P.BadStrat) {
					s = w.Pick("bogus", "Deep", "")
				}
				if w.G.P(.3) {
					o.Put("merge", w.MergeMap(s))
				} else {
					o.Put("merge", s)
				}
			}
			if w.G.P(w.P.Convert) {
				switch shapeOf(i) {
				case "scalar":
					switch w.Intn(6) {
					case 0:
						o.Put("convert_to", "string")
					case 1:
						o.Put("convert_to", "int")
					case 2:
						o.Put("convert_to", mv.L("int"))
					case 3:
						o.Put("convert_to", mv.L("int", 16))
					case 4:
						o.Put("convert_to", "nosuchtype")
					default:
						o.Put("convert_to", "sensitive")
					}
				default:
					o.Put("convert_to", w.Pick("sensitive", "sensitive", "int"))
				}
			}
			if w.G.P(.1) {
				o.Put("other", "thing")
			}
			lo.Put(k, o)
		}
		// options for the dug key must never apply
		if w.G.P(.3) {
			lo.Put("alpha.k1", mv.NewMap("merge", "deep"))
		}
		if w.G.P(.08) {
			m.Put("lookup_options", w.Pick("not a map", "x"))
		} else {
			m.Put("lookup_options", lo)
		}
	}
	return m
}

func (w *W) cfgStr(s string, repl ...string) string {
	if w.G.P(w.P.InterpCfg) {
		for i := 0; i+1 < len(repl); i += 2 {
			if strings.Contains(s, repl[i]) {
				return strings.Replace(s, repl[i], repl[i+1], 1)
			}
		}
	}
	return s
}

var dirs = []string{"", "d1/", "d2/", "prod/"}

func (w *W) file(ext string) string {
	f := dirs[w.Intn(len(dirs))] + w.Pick("f1", "f2", "f3", "common") + ext
	if w.G.P(.1) {
		// Always relative to the data directory, also when it looks absolute
		f = w.Pick("/", "./", "//", "d1/../", "../data/", "/../data/", "d1//../") + f
	}
	return w.cfgStr(f, "prod", "%{env}", "f1", "f%{v2}", "f2", "%{v3.f}", "common", "%{scope_common}")
}

func (w *W) location(ext string, uriOnly bool) *model.Loc {
	p := w.P
	rep := func(f func() string) []string {
		r := make([]string, w.many(1+w.Intn(4), 25))
		for i := range r {
			r[i] = f()
		}
		return r
	}
	glob := func() string {
		return w.cfgStr(w.Pick("*"+ext, "d*/*"+ext, "**/f1"+ext, "d1/f?"+ext, "{d1,prod}/f2"+ext, "d[12]/common"+ext, "nope*"+ext, "prod/*"+ext, "**/*"+ext, "/d1/*"+ext, "d2/../*"+ext), "prod", "%{env}")
	}
	uri := func() string {
		return w.cfgStr(w.Pick("http://h/x", "u:y", "file:///prod", "some uri", "http://h/q?a=1&b=2"), "prod", "%{env}", "x", "%{v1}", "y", "%{vi}")
	}
	ws := []int{p.Path, p.Paths, p.Glob, p.Globs, p.URI, p.URIs, p.Mapped, p.NoLoc}
	if uriOnly {
		ws[7] += 1
	} else { // a file function
		ws[4], ws[5], ws[7] = 0, 0, 0
	}
	switch w.Weighted(ws...) {
	case 0:
		return &model.Loc{Kind: "path", Args: []string{w.file(ext)}}
	case 1:
		return &model.Loc{Kind: "paths", Args: rep(func() string { return w.file(ext) })}
	case 2:
		return &model.Loc{Kind: "glob", Args: []string{glob()}}
	case 3:
		return &model.Loc{Kind: "globs", Args: rep(glob)}
	case 4:
		return &model.Loc{Kind: "uri", Args: []string{uri()}}
	case 5:
		return &model.Loc{Kind: "uris", Args: rep(uri)}
	case 6:
		return &model.Loc{Kind: "mapped_paths", Args: []string{
			w.Pick("one_file", "lst", "files", "files", "files2", "v3.files", "one_file", "undef", "v1", "v2", "nolist"), w.Pick("it", "v1", "elem"),
			w.Pick("%{it}"+ext, "d1/%{it}"+ext, "%{env}/%{it}"+ext, "%{v1}"+ext, "%{elem}"+ext, "d2/%{elem}"+ext, "f1"+ext, "f%{it}1"+ext, "d1/com%{it}mon"+ext)}}
	}
	return nil
}

func (w *W) options(id string, force bool) *mv.Map {
	o := mv.NewMap()
	if id != "" {
		o.Put("id", id)
	}
	if force || w.G.P(w.P.OptionsP) {
		for n := w.Intn(4); n > 0; n-- {
			k := w.Pick("opt", "other-opt", "the_key", "o1")
			switch w.Intn(5) {
			case 0:
				o.Put(k, w.Scalar(.1))
			case 1:
				o.Put(k, w.cfgStr("env is prod", "prod", "%{env}"))
			case 2:
				o.Put(k, mv.L(w.cfgStr("prod", "prod", "%{v3.k1}"), int64(2)))
			case 3:
				o.Put(k, mv.NewMap("n", w.cfgStr("prod/x", "prod", "%{vi}"), w.cfgStr("prod", "prod", "%{v1}"), w.Scalar(.1)))
			default:
				o.Put(k, w.cfgStr("prod", "prod", "%{undef}"))
			}
		}
	}
	return o
}

// fn selects the function of an entry
func (w *W) fn() (kind, name, ext string) {
	p := w.P
	switch w.Weighted(p.Yaml, p.JSON, p.Hash, p.Key, p.Dig, p.Undef, p.Scope, p.Env) {
	case 0:
		return "data_hash", "yaml_data", w.Pick(".yaml", ".yaml", ".yaml", ".json")
	case 1:
		return "data_hash", "json_data", ".json"
	case 2:
		return "data_hash", w.cfgStr("hv_hash", "hash", "%{fn_hash}"), ""
	case 3:
		return "lookup_key", w.cfgStr("hv_key", "key", "%{fn_key}"), ""
	case 4:
		return "data_dig", w.cfgStr("hv_dig", "dig", "%{fn_dig}"), ""
	case 5:
		return w.Pick("data_hash", "lookup_key", "data_dig"), "hv_undefined", ""
	case 6:
		return "lookup_key", "scope", ""
	}
	return "lookup_key", "environment", ""
}

// Config generates a configuration with data
func (w *W) Config() *model.Config {
	c := &model.Config{Files: map[string]*model.File{}}
	p := w.P
	if w.G.P(p.Absent) {
		c.Absent = true
	} else if w.G.P(.04) {
		c.NoHierarchy = true
	}
	dataDir := "data"
	if d, ok := w.World.Env["HIERA_DATADIR"]; ok {
		dataDir = d
	}
	if !c.Absent && w.G.P(p.Defaults) {
		d := &model.Entry{}
		if w.G.P(.4) {
			d.FnKind, d.FnName, _ = w.fn()
			if d.FnName == "scope" || d.FnName == "environment" {
				d.FnKind, d.FnName = "lookup_key", "hv_key"
			}
		}
		if w.G.P(.5) {
			d.DataDir = w.cfgStr(w.Pick("data", "ddata", "prod"), "prod", "%{env}")
			dataDir = d.DataDir
		}
		if w.G.P(.5) {
			w.nid++
			d.Options = w.options(fmt.Sprintf("%sdef%d", w.prefix, w.nid), true)
		}
		c.Defaults = d
	}
	n := w.many(1+w.Intn(p.Entries), 25)
	for i := 0; i < n; i++ {
		e := &model.Entry{Name: fmt.Sprintf("entry %d", i)}
		w.nid++
		id := fmt.Sprintf("%sid%d", w.prefix, w.nid)
		kind, name, ext := w.fn()
		useDefault := w.G.P(.2)
		if useDefault {
			kind, name, ext = "data_hash", "yaml_data", ".yaml"
			if c.Defaults != nil && c.Defaults.FnKind != "" {
				kind, name = c.Defaults.FnKind, c.Defaults.FnName
				if name == "json_data" {
					ext = ".json"
				} else if name != "yaml_data" {
					ext = ""
				}
			}
		} else {
			e.FnKind, e.FnName = kind, name
		}
		_ = kind
		if w.G.P(.3) {
			e.DataDir = w.cfgStr(w.Pick("data", "other", "prod/data", "."), "prod", "%{env}")
		}
		if e.DataDir == "." {
			e.DataDir = "./dot"
		}
		switch {
		case ext != "":
			e.Loc = w.location(ext, false)
			if w.G.P(p.OptionsP) {
				e.Options = w.options("", true)
			}
		default:
			e.Loc = w.location(w.Pick(".yaml", ".json", ".txt"), true)
			if !(useDefault && c.Defaults != nil && c.Defaults.Options != nil && w.G.P(.6)) {
				e.Options = w.options(id, false)
			}
		}
		c.Entries = append(c.Entries, e)
	}
	// files
	dds := map[string]bool{dataDir: true}
	for _, e := range c.Entries {
		if e.DataDir != "" {
			dds[e.DataDir] = true
		}
	}
	if c.Absent || c.NoHierarchy {
		if !w.G.P(p.Missing) {
			c.Files["data.yaml"] = w.dataFile("yaml")
		}
		if !w.G.P(p.Missing) {
			c.Files[clean(dataDir)+"/common.yaml"] = w.dataFile("yaml")
		}
	}
	exts := []string{".yaml", ".json", ".txt"}
	for _, dd := range []string{"data", "ddata", "prod", "other", "prod/data", "./dot", "%{env}", "%{env}/data", "edata"} {
		if !dds[dd] {
			continue
		}
		for _, d := range dirs {
			for _, f := range []string{"f1", "f2", "f3", "common", "l1"} {
				for _, x := range exts {
					p := clean(dd) + "/" + d + f + x
					if c.Files[p] == nil && !w.G.P(w.P.Missing) {
						c.Files[p] = nil
					}
				}
			}
		}
	}
	w.drop(c)
	ps := make([]string, 0, len(c.Files))
	for p := range c.Files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	keep := 1.0
	if len(ps) > 30 {
		keep = 30.0 / float64(len(ps))
	}
	for _, p := range ps {
		if c.Files[p] == nil {
			if w.G.P(keep) {
				c.Files[p] = w.dataFile(p[strings.LastIndex(p, ".")+1:])
			} else {
				delete(c.Files, p)
			}
		}
	}
	return c
}

func clean(dd string) string {
	return strings.TrimPrefix(strings.Replace(dd, "%{env}", "prod", 1), "./")
}

// drop removes files that no location can select, to keep the worlds small
func (w *W) drop(c *model.Config) {
	var need []string
	for _, e := range c.Entries {
		if e.Loc == nil {
			continue
		}
		switch e.Loc.Kind {
		case "glob", "globs", "mapped_paths":
			return
		}
		for _, a := range e.Loc.Args {
			if i := strings.LastIndex(a, "/"); i >= 0 {
				a = a[i+1:]
			}
			if strings.Contains(a, "%{") {
				return
			}
			need = append(need, a)
		}
	}
	for f := range c.Files {
		ok := f == "data.yaml" || strings.HasSuffix(f, "/common.yaml")
		for _, n := range need {
			ok = ok || strings.HasSuffix(f, "/"+n)
		}
		if !ok {
			delete(c.Files, f)
		}
	}
}

func (w *W) dataFile(format string) *model.File {
	switch format {
	case "yaml":
		if w.G.P(w.P.Malformed) {
			return &model.File{Format: "yaml", Raw: w.Pick("a: b: c\n", "[1, 2\n", "- a\n- b\n", "just text\n", "\t- x\n", "{a: 1\n", "")}
		}
		f := &model.File{Format: "yaml", V: w.data()}
		if w.G.P(.2) {
			f.Format = "flow"
		}
		return f
	case "json":
		if w.G.P(w.P.Malformed) {
			return &model.File{Format: "json", Raw: w.Pick("[1]", "{\"a\":", "\"s\"", "{'a' 1}", "")}
		}
		ik := w.P.IntKeys
		w.P.IntKeys = 0
		f := &model.File{Format: "json", V: w.data()}
		w.P.IntKeys = ik
		return f
	}
	return &model.File{Format: "txt", Raw: "text"}
}

// fileNames generates what is used in mapped paths
func (w *W) fileNames(names ...interface{}) []interface{} {
	l := append([]interface{}{}, names...)
	for w.G.P(.2) {
		i := w.Intn(len(l) + 1)
		l = append(l[:i], append([]interface{}{[]interface{}{names[w.Intn(len(names))], "", int64(1), "/f1", true, "x y", "%{v1}", "../f1"}[w.Intn(8)]}, l[i:]...)...)
	}
	return l
}

// Scope generates the scopes of the world
func (w *W) Scope() {
	full := func() *mv.Map {
		return mv.NewMap(
			"v1", w.Pick("val1", "prod", "x y", "é"),
			"v2", int64(1+w.Intn(3)),
			"v3", mv.NewMap("k1", w.Pick("deep1", "prod"), "k2", mv.NewMap("deep", w.Pick("deeper", "%{v1}")), "f", w.Pick("f1", "f2"), "files", mv.L("f3", "f1"), "a.b", "quoted"),
			"lst", mv.L(w.Pick("l1", "f1"), "l2", "%{v1}"),
			"files", w.fileNames("f2", "f1", "nofile", "common"),
			"files2", w.fileNames("d1/f1", "d1/f2"),
			"one_file", w.Pick("f1", "common", "f1", "common", "", ""),
			"nolist", mv.NewMap("a", 1),
			"vi", w.Pick("i-%{v1}", "%{v3.k1}", "%{lst.0}%{v2}", "plain"),
			"vb", w.P2(),
			"env", "prod", "scope_common", "common",
			"fn_hash", "hash", "fn_key", "key", "fn_dig", "dig",
			"dot.ted", "dotted", "fact", "f-%{env}")
	}
	w.World.Sess = full()
	if w.G.P(w.P.NoScope) {
		w.World.Sess = nil
	}
	if w.G.P(.6) {
		m := full()
		for _, k := range append([]interface{}{}, m.Keys...) {
			if w.G.P(.5) {
				m.Delete(k)
			}
		}
		w.World.Inv = m
	}
	if w.World.Sess == nil && w.World.Inv == nil {
		return
	}
	// scope provider: some data keys may be variables
	if w.P.Scope > 0 && w.World.Sess != nil && w.G.P(.5) {
		w.World.Sess.Put(w.Pick("alpha", "beta", "delta"), w.PlainValue(2, .1, false))
		if w.World.Inv != nil && w.G.P(.5) {
			w.World.Inv.Put(w.Pick("alpha", "beta", "delta"), w.PlainValue(2, .1, false))
		}
	}
}

// P2 returns a bool value
func (w *W) P2() bool { return w.G.P(.5) }

// Build generates a world
func Build(g *G, p *Profile) *model.World {
	if p.Big > 0 && g.P(.05) {
		p.Big, p.InterpVal, p.InterpKey = .3, p.InterpVal*.1, p.InterpKey*.1 // a world of large things, whose values seldom refer to each other
	}
	w := &W{G: g, P: p, World: &model.World{Env: map[string]string{}, Tables: map[string]map[string]*mv.Map{}}}
	world := w.World
	if g.P(p.DataDirEnv) {
		world.Env["HIERA_DATADIR"] = "edata"
	}
	world.Providers = p.Providers[g.Intn(len(p.Providers))]
	w.Scope()
	world.Cfg = w.Config()
	if p.HasModules {
		w.modules()
	}
	for _, pn := range world.Providers {
		switch pn {
		case "config", "module", "env":
		case "scope":
			for _, sc := range []*mv.Map{world.Sess, world.Inv} {
				if sc != nil && g.P(.7) {
					d := w.data()
					for _, k := range d.Keys {
						if _, ok := k.(string); ok && g.P(.6) {
							sc.Put(k, d.Get(k))
						}
					}
				}
			}
		default:
			d := w.data()
			if pn != "yaml" {
				d.Delete("lookup_options")
			}
			world.Tables[pn] = map[string]*mv.Map{"": d}
		}
	}
	return world
}

func (w *W) modules() {
	np := 1 + w.Intn(3)
	for i := 0; i < np; i++ {
		mp := &model.ModPath{Dir: fmt.Sprintf("mods%d", i)}
		if w.G.P(.15) {
			mp.Missing = true
		} else {
			for _, mn := range [][]string{{"one", "One", "ONE"}, {"two", "Two", "tWo"}, {"ones", "on"}, {"three"}} {
				if w.G.P(.35) {
					continue
				}
				m := &model.Mod{Dir: mn[w.Intn(len(mn))], Link: w.G.P(.2)}
				switch w.Weighted(8, 1, 1) {
				case 0:
					w.module = strings.ToLower(m.Dir)
					w.prefix = fmt.Sprintf("%s%d-", m.Dir, i)
					m.Cfg = w.Config()
					m.Cfg.FileName = ""
					w.module = ""
					w.prefix = ""
				case 1:
					m.Plain = true
				}
				if len(mn) == 3 && w.G.P(.15) {
					// Something that is not a module, with the same name in another case
					o := &model.Mod{Dir: mn[0], Plain: w.G.P(.5)}
					if o.Dir == m.Dir {
						o.Dir = mn[1]
					}
					mp.Mods = append(mp.Mods, o)
				}
				mp.Mods = append(mp.Mods, m)
			}
		}
		w.World.ModPaths = append(w.World.ModPaths, mp)
	}
}

// Fill gives data to all backend functions. It must be called when the root of the world is known since the data is
// kept per location. The tables are filled lazily by the model's view of what locations each entry has.
func Fill(g *G, p *Profile, world *model.World) {
	w := &W{G: g, P: p, World: world}
	for _, s := range model.Sources(world) {
		t := world.Tables[s.ID]
		if t == nil {
			t = map[string]*mv.Map{}
			world.Tables[s.ID] = t
		}
		if t[s.Loc] == nil {
			w.module = s.Module
			d := w.data()
			if w.G.P(.1) {
				d.Put("id-only", s.ID)
			}
			t[s.Loc] = d
		}
	}
}

// Key generates a key to lookup
func (w *W) Key() string {
	ks := w.P.Keys
	k := ks[w.Intn(len(ks))]
	if w.G.P(.08) {
		k = w.Pick("missing", "alphax", "one", "one::", "::alpha", "three::x", "One::alpha", "ONE::alpha", "on::alpha", "ones::alpha", "v1", "vi", "entry 0")
	}
	if strings.Contains(k, ".") {
		if w.G.P(.8) {
			k = w.Quote(k)
		}
	} else if w.G.P(.06) {
		k = w.Quote(k)
	}
	for n := w.Weighted(6, 3, 2); n > 0; n-- {
		k += "." + w.Pick("k1", "k2", "k3", "k4", "0", "1", "2", "-1", "'a.b'", "'0'", "99")
	}
	if w.G.P(.02) {
		k = w.Pick("0.a", "a..b", "'x", ".a", "a.", "", "12", "alpha.'k1", "lookup_options", "lookup_options.alpha")
	}
	return k
}

// NewW creates a generator of keys for the profile
func NewW(g *G, p *Profile, world *model.World) *W { return &W{G: g, P: p, World: world} }

// MergeOpt generates an explicit merge
func (g *G) MergeOpt(p float64) interface{} {
	if !g.P(p) {
		return nil
	}
	s := g.Pick("first", "unique", "hash", "deep")
	if g.P(.2) {
		return g.MergeMap(s)
	}
	return s
}

// MergeMap generates a merge in the form of a map, with options that only the deep strategy makes any use of
func (g *G) MergeMap(s string) *mv.Map {
	m := mv.NewMap("strategy", s)
	if g.P(.5) {
		m = mv.NewMap()
		for i := g.Intn(3); i > 0; i-- {
			switch g.Intn(4) {
			case 0:
				m.Put("knockout_prefix", g.Pick("--", "~"))
			case 1:
				m.Put("sort_merged_arrays", g.P(.5))
			case 2:
				m.Put("merge_hash_arrays", g.P(.5))
			case 3:
				m.Put("other", []interface{}{int64(1), mv.NewMap("a", "b")})
			}
		}
		m.Put("strategy", s)
	}
	return m
}

// Data generates the data of one source
func Data(g *G, p *Profile) *mv.Map {
	w := &W{G: g, P: p, World: &model.World{}}
	d := w.data()
	d.Delete("lookup_options")
	return d
}

// Val generates a value that may refer to all keys
func (w *W) Val(depth, _ int) interface{} { return w.valueAny(depth) }

func (w *W) valueAny(depth int) interface{} {
	// an index of -1 means no interpolation, so let the references start at key 0
	switch w.Intn(4) {
	case 0:
		return w.value(depth, 0, "map")
	case 1:
		return w.value(depth, 0, "list")
	}
	return w.scalar(0)
}
