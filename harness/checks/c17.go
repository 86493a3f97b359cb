package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"gopkg.in/yaml.v3"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C17", "a rendered value; distinct by rendering and value", c17)
}

var oddStrings = []string{"", " ", "  two", "trail ", "\n", "a\n", "\na", "a\nb\n\nc", " a\n  b\n", "\ttab", "tab\t", "a\tb", "null", "~", "Null", "true", "True", "yes", "no", "on", "off", "y", "n", "Y", "1", "-1", "+1", "0", "00", "010", "0o10", "0x10", "0b1", "1_000", "1e3", "1.", ".5", "1.5", "-.inf", ".inf", ".nan", "NaN", "1:30", "190:20:30", "2020-01-01", "2020-01-01T00:00:00Z", "2001-12-14 21:59:43.10 -5", "<<", "=", "-", "- a", "?", "? a", ":", "a: b", "a:", ":a", "#", "# c", "a #c", "a#c", "[", "]", "[a]", "{", "}", "{a: b}", ",", "a, b", "&a", "*a", "!t", "!!str a", "|", ">", "|-\n a", "%", "%YAML", "@", "`", "'", "''", `"`, `""`, "'a'", `"a"`, `a"b'c`, `\`, `\n`, `\u0041`, "---", "--- a", "...", "... a", "\u00e9", "日本", "\U0001F600", "\u2028", "\u2029", "\u0085", "\u00a0", "\ufeff", "\u200b", "\x07", "\x00", "\x1b[0m", "\x7f", "\r", "a\r\nb", "\ufffd", "\ue000", "<a>&amp;</a>", "__type", "__value", "__ref", "__valu", strings.Repeat("long word ", 30), strings.Repeat("x", 500), strings.Repeat("é", 200), "a\n" + strings.Repeat("b ", 100), "\t", "\t\n", " \n ", "key: |\n  x", "0.0", "-0", "1e400", "12345678901234567890", "0x1p4", "Infinity", "!!binary aGVq", "aGVq", "a\u2028b", "x\u0085y", "tab\there\nand", "trailing:", "- - -", "\\x41"}

// multiLineSpace returns true for the texts that are rendered in a way that doesn't parse as YAML, a known finding
func multiLineSpace(s string) bool {
	return strings.Contains(s, "\n") && strings.ContainsRune(" \t\n", rune(s[0]))
}

func anyString(g *gen.G) string {
	switch g.Intn(6) {
	case 0:
		return g.Str()
	case 1:
		rs := make([]rune, g.Intn(12))
		for i := range rs {
			rs[i] = rune([]int{g.Intn(128), g.Intn(256), g.Intn(0xd800), 0xe000 + g.Intn(0xfffe-0xe000), 0x10000 + g.Intn(0xffff)}[g.Intn(5)])
		}
		return string(rs)
	case 2:
		const chars = " \n\t:-#,[]{}&*!|>'\"%@`?ab1.~\\/"
		b := []byte{}
		for k := g.Intn(10); k > 0; k-- {
			b = append(b, chars[g.Intn(len(chars))])
		}
		return string(b)
	}
	return oddStrings[g.Intn(len(oddStrings))]
}

func dataString(g *gen.G) string { return dataText(anyString(g)) }

// dataText returns the text, or another one when the text is subject to one of the known findings
func dataText(s string) string {
	if multiLineSpace(s) || s == "<<" {
		s = "x" + s
	}
	return s
}

// dataValue generates a value that consists of data only
func dataValue(g *gen.G, depth int) interface{} {
	n := 12
	if depth > 0 {
		n = 18
	}
	switch v := g.Intn(n); v {
	case 0:
		return mv.Null{}
	case 1:
		return g.P(.5)
	case 2, 3:
		return []int64{0, 1, -1, 10, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, 1 << 31, -(1 << 31), int64(g.Uint64()), 1000000}[g.Intn(12)]
	case 4, 5:
		return []float64{0, 1, 2, -1, 100, 1e6, 1e15, 1e20, 1e21, 1e22, -1e21, 1 << 53, .1, -.5, math.Pi, 1e-5, 1e-7, 1e-300, 1.5e300, math.MaxFloat64, math.SmallestNonzeroFloat64, g.NormFloat64(), float64(g.Intn(1000)), 1e100}[g.Intn(24)]
	case 12, 13, 14:
		l := make([]interface{}, g.Intn(5))
		for i := range l {
			l[i] = dataValue(g, depth-1)
		}
		return l
	case 15, 16, 17:
		m := mv.NewMap()
		for k := g.Intn(5); k > 0; k-- {
			key := dataString(g)
			if strings.HasPrefix(key, "__") {
				key = "k"
			}
			m.Put(key, dataValue(g, depth-1))
		}
		return m
	}
	return dataString(g)
}

// withShared makes a value where the same parts, the same objects even, occur many times. It returns the model value and
// the value.
func withShared(g *gen.G) (interface{}, dgo.Value) {
	a, b := dataValue(g, 3), dataValue(g, 2)
	s := strings.Repeat("long", 6+g.Intn(10))
	da, db, ds := mon.ToDgo(a), mon.ToDgo(b), vf.String(s)
	if g.P(.5) {
		a = mv.L(a, b, s)
		da = vf.Values(da, db, ds)
	}
	if g.P(.5) {
		b = mv.NewMap("p", a, "q", a, s, b)
		db = vf.Map("p", da, "q", da, ds, db)
	}
	return mv.L(a, b, a, mv.NewMap("a", a, "b", b, "s", s), mv.L(a, mv.L(b, s)), s, mv.NewMap("a", a, "b", b, "s", s)),
		vf.Values(da, db, da, vf.Map("a", da, "b", db, "s", ds), vf.Values(da, vf.Values(db, ds)), ds, vf.Map("a", da, "b", db, "s", ds))
}

// yamlValue converts a YAML node, with the types that its scalars resolve to
func yamlValue(n *yaml.Node) (interface{}, error) {
	switch n.Kind {
	case yaml.DocumentNode:
		return yamlValue(n.Content[0])
	case yaml.SequenceNode:
		l := make([]interface{}, len(n.Content))
		for i, e := range n.Content {
			v, err := yamlValue(e)
			if err != nil {
				return nil, err
			}
			l[i] = v
		}
		return l, nil
	case yaml.MappingNode:
		m := mv.NewMap()
		for i := 0; i < len(n.Content); i += 2 {
			k, err := yamlValue(n.Content[i])
			if err != nil {
				return nil, err
			}
			v, err := yamlValue(n.Content[i+1])
			if err != nil {
				return nil, err
			}
			if m.Get(k) != nil {
				return nil, fmt.Errorf("duplicate key %s", mv.Canon(k))
			}
			m.Put(k, v)
		}
		return m, nil
	case yaml.AliasNode:
		return nil, fmt.Errorf("an alias")
	}
	if n.Anchor != "" {
		return nil, fmt.Errorf("an anchor")
	}
	if n.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) != 0 && n.Style&yaml.TaggedStyle == 0 {
		return n.Value, nil // the parser tags "<<" as a merge key also when it is quoted
	}
	switch tag := n.ShortTag(); tag {
	case "!!null":
		return mv.Null{}, nil
	case "!!str":
		return n.Value, nil
	case "!!bool":
		var b bool
		err := n.Decode(&b)
		return b, err
	case "!!int":
		var i int64
		err := n.Decode(&i)
		return i, err
	case "!!float":
		var f float64
		err := n.Decode(&f)
		return f, err
	default:
		return nil, fmt.Errorf("tag %s", tag)
	}
}

func kindOf(v interface{}) string { return strings.TrimPrefix(fmt.Sprintf("%T", v), "mv.") }

// walk calls the function with each part of a value
func walkValue(v interface{}, f func(v interface{})) {
	f(v)
	switch v := v.(type) {
	case []interface{}:
		for _, e := range v {
			walkValue(e, f)
		}
	case *mv.Map:
		for _, k := range v.Keys {
			walkValue(k, f)
			walkValue(v.Get(k), f)
		}
	}
}

func c17(c *C) {
	w := &model.World{Cfg: &model.Config{}}
	dir := c.Dir()
	w.Write(dir)
	s := mon.NewEnv(w).Session()
	render := func(as hiera.RenderName, v dgo.Value) ([]byte, mon.Obs) {
		b := &bytes.Buffer{}
		o := mon.Try(func() dgo.Value {
			hiera.Render(s, as, v, b)
			return vf.True
		})
		return b.Bytes(), o
	}
	bad := func(i int, as hiera.RenderName, v interface{}, text []byte, f string, args ...interface{}) {
		c.Violation(fmt.Sprintf("the %s rendering of %s in case %d: %s", as, clip(mv.Canon(v)), i, fmt.Sprintf(f, args...)),
			map[string]interface{}{"value": mv.Canon(v), "rendering": string(text)})
	}
	checkJSON := func(i int, v interface{}, text []byte) bool {
		c.Case("json" + string(text))
		d := json.NewDecoder(bytes.NewReader(text))
		d.UseNumber()
		var x interface{}
		if err := d.Decode(&x); err != nil {
			bad(i, hiera.JSON, v, text, "%s", err)
			return false
		}
		if rest := text[d.InputOffset():]; string(rest) != "\n" {
			bad(i, hiera.JSON, v, text, "it is followed by %q", rest)
			return false
		}
		if want, got := mv.Canon(mv.Numeric(v)), mv.Canon(mv.Numeric(mv.FromGo(x))); want != got {
			bad(i, hiera.JSON, v, text, "it parses to %s", clip(got))
			return false
		}
		c.Add("JSON renderings parsed", 1)
		return true
	}
	checkYAML := func(i int, v interface{}, text []byte) bool {
		c.Case("yaml" + string(text))
		var n yaml.Node
		if err := yaml.Unmarshal(text, &n); err != nil {
			bad(i, hiera.YAML, v, text, "%s", err)
			return false
		}
		if n.Kind == 0 {
			n = yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null"}
		}
		x, err := yamlValue(&n)
		if err != nil {
			bad(i, hiera.YAML, v, text, "%s", err)
			return false
		}
		if want, got := mv.Canon(v), mv.Canon(x); want != got {
			bad(i, hiera.YAML, v, text, "it parses to %s", clip(got))
			return false
		}
		c.Add("YAML renderings parsed", 1)
		return true
	}
	c.Parallel(c.N(12000, 300000), func(i int) {
		g := c.G("data", i)
		var v interface{}
		var dv dgo.Value
		if i < len(oddStrings) {
			v = oddStrings[i]
			if v != dataText(oddStrings[i]) {
				return
			}
			dv = mon.ToDgo(v)
		} else if g.P(.3) {
			v, dv = withShared(g)
			c.Add("values with shared parts", 1)
		} else {
			v = dataValue(g, 4)
			dv = mon.ToDgo(v)
		}
		walkValue(v, func(p interface{}) {
			c.Add("rendered "+kindOf(p), 1)
			if s, ok := p.(string); ok {
				c.Seen("strings", s)
			}
		})
		t, o := render(hiera.JSON, dv)
		if o.Kind != "value" {
			bad(i, hiera.JSON, v, t, "%s", o)
			return
		}
		if !checkJSON(i, v, t) {
			return
		}
		t, o = render(hiera.YAML, dv)
		if o.Kind != "value" {
			bad(i, hiera.YAML, v, t, "%s", o)
			return
		}
		if !checkYAML(i, v, t) {
			return
		}
		t, o = render(hiera.Text, dv)
		if o.Kind != "value" {
			bad(i, hiera.Text, v, t, "%s", o)
			return
		}
		want := ""
		switch v := v.(type) {
		case string:
			want = v + "\n"
		case int64, bool:
			want = fmt.Sprintln(v)
		}
		if want != "" && string(t) != want {
			bad(i, hiera.Text, v, t, "expected %q", want)
			return
		}
		if i%4001 == 0 {
			c.Sample(map[string]interface{}{"value": clip(mv.Canon(v)), "text": clip(string(t))})
		}
	})

	// Known findings
	for i, v := range []interface{}{"\t\n", mv.L(" a\n  b\n"), mv.L("\na"), mv.NewMap("<<", "a"), "<<"} {
		t, o := render(hiera.YAML, mon.ToDgo(v))
		var n yaml.Node
		var x interface{}
		err := yaml.Unmarshal(t, &n)
		if err == nil {
			x, err = yamlValue(&n)
		}
		if o.Kind != "value" || err != nil || mv.Canon(x) != mv.Canon(v) {
			id := "yaml-leading-space"
			if i >= 3 {
				id = "yaml-merge-key"
			}
			c.Known(id, fmt.Sprintf("the yaml rendering of %s: %s %v", mv.Canon(v), o, err), string(t))
		}
	}

	// Values other than data are what a decoder of dgo makes of them
	c.Parallel(c.N(3000, 60000), func(i int) {
		g := c.G("rich", i)
		v := rich(g, 3)
		if g.P(.3) {
			v = mv.Sensitive{V: v}
		}
		if g.P(.3) {
			v = mv.L(v, mv.NewMap("k", v), v)
		}
		dv := mon.ToDgo(v)
		t, o := render(hiera.JSON, dv)
		if o.Kind != "value" {
			bad(i, hiera.JSON, v, t, "%s", o)
			return
		}
		c.Case("rich" + string(t))
		if bytes.Contains(t, []byte(`"__ref":`)) {
			bad(i, hiera.JSON, v, t, "it has references")
			return
		}
		back := mon.Try(func() dgo.Value { return streamer.UnmarshalJSON(t, nil) })
		if want := mv.Canon(mv.Numeric(v)); want != mv.Canon(mv.Numeric(fromDgo(back.V))) {
			bad(i, hiera.JSON, v, t, "it decodes to %s", back)
			return
		}
		y, o := render(hiera.YAML, dv)
		if o.Kind != "value" {
			bad(i, hiera.YAML, v, t, "%s", o)
			return
		}
		var n yaml.Node
		var x interface{}
		err := yaml.Unmarshal(y, &n)
		if err == nil && n.Kind != 0 {
			x, err = yamlValue(&n)
		} else {
			x = mv.Null{}
		}
		j, jerr := parseJSON(t)
		if err != nil || jerr != nil || mv.Canon(mv.Numeric(x)) != mv.Canon(mv.Numeric(j)) {
			bad(i, hiera.YAML, v, y, "it isn't like the JSON rendering %s (%v %v)", t, err, jerr)
			return
		}
		c.Add("renderings of rich values decoded", 1)
	})

	// The binary rendering
	c.Parallel(c.N(2000, 20000), func(i int) {
		g := c.G("binary", i)
		bs := make([]byte, g.Intn(200))
		_, _ = g.Read(bs)
		var v interface{}
		var want []byte
		fails := false
		switch g.Intn(4) {
		case 0:
			v, want = mv.Binary(bs), bs
		case 1:
			v, want = base64.StdEncoding.EncodeToString(bs), bs
		case 2:
			l := make([]interface{}, len(bs))
			for k, b := range bs {
				l[k] = int64(b)
			}
			v, want = l, bs
		default:
			v, fails = []interface{}{"not base64!", int64(3), true, mv.Null{}, mv.L("x"), mv.L(int64(256)), mv.L(int64(-1)), mv.NewMap("a", int64(1)), 1.5}[g.Intn(9)], true
		}
		t, o := render(hiera.Binary, mon.ToDgo(v))
		c.Case("binary" + mv.Canon(v))
		if fails {
			if o.Kind != "error" || len(t) > 0 {
				bad(i, hiera.Binary, v, t, "should have failed")
			}
			c.Add("values with no binary rendering", 1)
			return
		}
		c.Add("binary renderings compared", 1)
		if o.Kind != "value" || !bytes.Equal(t, want) {
			bad(i, hiera.Binary, v, t, "%s, expected %q", o, want)
		}
	})

	// Rendering of what a lookup finds
	c.Parallel(c.N(400, 8000), func(i int) {
		g := c.G("lookup", i)
		w := &model.World{Cfg: &model.Config{Entries: []*model.Entry{{Name: "a", Loc: &model.Loc{Kind: "paths", Args: []string{"a.json", "b.json"}}, FnKind: "data_hash", FnName: "json_data"}}, Files: map[string]*model.File{}}}
		vs := mv.NewMap()
		for k := 0; k < 6; k++ {
			v := noInterp(dataValue(g, 3))
			if !roundTrips(v) {
				continue // what JSON makes of it is not the matter here
			}
			vs.Put(fmt.Sprintf("k%d", k), v)
		}
		bin := make([]byte, g.Intn(40))
		_, _ = g.Read(bin)
		vs.Put("bin", base64.StdEncoding.EncodeToString(bin))
		w.Cfg.Files["data/a.json"] = &model.File{Format: "json", V: vs}
		d := c.Dir()
		defer c.Drop(d)
		w.Write(d)
		s := sessionIn(w)
		for _, k := range vs.Keys {
			v := mv.Numeric(vs.Get(k))
			for _, as := range []string{"", "yaml", "json", "s", "binary"} {
				if (as == "binary") != (k == "bin") {
					continue
				}
				b := &bytes.Buffer{}
				ok := false
				o := mon.Try(func() dgo.Value {
					ok = hiera.LookupAndRender(s, &hiera.CommandOptions{RenderAs: as}, []string{k.(string)}, b)
					return vf.True
				})
				if o.Kind != "value" || !ok {
					bad(i, hiera.RenderName(as), v, b.Bytes(), "lookup of %s: %v %s", k, ok, o)
					return
				}
				c.Add("lookups rendered", 1)
				switch as {
				case "", "yaml":
					var n yaml.Node
					err := yaml.Unmarshal(b.Bytes(), &n)
					var x interface{} = mv.Null{}
					if err == nil && n.Kind != 0 {
						x, err = yamlValue(&n)
					}
					c.Case("yaml" + b.String())
					if err != nil || mv.Canon(mv.Numeric(x)) != mv.Canon(v) {
						bad(i, hiera.YAML, v, b.Bytes(), "it parses to %s (%v)", mv.Canon(x), err)
						return
					}
				case "json":
					if !checkJSON(i, v, b.Bytes()) {
						return
					}
				case "binary":
					if !bytes.Equal(b.Bytes(), bin) {
						bad(i, hiera.Binary, v, b.Bytes(), "expected %q", bin)
						return
					}
				case "s":
					if s, ok := v.(string); ok && b.String() != s+"\n" {
						bad(i, hiera.Text, v, b.Bytes(), "expected %q", s)
						return
					}
				}
			}
			b := &bytes.Buffer{}
			if o := mon.Try(func() dgo.Value {
				hiera.LookupAndRender(s, &hiera.CommandOptions{RenderAs: g.Pick("xml", "JSON", "text", "yml")}, []string{k.(string)}, b)
				return vf.True
			}); o.Kind != "error" || b.Len() > 0 {
				bad(i, "unknown", v, b.Bytes(), "should have failed, %s", o)
				return
			}
		}
	})
	c.Need("JSON renderings parsed", 5000)
	c.Need("YAML renderings parsed", 5000)
	c.Need("values with shared parts", 2000)
	c.Need("strings", 3000)
	c.Need("lookups rendered", 3000)
}

func sessionIn(w *model.World) api.Session { return mon.NewEnv(w).Session() }

// roundTrips is true for values that JSON can represent
func roundTrips(v interface{}) bool {
	bs, err := json.Marshal(mv.ToGo(v))
	if err != nil {
		return false
	}
	x, err := parseJSON(bs)
	return err == nil && mv.Canon(mv.Numeric(x)) == mv.Canon(mv.Numeric(v))
}

// fromDgo converts an observed value into a model value
func fromDgo(v dgo.Value) interface{} {
	switch v := v.(type) {
	case dgo.Boolean:
		return v.GoBool()
	case dgo.Integer:
		return v.GoInt()
	case dgo.Float:
		return v.GoFloat()
	case dgo.Sensitive:
		return mv.Sensitive{V: fromDgo(v.Unwrap())}
	case dgo.Binary:
		return mv.Binary(v.GoBytes())
	case dgo.String:
		return v.GoString()
	case dgo.Array:
		r := make([]interface{}, v.Len())
		for i := range r {
			r[i] = fromDgo(v.Get(i))
		}
		return r
	case dgo.Map:
		m := mv.NewMap()
		v.EachEntry(func(e dgo.MapEntry) { m.Put(fromDgo(e.Key()), fromDgo(e.Value())) })
		return m
	}
	return mv.Null{}
}
