package checks

import (
	"context"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C23", "a lookup in generated data files, or a file that cannot be used; distinct by file content, key and outcome", c23)
}

// yw writes a value as YAML, using all the styles that YAML offers
type yw struct {
	*gen.G
	n       int
	marks   map[string]bool
	noAlias bool
}

var (
	plainRx      = regexp.MustCompile(`^[A-Za-zé日][A-Za-z0-9_/.é日本 -]*[A-Za-z0-9é本]$`)
	reservedWord = regexp.MustCompile(`(?i)^(null|true|false|yes|no|on|off|y|n|inf|nan)$`)
)

func printable(s string) bool {
	for _, c := range s {
		if c != '\n' && (c < 0x20 || c == 0x7f || (c >= 0x80 && c < 0xa0) || c == 0x2028 || c == 0x2029 || c == 0xfeff || c >= 0xfffe && c <= 0xffff) {
			return false
		}
	}
	return true
}

func (y *yw) mark(s string) { y.marks[s] = true }

// double is a double quoted text
func (y *yw) double(s string) string {
	y.mark("double quoted")
	b := strings.Builder{}
	b.WriteByte('"')
	esc := y.P(.3)
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(y.Pick(`\t`, `\x09`, `\u0009`))
		case c == 0:
			b.WriteString(`\0`)
		case c == 0x1b && y.P(.5):
			b.WriteString(`\e`)
		case c == 0xa0 && y.P(.5):
			b.WriteString(`\_`)
		case c == 0x85 && y.P(.5):
			b.WriteString(`\N`)
		case c > 0xffff && (esc || y.P(.2)):
			fmt.Fprintf(&b, `\U%08x`, c)
		case c <= 0xff && esc && y.P(.5):
			fmt.Fprintf(&b, `\x%02X`, c)
		case c <= 0xffff && (esc && y.P(.5) || !printable(string(c))):
			fmt.Fprintf(&b, `\u%04x`, c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// inline is a text on one line
func (y *yw) inline(s string, key bool) string {
	if plainRx.MatchString(s) && !reservedWord.MatchString(s) && y.P(.5) {
		y.mark("plain")
		return s
	}
	if printable(s) && !strings.Contains(s, "\n") && y.P(.5) {
		y.mark("single quoted")
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	if !key && y.P(.05) {
		y.mark("tag !!str")
		return "!!str " + y.double(s)
	}
	return y.double(s)
}

func (y *yw) scalar(v interface{}, key bool) string {
	switch v := v.(type) {
	case mv.Null:
		if key {
			return "null"
		}
		return y.Pick("null", "~", "Null", "NULL")
	case bool:
		s := strconv.FormatBool(v)
		return y.Pick(s, strings.ToUpper(s), strings.ToUpper(s[:1])+s[1:])
	case int64:
		s := strconv.FormatInt(v, 10)
		switch {
		case v >= 0 && y.P(.15):
			y.mark("hexadecimal")
			return fmt.Sprintf("0x%X", v)
		case v >= 0 && y.P(.1):
			return "+" + s
		case !key && y.P(.05):
			y.mark("tag !!int")
			return `!!int "` + s + `"`
		}
		return s
	case float64:
		s := strconv.FormatFloat(v, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += "." + y.Pick("0", "00", "")
		}
		switch {
		case y.P(.3):
			s = strconv.FormatFloat(v, 'e', -1, 64)
			if !strings.Contains(s, ".") {
				s = strings.Replace(s, "e", ".0e", 1)
			}
			if y.P(.3) {
				s = strings.ToUpper(s)
			}
		case !key && y.P(.05) && strings.Contains(s, "."):
			y.mark("tag !!float")
			return `!!float "` + s + `"`
		}
		return s
	case mv.Binary:
		y.mark("binary")
		return "!!binary " + y.Pick(`"`+base64.StdEncoding.EncodeToString([]byte(v))+`"`, base64.StdEncoding.EncodeToString([]byte(v))+"")
	case string:
		return y.inline(v, key)
	}
	panic(fmt.Sprintf("not a scalar %T", v))
}

// flow writes a value in flow style
func (y *yw) flow(v interface{}) string {
	switch v := v.(type) {
	case []interface{}:
		ss := make([]string, len(v))
		for i, e := range v {
			ss[i] = y.flow(e)
		}
		tail := ""
		if len(v) > 0 && y.P(.2) {
			tail = ","
		}
		return "[" + strings.Join(ss, y.Pick(",", ", ", " , ")) + tail + "]"
	case *mv.Map:
		ss := make([]string, len(v.Keys))
		for i, k := range v.Keys {
			ss[i] = y.scalar(k, true) + ": " + y.flow(v.Get(k))
		}
		return "{" + strings.Join(ss, y.Pick(", ", " , ")) + "}"
	}
	return y.scalar(v, false)
}

// literal writes a text as a literal or folded block, when it can be written like that
func (y *yw) literal(s string, ind int) (string, bool) {
	if s == "" || !printable(s) || strings.Trim(s, "\n ") == "" {
		return "", false
	}
	pad := strings.Repeat(" ", ind)
	lines := strings.Split(strings.TrimRight(s, "\n"), "\n")
	tail := len(s) - len(strings.TrimRight(s, "\n"))
	for _, l := range lines {
		if strings.HasPrefix(l, " ") || strings.HasPrefix(l, "\t") || strings.HasSuffix(l, " ") {
			return "", false
		}
	}
	if lines[0] == "" {
		return "", false
	}
	if len(lines) == 1 && tail == 0 && strings.Contains(s, " ") && !strings.Contains(s, "  ") && y.P(.5) {
		y.mark("folded")
		return ">-\n" + pad + strings.ReplaceAll(s, " ", "\n"+pad), true
	}
	y.mark("literal")
	chomp := []string{"-", ""}
	if tail < 2 {
		chomp[0] = chomp[tail]
	} else {
		chomp[0] = "+"
	}
	b := strings.Builder{}
	b.WriteString("|" + chomp[0])
	for _, l := range lines {
		b.WriteByte('\n')
		if l != "" {
			b.WriteString(pad + l)
		}
	}
	for ; tail > 1; tail-- {
		b.WriteByte('\n')
	}
	return b.String(), true
}

// block writes what follows a key, or a dash, in block style, with a final newline
func (y *yw) block(b *strings.Builder, v interface{}, ind int) {
	anchor := ""
	if y.P(.06) {
		y.n++
		anchor = fmt.Sprintf(" &a%d", y.n)
		y.mark("anchor")
	}
	in := ind + 1 + y.Intn(4)
	pad := strings.Repeat(" ", in)
	comment := func() string {
		if y.P(.06) {
			y.mark("comment")
			return "  # a comment: [x"
		}
		return ""
	}
	switch e := v.(type) {
	case *mv.Map:
		if e.Len() == 0 || y.P(.15) {
			b.WriteString(anchor + " " + y.flow(v) + comment() + "\n")
			return
		}
		b.WriteString(anchor + comment() + "\n")
		y.entries(b, e, in)
		return
	case []interface{}:
		if len(e) == 0 || y.P(.15) {
			b.WriteString(anchor + " " + y.flow(v) + comment() + "\n")
			return
		}
		b.WriteString(anchor + comment() + "\n")
		for _, x := range e {
			b.WriteString(pad + "-")
			y.block(b, x, in)
		}
		return
	case string:
		if y.P(.5) {
			if t, ok := y.literal(e, in); ok {
				b.WriteString(anchor + " " + t + "\n")
				return
			}
		}
	case mv.Null:
		if y.P(.3) {
			y.mark("empty value")
			b.WriteString(anchor + comment() + "\n")
			return
		}
	}
	b.WriteString(anchor + " " + y.scalar(v, false) + comment() + "\n")
}

func (y *yw) entries(b *strings.Builder, m *mv.Map, ind int) {
	pad := strings.Repeat(" ", ind)
	for _, k := range m.Keys {
		if y.P(.04) {
			b.WriteString(y.Pick("\n", pad+"# comment\n", "#\n"))
		}
		if y.P(.04) {
			y.mark("explicit key")
			b.WriteString(pad + "? " + y.scalar(k, true) + "\n" + pad + ":")
		} else {
			b.WriteString(pad + y.scalar(k, true) + y.Pick(":", ":", ":", " :"))
		}
		y.block(b, m.Get(k), ind)
	}
}

// document writes a document. Some entries, that are aliases of others, may be added to the data.
func (y *yw) document(m *mv.Map) string {
	b := &strings.Builder{}
	if m.Len() == 0 || y.P(.1) {
		return y.flow(m) + "\n"
	}
	if y.P(.1) {
		b.WriteString("# The data\n\n")
	}
	if y.P(.3) {
		b.WriteString("---" + y.Pick("\n", " # first\n"))
	}
	y.entries(b, m, 0)
	if !y.noAlias && y.P(.25) && m.Len() > 0 {
		// refer to a value that is written again, with an anchor
		y.mark("alias")
		v := m.Get(m.Keys[y.Intn(m.Len())])
		walkValue(v, func(p interface{}) {
			if _, ok := p.(mv.Binary); ok {
				v = int64(1) // known finding
			}
		})
		b.WriteString("base: &base")
		y.block0(b, v)
		b.WriteString("copy: *base\nlist: [*base, 1, *base]\nmap:\n  x: *base\n")
		m.Put("base", v)
		m.Put("copy", v)
		m.Put("list", mv.L(v, 1, v))
		m.Put("map", mv.NewMap("x", v))
	}
	if y.P(.1) {
		b.WriteString("...\n")
	}
	t := b.String()
	if y.P(.08) {
		y.mark("carriage returns")
		t = strings.ReplaceAll(t, "\n", "\r\n")
	}
	if y.P(.05) {
		y.mark("byte order mark")
		t = "\ufeff" + t
	}
	return t
}

func (y *yw) block0(b *strings.Builder, v interface{}) { b.WriteString(" " + y.flow(v) + "\n") }

// json writes a value as JSON
func (y *yw) json(v interface{}) string {
	ws := func() string {
		if y.P(.1) {
			return y.Pick(" ", "\n", "\t", "\r\n  ")
		}
		return ""
	}
	switch v := v.(type) {
	case []interface{}:
		ss := make([]string, len(v))
		for i, e := range v {
			ss[i] = ws() + y.json(e) + ws()
		}
		return "[" + strings.Join(ss, ",") + ws() + "]"
	case *mv.Map:
		ss := make([]string, len(v.Keys))
		for i, k := range v.Keys {
			ss[i] = ws() + y.json(k) + ws() + ":" + ws() + y.json(v.Get(k))
		}
		return "{" + strings.Join(ss, ",") + ws() + "}"
	case mv.Null:
		return "null"
	case bool:
		return strconv.FormatBool(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case float64:
		s := strconv.FormatFloat(v, 'f', -1, 64)
		if y.P(.4) {
			s = strconv.FormatFloat(v, 'e', -1, 64)
			if y.P(.5) {
				s = strings.ToUpper(s)
			}
		} else if !strings.Contains(s, ".") {
			s += ".0"
		}
		return s
	case string:
		b := strings.Builder{}
		b.WriteByte('"')
		esc := y.P(.2)
		for _, c := range v {
			switch {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteRune(c)
			case c == '/' && y.P(.3):
				b.WriteString(`\/`)
			case c == '\n':
				b.WriteString(`\n`)
			case c == '\b':
				b.WriteString(`\b`)
			case c == '\f':
				b.WriteString(`\f`)
			case c == '\r':
				b.WriteString(y.Pick(`\r`, `\u000D`))
			case c < 0x20 || esc && c <= 0xffff:
				fmt.Fprintf(&b, `\u%04x`, c)
			case c > 0xffff && (esc || y.P(.3)):
				c -= 0x10000
				fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+c>>10, 0xdc00+c&0x3ff)
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	panic(fmt.Sprintf("not JSON %T", v))
}

// fileValue generates data without interpolations
func fileValue(g *gen.G, depth int, yaml bool) interface{} {
	clear := func(s string) string { return strings.ReplaceAll(s, "%{", "%") }
	n := 12
	if depth > 0 {
		n = 18
	}
	switch x := g.Intn(n); x {
	case 12, 13, 14:
		l := make([]interface{}, g.Intn(5))
		for i := range l {
			l[i] = fileValue(g, depth-1, yaml)
		}
		return l
	case 15, 16, 17:
		m := mv.NewMap()
		for k := g.Intn(5); k > 0; k-- {
			if yaml && g.P(.1) {
				m.Put([]interface{}{int64(g.Intn(20)), -1.5, true, false}[g.Intn(4)], fileValue(g, depth-1, yaml))
				continue
			}
			key := clear(anyString(g))
			if strings.HasPrefix(key, "__") || key == "<<" || len(key) > 100 {
				key = "k"
			}
			m.Put(key, fileValue(g, depth-1, yaml))
		}
		return m
	case 0:
		if yaml && g.P(.2) {
			return mv.Binary(anyString(g))
		}
		return mv.Null{}
	default:
		v := dataValue(g, 0)
		if s, ok := v.(string); ok {
			return clear(s)
		}
		return v
	}
}

// expressible returns true if there is a key to look the name up with
func expressible(k string) bool {
	return k != "" && utf8.ValidString(k) && !(strings.Contains(k, "'") && strings.Contains(k, `"`)) && k != "lookup_options"
}

func quoteKey(g *gen.G, k string) string {
	if !strings.ContainsAny(k, `.'"`) && k != "" && strings.Trim(k, "0123456789+-") != "" && g.P(.5) {
		return k
	}
	switch {
	case strings.Contains(k, "'"):
		return `"` + k + `"`
	case strings.Contains(k, `"`) || g.P(.5):
		return "'" + k + "'"
	}
	return `"` + k + `"`
}

// c23path generates a path into a value
func c23path(g *gen.G, v interface{}) string {
	r := ""
	for g.P(.6) {
		switch e := v.(type) {
		case []interface{}:
			i := g.Intn(len(e) + 1)
			r += fmt.Sprintf(".%d", i)
			if i == len(e) {
				return r
			}
			v = e[i]
		case *mv.Map:
			if e.Len() == 0 {
				return r
			}
			k, ok := e.Keys[g.Intn(e.Len())].(string)
			if !ok || !expressible(k) {
				return r
			}
			r += "." + quoteKey(g, k)
			v = e.Get(k)
		default:
			return r
		}
	}
	return r
}

func c23(c *C) {
	texts := func(g *gen.G, w *model.World) map[string]string {
		r := map[string]string{}
		ns := make([]string, 0, len(w.Cfg.Files))
		for n := range w.Cfg.Files {
			ns = append(ns, n)
		}
		for _, n := range ensureSorted(ns) {
			f := w.Cfg.Files[n]
			y := &yw{G: gen.New(g.Int63(), n, 0), marks: map[string]bool{}}
			if f.Format == "json" {
				r[n] = y.json(f.V) + y.Pick("", "\n", " \r\n\t")
			} else {
				r[n] = y.document(f.V)
			}
			for m := range y.marks {
				c.Add("files with "+m, 1)
			}
		}
		return r
	}
	data := func(g *gen.G, yaml bool, keys []string) *mv.Map {
		m := mv.NewMap()
		for _, k := range keys {
			if g.P(.6) {
				m.Put(k, fileValue(g, 4, yaml))
			}
		}
		for k := g.Intn(4); k > 0; k-- {
			s := strings.ReplaceAll(anyString(g), "%{", "%")
			if s == "<<" || len(s) > 100 || strings.HasPrefix(s, "__") || s == "lookup_options" {
				continue
			}
			m.Put(s, fileValue(g, 4, yaml))
		}
		return m
	}
	build := func(g *gen.G, w *model.World) []string {
		w.Cfg = &model.Config{Files: map[string]*model.File{}}
		w.Providers, w.Tables = nil, map[string]map[string]*mv.Map{}
		keys := []string{"alpha", "beta", "gamma", "x.y", "with space", "a::b", "1", "é", "it's", `say "x"`}
		if g.P(.1) { // default files
			w.Cfg.Absent = true
			w.Cfg.Files["data.yaml"] = &model.File{Format: "yaml", V: data(g, true, keys)}
			if g.P(.5) {
				w.Cfg.Files["data/common.yaml"] = &model.File{Format: "yaml", V: data(g, true, keys)}
			}
			return keys
		}
		for i := 1 + g.Intn(4); i > 0; i-- {
			fm := g.Pick("yaml", "yaml", "json")
			e := &model.Entry{Name: fmt.Sprint("entry ", i), FnKind: "data_hash", FnName: fm + "_data"}
			n := fmt.Sprintf("f %d %s", i, g.Pick("a.yaml", "b.json", "noext", "é.txt"))
			e.Loc = &model.Loc{Kind: "path", Args: []string{n}}
			if g.P(.3) {
				e.Loc = &model.Loc{Kind: "paths", Args: []string{"nofile", n, "f 1 a.yaml"}}
				if fm == "json" {
					e.Loc.Args[2] = "nodir/nofile"
				}
			}
			w.Cfg.Entries = append(w.Cfg.Entries, e)
			if f := w.Cfg.Files["data/"+n]; f == nil && g.P(.9) {
				w.Cfg.Files["data/"+n] = &model.File{Format: fm, V: data(g, fm == "yaml", keys)}
			}
		}
		// "f 1 a.yaml" may be JSON
		for _, e := range w.Cfg.Entries {
			for _, n := range e.Loc.Args {
				if f := w.Cfg.Files["data/"+n]; f != nil && f.Format+"_data" != e.FnName {
					delete(w.Cfg.Files, "data/"+n)
				}
			}
		}
		return keys
	}
	profile := func(g *gen.G) *gen.Profile {
		p := gen.Default()
		p.Entries = 1
		p.Keys = nil
		p.Keys = gen.Keys[:1]
		return p
	}
	written := func(w *model.World, ts map[string]string) {
		for n, t := range ts {
			write(filepath.Join(w.Root, n), t)
			c.Seen("files", t)
		}
	}
	c.RunWorlds(WorldRun{Name: "files", Profile: profile, Worlds: c.N(2500, 50000), Keys: 12, MergeP: .15,
		Tweak: func(g *gen.G, w *model.World) { build(g, w) },
		Prepare: func(g *gen.G, w *model.World, dir string, env *mon.Env) {
			written(w, texts(g, w))
		},
		KeyGen: func(gw *gen.W) string {
			var ks []string
			fs := gw.World.Cfg.Files
			ns := make([]string, 0, len(fs))
			for n := range fs {
				ns = append(ns, n)
			}
			if len(ns) == 0 {
				return "alpha"
			}
			f := fs[ensureSorted(ns)[gw.Intn(len(ns))]]
			for _, k := range f.V.Keys {
				if s := k.(string); expressible(s) {
					ks = append(ks, s)
				}
			}
			if len(ks) == 0 || gw.G.P(.05) {
				return gw.Pick("alpha", "nope", "'x.y'", "alph")
			}
			k := ks[gw.Intn(len(ks))]
			return quoteKey(gw.G, k) + c23path(gw.G, f.V.Get(k))
		}})

	// The provider that uses one YAML file, and big files
	c.Parallel(c.N(400, 6000), func(i int) {
		g := c.G("one", i)
		dir := c.Dir()
		defer c.Drop(dir)
		m := data(g, true, []string{"alpha", "beta", "gamma", "x.y", "lookup_option"})
		if i < 8 {
			m = bigData(g, i)
		}
		y := &yw{G: g, marks: map[string]bool{}, noAlias: i < 8}
		fn := filepath.Join(dir, "any name")
		write(fn, y.document(m))
		s := session.New(context.Background(), provider.YamlLookupKey, map[string]interface{}{"path": fn}, nil)
		defer s.KillPlugins()
		keys := m.Keys
		if len(keys) > 200 {
			keys = keys[len(keys)-200:]
		}
		for _, k := range append([]interface{}{"nope"}, keys...) {
			if !expressible(k.(string)) {
				continue
			}
			key := quoteKey(g, k.(string)) + c23path(g, m.Get(k))
			want := model.Run(func() interface{} {
				ps := model.ParseKey(key)
				return model.Dig(ps, m.Get(ps[0]))
			})
			got := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), key, nil, nil) })
			c.Add("lookups with YamlLookupKey", 1)
			c.Case("one " + key + clip(want.Canon()))
			if !got.Same(want) {
				c.Violation(fmt.Sprintf("case one%d: lookup of %s: expected %s, observed %s", i, key, clip(want.String()), clip(got.String())), map[string]interface{}{"data": clip(y.document(m))})
				return
			}
		}
	})

	c23bad(c)
	c23none(c)
	c23perm(c)
	c23known(c)
	for _, n := range []string{"literal", "folded", "double quoted", "single quoted", "plain", "anchor", "alias", "comment", "explicit key", "empty value", "binary", "hexadecimal", "tag !!str", "tag !!int", "carriage returns", "byte order mark"} {
		c.Need("files with "+n, 10)
	}
}

func bigData(g *gen.G, i int) *mv.Map {
	m := mv.NewMap("alpha", 1)
	switch i % 4 {
	case 0:
		for k := 0; k < 5000; k++ {
			m.Put(fmt.Sprintf("key %d", k), int64(k))
		}
	case 1:
		m.Put("long", strings.Repeat("0123456789 abc\n", 20000))
		m.Put("line", strings.Repeat("0123456789 abc", 20000))
	case 2:
		var v interface{} = "bottom"
		for k := 0; k < 150; k++ {
			if k%2 == 0 {
				v = mv.L(v)
			} else {
				v = mv.NewMap("k", v)
			}
		}
		m.Put("deep", v)
	case 3:
		l := make([]interface{}, 10000)
		for k := range l {
			l[k] = fmt.Sprint("e", k)
		}
		m.Put("list", l)
	}
	m.Put("last", "x")
	return m
}

// c23bad has data files that can't be used
func c23bad(c *C) {
	badYAML := []string{"[1, 2]\n", "- a\n- b\n", "text\n", "42\n", "null\n", "~\n", "true\n", "", "\n", "# only a comment\n", "---\n", "--- text\n", "|\n  a\n", "\"a: 1\"\n", "2020-01-01\n",
		"a: b: c\n", "a: 1\n b: 2\n", "\ta: 1\n", "a:\n\t- 1\n", "a: [1, 2\n", "a: {b: 1\n", "a: \"unclosed\n", "a: 'unclosed\n", "a: *undefined\n", "a: @x\n", "a: `x`\n", "a: %x\n", "- a\nb: 1\n", "a: 1\n- b\n", "a: 1\n]\n", "a\nb: 1\n", "a: \"\\q\"\n", "a: \xff\xfe\n", "\x00", "a: \x01\n", "a: |\n x\ny\n", "? a\n? [\n", "key: &a [*b]\n", "<<<<<<< HEAD\na: 1\n=======\na: 2\n>>>>>>> x\n"}
	badJSON := []string{"", " ", "[1]", "\"a\"", "1", "null", "true", "{", "}", "{\"a\"}", "{\"a\":}", "{\"a\":1,}", "{\"a\" 1}", "{a:1}", "{'a':1}", "{\"a\":[1,2}", "{\"a\":[1,]}", "{\"a\":01}", "{\"a\":+1}", "{\"a\":.5}", "{\"a\":1.}", "{\"a\":0x1}", "{\"a\":NaN}", "{\"a\":tru}", "{\"a\":\"x\ny\"}", "{\"a\":\"\\q\"}", "{\"a\":\"\\u12\"}", "{\"a\":\"unclosed}", "{\"a\":1 \"b\":2}", "{\"a\":1};", "{\"a\":1}}", "{\"a\":1}\n{\"b\":2}", "{\"a\":1}]", "{\"a\":1} x", "a: 1\n", "---\na: 1\n", "/* c */ {\"a\":1}", "{\"a\":1 // c\n}", "{1:2}", "\x00"}
	type use struct {
		yaml bool
		text string
		kind string // text, dir
	}
	var uses []use
	for _, t := range badYAML {
		uses = append(uses, use{true, t, "text"})
	}
	for _, t := range badJSON {
		uses = append(uses, use{false, t, "text"})
	}
	uses = append(uses, use{true, "", "dir"}, use{false, "", "dir"})
	g := c.G("cut", 0)
	for k := c.N(250, 5000); k > 0; k-- { // truncated files
		y := &yw{G: g, marks: map[string]bool{}}
		m := mv.NewMap("a", fileValue(g, 3, false), "c", fileValue(g, 3, false))
		t := y.json(m)
		cut := 1 + g.Intn(len(t)-1)
		for cut > 0 && !utf8.ValidString(t[:cut]) {
			cut--
		}
		if strings.ContainsAny(t, "\t\r") {
			uses = append(uses, use{false, t[:cut], "text"}) // tabs aren't YAML
			continue
		}
		uses = append(uses, use{g.P(.5), t[:cut], "text"})
	}
	locs := []string{"path", "paths", "glob", "globs", "mapped_paths", "default"}
	c.Parallel(len(uses)*len(locs), func(i int) {
		u, lk := uses[i/len(locs)], locs[i%len(locs)]
		if lk == "default" && !u.yaml {
			return
		}
		dir := c.Dir()
		defer c.Drop(dir)
		ext := map[bool]string{true: "yaml", false: "json"}[u.yaml]
		file := "data/bad." + ext
		loc := map[string]string{"path": "path: bad." + ext, "paths": "paths: [nofile, bad." + ext + "]", "glob": "glob: 'b*." + ext + "'", "globs": "globs: ['no*', 'b?d." + ext + "']",
			"mapped_paths": "mapped_paths: [names, n, '%{n}." + ext + "']"}[lk]
		if lk == "default" {
			file = "data/common.yaml"
		} else {
			write(filepath.Join(dir, "hiera.yaml"), fmt.Sprintf("version: 5\nhierarchy:\n  - {name: first, path: first.yaml}\n  - {name: bad, data_hash: %s_data, %s}\n  - {name: last, path: last.yaml}\n", ext, loc))
			write(filepath.Join(dir, "data/first.yaml"), "f: 1\n")
			write(filepath.Join(dir, "data/last.yaml"), "a: last\nb: last\nl: last\n")
		}
		good := map[string]string{"yaml": "a: 1\n", "json": `{"a":1}`}[ext]
		w := &model.World{Root: dir, Cfg: &model.Config{}, Sess: mv.NewMap("names", mv.L("bad"))}
		env := mon.NewEnv(w)
		env.NoTrace = true
		for round := 0; round < 2; round++ {
			os.RemoveAll(filepath.Join(dir, file))
			switch {
			case round == 1:
				write(filepath.Join(dir, file), good)
			case u.kind == "dir":
				if err := os.MkdirAll(filepath.Join(dir, file), 0755); err != nil {
					panic(err)
				}
			default:
				write(filepath.Join(dir, file), u.text)
			}
			s := env.Session()
			for _, key := range []string{"a", "b", "l", "nope", "a.b"} {
				got := env.Lookup(s, key, nil)
				c.Case(fmt.Sprint("bad", u, lk, key, round))
				if round == 0 {
					c.Add("lookups that need a file that can't be used", 1)
					if got.Kind != "error" {
						c.Violation(fmt.Sprintf("lookup of %s with a file (%s, %s) that has %q should fail, but it is %s", key, lk, ext, clip(u.text), got), nil)
						return
					}
				} else if got.Kind == "error" || key == "a" && got.Canon != "i1" {
					c.Violation(fmt.Sprintf("lookup of %s with a good file (%s, %s): %s", key, lk, ext, got), nil)
					return
				}
			}
			s.KillPlugins()
		}
		c.Seen("unusable files", fmt.Sprint(u.yaml, u.text, u.kind))
	})

	// A file that can't be used with YamlLookupKey
	for _, t := range badYAML {
		dir := c.Dir()
		fn := filepath.Join(dir, "x.yaml")
		write(fn, t)
		s := session.New(context.Background(), provider.YamlLookupKey, map[string]interface{}{"path": fn}, nil)
		for _, key := range []string{"a", "nope", "a"} {
			got := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), key, nil, nil) })
			c.Add("lookups that need a file that can't be used", 1)
			if got.Kind != "error" {
				c.Violation(fmt.Sprintf("lookup of %s with YamlLookupKey and a file with %q should fail, but it is %s", key, t, got), nil)
			}
		}
		s.KillPlugins()
		c.Drop(dir)
	}
}

// c23none has entries that need a file but have no location, or only locations that don't exist
func c23none(c *C) {
	for _, ext := range []string{"yaml", "json"} {
		for _, merge := range []interface{}{nil, "first", "unique", "deep"} {
			for _, e := range []struct {
				loc  string
				fail bool
			}{{"", true}, {", options: {other: x}", true}, {", path: nofile", false}, {", paths: [no1, no2]", false}, {", glob: 'no*'", false},
				{", mapped_paths: [nosuch, n, '%{n}']", false}} {
				dir := c.Dir()
				write(filepath.Join(dir, "data/first.yaml"), "f: 1\n")
				write(filepath.Join(dir, "data/last.yaml"), "a: 2\n")
				write(filepath.Join(dir, "data/last.json"), `{"a": 2}`)
				cfg := fmt.Sprintf("version: 5\nhierarchy:\n  - {name: first, path: first.yaml}\n  - {name: middle, data_hash: %s_data%s}\n  - {name: last, path: last.yaml}\n", ext, e.loc)
				write(filepath.Join(dir, "h.yaml"), cfg)
				env := mon.NewEnv(&model.World{Root: dir, Cfg: &model.Config{FileName: "h.yaml"}})
				s := env.Session()
				for _, key := range []string{"a", "nope", "a"} {
					got := env.Lookup(s, key, merge)
					want := "<absent>"
					switch {
					case e.fail:
						want = "<error>"
					case key == "a":
						v := interface{}(2)
						if merge == "unique" {
							v = mv.L(2)
						}
						want = mv.Canon(v)
					}
					c.Case("none" + ext + e.loc + key + mv.Canon(merge))
					c.Add("lookups with an entry without a file", 1)
					if got.Canon != want && !(want == "<absent>" && got.Kind == "absent") {
						c.Violation(fmt.Sprintf("lookup of %s with the entry {data_hash: %s_data%s} should give %s, but it is %s", key, ext, e.loc, want, got), nil)
					}
				}
				s.KillPlugins()
				c.Drop(dir)
			}
		}
	}
	// A file that doesn't exist with YamlLookupKey
	dir := c.Dir()
	defer c.Drop(dir)
	s := session.New(context.Background(), provider.YamlLookupKey, map[string]interface{}{"path": filepath.Join(dir, "no", "file.yaml")}, nil)
	for _, key := range []string{"a", "a.b", "lookup_options"} {
		if got := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), key, nil, nil) }); got.Kind != "absent" {
			c.Violation(fmt.Sprintf("lookup of %s with YamlLookupKey and a file that doesn't exist gives %s", key, got), nil)
		}
	}
}

// c23known reports the known findings
func c23known(c *C) {
	for _, k := range []struct{ id, text, key, want string }{
		{"yaml-alias-binary", "a: &x !!binary aGVq\nb: *x\n", "b", `bin"hej"`},
		{"yaml-merge-key", "base: &x {k: 1}\na: {<<: *x, l: 2}\n", "a.k", "i1"},
		{"yaml-after-first-document", "{a: 1}}\n", "a", "<error>"},
		{"yaml-after-first-document", "a: 1\n---\nb: 2\n", "b", "i2"},
		{"yaml-bad-tag", "a: !!int x\n", "a", "<error>"},
		{"yaml-big-integer", "a: 12345678901234567890\n", "a", "<error>"},
	} {
		dir := c.Dir()
		write(filepath.Join(dir, "data.yaml"), k.text)
		s := mon.NewEnv(&model.World{Root: dir, Cfg: &model.Config{}}).Session()
		got := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), k.key, nil, nil) })
		if got.Canon != k.want {
			c.Known(k.id, fmt.Sprintf("lookup of %s with the file %q gives %s, expected %s", k.key, k.text, got, k.want), nil)
		}
		s.KillPlugins()
		c.Drop(dir)
	}
}

// enter makes a directory accessible for ordinary users
func (c *C) enter(dir string) {
	if fi, err := os.Stat(filepath.Dir(c.Tmp)); err == nil && fi.Mode().Perm()&1 == 0 && strings.HasPrefix(filepath.Base(filepath.Dir(c.Tmp)), "hvs") {
		_ = os.Chmod(filepath.Dir(c.Tmp), 0711)
	}
	_ = os.Chmod(c.Tmp, 0711)
	_ = os.Chmod(dir, 0755)
}

// unprivileged runs a function in a thread that is an ordinary user as far as the file system is concerned. The function
// gets a function that performs something as root. What the functions start must not be performed in other go routines.
func (c *C) unprivileged(dir string, f func(asRoot func(func()))) {
	done := make(chan bool)
	c.enter(dir)
	write(filepath.Join(dir, "readable"), "x")
	write(filepath.Join(dir, "unreadable"), "x")
	_ = os.Chmod(filepath.Join(dir, "unreadable"), 0)
	go func() {
		defer close(done)
		runtime.LockOSThread() // never unlocked, so the thread ends with the go routine
		root := os.Geteuid() == 0
		if root {
			if _, _, e := syscall.RawSyscall(syscall.SYS_SETFSUID, 65534, 0, 0); e != 0 {
				return
			}
		}
		if _, err := os.ReadFile(filepath.Join(dir, "readable")); err != nil {
			c.Add("permission checks not possible", 1)
			return
		}
		if _, err := os.ReadFile(filepath.Join(dir, "unreadable")); !os.IsPermission(err) {
			c.Add("permission checks not possible", 1)
			return
		}
		f(func(g func()) {
			if root {
				syscall.RawSyscall(syscall.SYS_SETFSUID, 0, 0, 0)
				defer syscall.RawSyscall(syscall.SYS_SETFSUID, 65534, 0, 0)
			}
			g()
		})
	}()
	<-done
}

// c23perm has files that the user isn't permitted to read
func c23perm(c *C) {
	dir := c.Dir()
	defer c.Drop(dir)
	write(filepath.Join(dir, "data/first.yaml"), "f: 1\n")
	write(filepath.Join(dir, "data/last.yaml"), "a: last\nb: last\n")
	write(filepath.Join(dir, "data/secret.yaml"), "a: secret\n")
	write(filepath.Join(dir, "data/secret.json"), `{"a": "secret"}`)
	write(filepath.Join(dir, "data/closed/secret.yaml"), "a: secret\n")
	write(filepath.Join(dir, "data/closed/secret.json"), `{"a": "secret"}`)
	for _, n := range []string{"data/secret.yaml", "data/secret.json", "data/closed"} {
		if err := os.Chmod(filepath.Join(dir, n), 0); err != nil {
			panic(err)
		}
	}
	c.unprivileged(dir, func(asRoot func(func())) {
		for _, ext := range []string{"yaml", "json"} {
			for _, loc := range []string{"path: secret.", "paths: [nofile, secret.", "glob: 's*.", "mapped_paths: [names, n, '%{n}.", "path: closed/secret.", "paths: [closed/nofile, closed/secret.", "mapped_paths: [names, n, 'closed/%{n}."} {
				l := loc + ext
				if strings.Contains(loc, "'") {
					l += "'"
				}
				if strings.Contains(loc, "[") {
					l += "]"
				}
				cfg := fmt.Sprintf("version: 5\nhierarchy:\n  - {name: first, path: first.yaml}\n  - {name: bad, data_hash: %s_data, %s}\n  - {name: last, path: last.yaml}\n", ext, l)
				w := &model.World{Root: dir, Cfg: &model.Config{FileName: "h.yaml"}, Sess: mv.NewMap("names", mv.L("secret"))}
				asRoot(func() { write(filepath.Join(dir, "h.yaml"), cfg) })
				env := mon.NewEnv(w)
				se := env.Session()
				for _, key := range []string{"a", "b", "nope"} {
					got := env.Lookup(se, key, nil)
					c.Case("perm" + l + key)
					c.Add("lookups that need a file without permission", 1)
					if got.Kind != "error" {
						c.Violation(fmt.Sprintf("lookup of %s by a user who isn't permitted to read the file of %q should fail, but it is %s", key, l, got), nil)
					}
				}
			}
		}
	})
	_ = os.Chmod(filepath.Join(dir, "data/closed"), 0755)
}
