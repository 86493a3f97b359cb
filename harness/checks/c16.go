package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"gopkg.in/yaml.v3"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C16", "an explained lookup that asked at least one source; distinct by key, options of the explainer, explanation and outcome", c16)
}

var nodeTypes = map[string]string{
	"explainer": "hiera.explainer", "lookup": "hiera.explainLookup", "provider": "hiera.explainDataProvider",
	"location": "hiera.explainLocation", "merge": "hiera.explainMerge", "mergeSource": "hiera.explainMergeSource",
	"module": "hiera.explainModule", "interpolate": "hiera.explainInterpolate", "subLookup": "hiera.explainSubLookup",
	"segment": "hiera.explainKeySegment", "invalidKey": "hiera.explainInvalidKey"}

// renderedJSON returns the JSON rendering of a value, parsed
func renderedJSON(s api.Session, v dgo.Value) (interface{}, error) {
	b := &bytes.Buffer{}
	hiera.Render(s, hiera.JSON, v, b)
	return parseJSON(b.Bytes())
}

func parseJSON(bs []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(bs))
	d.UseNumber()
	var r interface{}
	if err := d.Decode(&r); err != nil {
		return nil, err
	}
	return mv.FromGo(r), nil
}

// nodeMap returns what the expected node looks like in the JSON rendering of the explanation
func nodeMap(s api.Session, n *model.XNode, options, only bool) (*mv.Map, error) {
	m := mv.NewMap("__type", nodeTypes[n.Kind])
	if len(n.Branches) > 0 {
		bs := make([]interface{}, len(n.Branches))
		for i, b := range n.Branches {
			bm, err := nodeMap(s, b, false, false)
			if err != nil {
				return nil, err
			}
			bs[i] = bm
		}
		m.Put("branches", bs)
	}
	if n.Event != "" {
		m.Put("event", n.Event)
	}
	if n.Key != "" {
		m.Put("key", n.Key)
	}
	if n.V != nil {
		v, err := renderedJSON(s, mon.ToDgo(n.V))
		if err != nil {
			return nil, err
		}
		m.Put("value", v)
	}
	if len(n.Texts) > 0 {
		ts := make([]interface{}, len(n.Texts))
		for i, t := range n.Texts {
			ts[i] = t
		}
		m.Put("texts", ts)
	}
	switch n.Kind {
	case "explainer":
		if options {
			m.Put("options", true)
		}
		if only {
			m.Put("onlyOptions", true)
		}
	case "provider":
		m.Put("providerName", n.Name)
	case "location":
		l := mv.NewMap("__type", "hiera.path", "original", n.Original, "resolved", n.Resolved)
		if n.URI {
			l.Put("__type", "hiera.uri")
		} else {
			l.Put("exists", n.Exists)
		}
		m.Put("location", l)
	case "merge":
		m.Put("strategy", n.Name)
		if n.Options != nil && n.Options.Len() > 0 {
			m.Put("options", n.Options)
		}
	case "mergeSource":
		m.Put("mergeSource", n.Name)
	case "module":
		m.Put("moduleName", n.Name)
	case "interpolate":
		m.Put("expression", n.Name)
	case "subLookup":
		m.Put("subKey", n.Name)
	case "segment":
		m.Put("segment", n.Segment)
	}
	return m, nil
}

// nodeText appends the text that is expected for a node
func nodeText(w dgo.Indenter, n *model.XNode) {
	line := func(f string, args ...interface{}) {
		if w.Len() > 0 || w.Level() > 0 {
			w.NewLine()
		}
		w.Append(fmt.Sprintf(f, args...))
	}
	branches := func() {
		for _, b := range n.Branches {
			nodeText(w, b)
		}
	}
	outcome := func() {
		switch n.Event {
		case "found":
			line(`Found key: "%s" value: `, n.Key)
			w.AppendValue(mon.ToDgo(n.V))
		case "not_found":
			line(`No such key: "%s"`, n.Key)
		}
		for _, t := range n.Texts {
			line("%s", t)
		}
	}
	switch n.Kind {
	case "explainer":
		branches()
	case "lookup":
		line(`Searching for "%s"`, n.Key)
		w = w.Indent()
		branches()
	case "provider":
		line("%s", n.Name)
		w = w.Indent()
		branches()
		outcome()
	case "location":
		kind := "path"
		if n.URI {
			kind = "uri"
			line(`URI "%s"`, n.Resolved)
		} else {
			line(`Path "%s"`, n.Resolved)
		}
		w = w.Indent()
		line(`Original %s: "%s"`, kind, n.Original)
		branches()
		if n.Event == "location_not_found" {
			line("%s not found", kind)
		}
		outcome()
	case "merge":
		switch len(n.Branches) {
		case 0:
		case 1:
			branches()
		default:
			line(`Merge strategy "%s"`, map[string]string{"unique": "unique merge strategy", "hash": "hash merge strategy", "deep": "deep merge strategy"}[n.Name])
			w = w.Indent()
			if n.Options != nil && n.Options.Len() > 0 {
				line("Options: ")
				w.AppendValue(mon.ToDgo(n.Options))
			}
			branches()
			if n.Event == "result" {
				line("Merged result: ")
				w.AppendValue(mon.ToDgo(n.V))
			}
		}
	case "mergeSource":
		line("Using merge options from %s", n.Name)
	case "module":
		if n.Event == "module_not_found" {
			line(`Module "%s" not found`, n.Name)
		} else {
			branches()
			outcome()
		}
	case "interpolate":
		line(`Interpolation on "%s"`, n.Name)
		w = w.Indent()
		branches()
	case "subLookup":
		ps := model.ParseKey(n.Name)[1:]
		ss := make([]string, len(ps))
		for i, p := range ps {
			ss[i] = fmt.Sprint(p)
		}
		line(`Sub key: "%s"`, strings.Join(ss, "."))
		w = w.Indent()
		branches()
		outcome()
	case "segment":
		outcome()
	case "invalidKey":
		line(`Invalid key "%s"`, n.Key)
	}
}

var textLines = []string{"Searching for ", "Path ", "URI ", "Original ", "path not found", "uri not found", "Found key: ", "No such key: ",
	"Merge strategy ", "Options: ", "Merged result: ", "Using merge options from ", "Module ", "Interpolation on ", "Sub key: ", "Invalid key ",
	"data_hash function", "lookup_key function", "data_dig function"}

// textParts returns the lines about sources in order, and all lines with no regard to the order of map entries
func textParts(text string) (string, string) {
	var ordered, all []string
	for _, l := range strings.Split(strings.Trim(text, "\n"), "\n") {
		for _, p := range textLines {
			if t := strings.TrimLeft(l, " "); strings.HasPrefix(t, p) {
				if i := strings.Index(t, " value: "); i > 0 && p == "Found key: " {
					l = l[:len(l)-len(t)] + t[:i]
				}
				if p == "Merged result: " || p == "Options: " {
					l = l[:len(l)-len(t)] + p
				}
				ordered = append(ordered, l)
				break
			}
		}
	}
	for _, l := range strings.Split(strings.Trim(text, "\n"), "\n") {
		// maps on a single line and the separators depend on the order too
		cs := strings.Split(strings.TrimSpace(l), "")
		sort.Strings(cs)
		all = append(all, strings.ReplaceAll(strings.Join(cs, ""), ",", ""))
	}
	sort.Strings(all)
	return strings.Join(ordered, "\n"), strings.Join(all, "\n")
}

func countNodes(n *model.XNode, f func(n *model.XNode)) {
	f(n)
	for _, b := range n.Branches {
		countNodes(b, f)
	}
}

// sameText compares two explanations in text form
func sameText(want, got string) bool {
	wo, wa := textParts(want)
	og, ag := textParts(got)
	return wo == og && wa == ag
}

func parseYAML(bs []byte) (v interface{}, err error) {
	if err = yaml.Unmarshal(bs, &v); err == nil {
		v = mv.FromGo(v)
	}
	return
}

func c16(c *C) {
	variants := []struct{ options, only bool }{{false, false}, {true, false}, {true, true}}

	// judge compares an explanation with the expected one
	judge := func(wc *WorldCase, s api.Session, what string, root *model.XNode, ex dgo.Value, options, only bool) bool {
		bad := func(f string, args ...interface{}) bool {
			t := mon.Try(func() dgo.Value { return vf.String(fmt.Sprint(ex)) })
			c.Violation(fmt.Sprintf("%s of %s in case %d: %s", what, wc.Key, wc.Case, fmt.Sprintf(f, args...)), wc.Detail("explanation", t.String()))
			return false
		}
		var got interface{}
		rendered := map[hiera.RenderName]string{}
		for _, as := range []hiera.RenderName{hiera.JSON, hiera.YAML, hiera.Text} {
			b := &bytes.Buffer{}
			o := mon.Try(func() dgo.Value {
				hiera.Render(s, as, ex, b)
				return vf.True
			})
			if o.Kind != "value" {
				return bad("it can't be rendered as %s: %s", as, o)
			}
			rendered[as] = b.String()
			c.Add("explanations rendered", 1)
		}
		got, err := parseJSON([]byte(rendered[hiera.JSON]))
		if err != nil {
			return bad("the JSON rendering can't be parsed: %s", err)
		}
		y, err := parseYAML([]byte(rendered[hiera.YAML]))
		if err != nil {
			return bad("the YAML rendering can't be parsed: %s", err)
		}
		if a, b := mv.Canon(mv.Numeric(got)), mv.Canon(mv.Numeric(y)); a != b {
			return bad("the renderings differ: JSON %s, YAML %s", a, b)
		}
		// An explanation that was decoded from its JSON form tells the same. The JSON form of an empty one
		// is the JSON form of its type.
		if _, ok := got.(*mv.Map); ok && got.(*mv.Map).Len() > 1 {
			decoded := map[hiera.RenderName]string{}
			dec := mon.Try(func() dgo.Value {
				v := streamer.UnmarshalJSON([]byte(rendered[hiera.JSON]), s.Dialect())
				if _, ok := v.(api.Explainer); !ok {
					return vf.String(fmt.Sprintf("a %T", v))
				}
				for _, as := range []hiera.RenderName{hiera.JSON, hiera.Text} {
					b := &bytes.Buffer{}
					hiera.Render(s, as, v, b)
					decoded[as] = b.String()
				}
				return vf.True
			})
			if again, err := parseJSON([]byte(decoded[hiera.JSON])); dec.Kind != "value" || err != nil || mv.Canon(mv.Numeric(again)) != mv.Canon(mv.Numeric(got)) {
				return bad("%s is decoded into %s, with the JSON rendering %s", rendered[hiera.JSON], dec, decoded[hiera.JSON])
			}
			// JSON has only one type of number
			if strings.Replace(decoded[hiera.Text], ".0", "", -1) != strings.Replace(rendered[hiera.Text], ".0", "", -1) {
				return bad("%s is decoded into an explanation with the text %s, expected %s", rendered[hiera.JSON], decoded[hiera.Text], rendered[hiera.Text])
			}
			c.Add("explanations decoded", 1)
		}
		if root == nil {
			return true
		}
		want, err := nodeMap(s, root, options, only)
		if err != nil {
			return bad("a value in it can't be rendered: %s", err)
		}
		if a, b := mv.Canon(mv.Numeric(want)), mv.Canon(mv.Numeric(got)); a != b {
			return bad("expected %s, observed %s", a, b)
		}
		w := util.NewIndenter("  ")
		nodeText(w, root)
		wt := w.String()
		if t := rendered[hiera.Text]; !sameText(wt, t) {
			return bad("expected the text %s\nobserved %s", wt, t)
		}
		c.Add("explanations compared with the model", 1)
		c.Seen("explanations", rendered[hiera.JSON])
		countNodes(root, func(n *model.XNode) {
			c.Add("nodes "+n.Kind, 1)
			if n.Options != nil && n.Options.Len() > 0 {
				c.Add("merges with options", 1)
			}
			if n.Event != "" {
				c.Add("events "+n.Event, 1)
			}
		})
		return true
	}

	run := func(name string, worlds, keys int, tweak func(g *gen.G, p *gen.Profile)) {
		c.Parallel(worlds, func(i int) {
			g := c.G(name, i)
			p := gen.Default()
			p.InterpVal, p.InterpCfg, p.LuOpts = .25, .15, .6
			p.HasModules = g.P(.4)
			p.Providers = [][]string{nil, nil, {"config", "env"}, {"yaml", "config"}, {"scope", "config", "yaml"}}
			if p.HasModules {
				p.Providers = [][]string{{"config", "module"}, {"module", "config"}, {"config", "env", "module"}, {"module"}}
			}
			if tweak != nil {
				tweak(g, p)
			}
			w := gen.Build(g, p)
			render := g.P(.5) // use LookupAndRender
			if render {
				w.Inv = nil
			}
			dir := c.Dir()
			defer c.Drop(dir)
			w.Write(dir)
			gen.Fill(g, p, w)
			env := mon.NewEnv(w)
			env.Explain = g.P(.5)
			s := env.Session()
			defer s.KillPlugins()
			gw := gen.NewW(g, p, w)
			for k := 0; k < keys; k++ {
				key := gw.Key()
				if g.P(.02) {
					key = g.Pick("lookup_options", "lookup_options.alpha", "one::", "::x", "noSuch::x")
				}
				merge := g.MergeOpt(.4)
				wc := &WorldCase{C: c, G: g, World: w, Env: env, Key: key, Merge: merge, Case: i}
				env.Take()
				plain := env.Lookup(s, key, merge)
				wc.Got = plain
				events0 := events(env.Take())
				for _, v := range variants {
					ev := model.NewEval(w)
					ev.XTexts = env.Explain
					root := ev.Explain(v.options, v.only)
					wc.Want = ev.Lookup(key, merge)
					ex := explain.NewExplainer(v.options, v.only)
					got := mon.Try(func() dgo.Value { return hiera.Lookup(env.Inv(s, ex), key, nil, mon.MergeOption(merge)) })
					es := events(env.Take())
					c.Case(fmt.Sprint(key, v, len(es), got.Canon))
					c.Add("explained lookups", 1)
					if got.Canon != plain.Canon || got.Err != plain.Err {
						c.Violation(fmt.Sprintf("lookup of %s in case %s%d: %s without and %s with an explainer %v", key, name, i, plain, got, v), wc.Detail())
						return
					}
					if a, b := strings.Join(events0, " "), strings.Join(es, " "); a != b {
						c.Violation(fmt.Sprintf("lookup of %s in case %s%d: calls %s without and %s with an explainer %v", key, name, i, a, b, v), wc.Detail())
						return
					}
					if !got.Same(wc.Want) || wc.Want.Kind == "error" {
						// What the lookup finds is not judged here. The explanation must still be presentable.
						root = nil
						c.Add("explanations without a prediction", 1)
					}
					if !judge(wc, s, "explanation", root, ex, v.options, v.only) {
						return
					}
				}
				if m, ok := merge.(string); render && (ok || merge == nil) {
					if !c.explainRender(wc, s, m) {
						return
					}
				}
			}
		})
	}
	run("exp", c.N(500, 8000), 5, nil)
	run("cfg", c.N(150, 3000), 5, func(g *gen.G, p *gen.Profile) {
		p.InterpCfg, p.Mapped, p.Globs, p.Missing = .4, 4, 3, .5
	})
	run("cyc", c.N(100, 2000), 5, func(g *gen.G, p *gen.Profile) { p.Cyclic, p.InterpVal = .2, .4 })
	for _, n := range []string{"lookup", "provider", "location", "merge", "mergeSource", "module", "interpolate", "subLookup", "segment"} {
		c.Need("nodes "+n, 200)
	}
	for _, n := range []string{"found", "not_found", "location_not_found", "module_not_found", "result"} {
		c.Need("events "+n, 200)
	}
	c.Need("merges with options", 50)
	c.Need("explanations by LookupAndRender", 200)
	c.Need("explanations decoded", 1000)
}

// explainRender lets LookupAndRender explain the lookup of some keys
func (c *C) explainRender(wc *WorldCase, s api.Session, merge string) bool {
	g := wc.G
	names := []string{wc.Key}
	for g.P(.3) && len(names) < 3 {
		names = append(names, g.Pick("nosuch", "alpha", "beta.k1", "one::alpha", "missing.x"))
	}
	o := &hiera.CommandOptions{Merge: merge, LookupAll: g.P(.2)}
	switch g.Intn(3) {
	case 0:
		o.ExplainData = true
	case 1:
		o.ExplainOptions = true
	default:
		o.ExplainData, o.ExplainOptions = true, true
	}
	dflt := "def"
	if g.P(.3) {
		o.Default = &dflt
	}
	o.RenderAs = g.Pick("", "s", "json", "yaml")
	if merge == "first" {
		merge = ""
	}
	ev := model.NewEval(wc.World)
	ev.XTexts = wc.Env.Explain
	root := ev.Explain(o.ExplainOptions, o.ExplainOptions && !o.ExplainData)
	found := false
	want := model.Run(func() interface{} {
		for _, n := range names {
			var m interface{}
			if merge != "" {
				m = merge
			}
			if v := ev.Must(n, m); v != nil {
				found = true
				if !o.LookupAll {
					return v
				}
			}
		}
		if o.LookupAll || o.Default != nil {
			found = true
			return true
		}
		return nil
	})
	if want.Kind == "unsupported" {
		return true
	}
	b := &bytes.Buffer{}
	ok := false
	got := mon.Try(func() dgo.Value {
		ok = hiera.LookupAndRender(s, o, names, b)
		return vf.True
	})
	wc.Env.Take()
	bad := func(f string, args ...interface{}) bool {
		c.Violation(fmt.Sprintf("explanation of %v with options %+v in case %d: %s", names, *o, wc.Case, fmt.Sprintf(f, args...)), wc.Detail("output", b.String()))
		return false
	}
	c.Add("explanations by LookupAndRender", 1)
	if want.Kind == "error" {
		if got.Kind != "error" {
			return bad("expected the error %s", want)
		}
		return true
	}
	if got.Kind != "value" || ok != found {
		return bad("found is %v, expected %v, %s", ok, found, got)
	}
	if o.RenderAs == "" || o.RenderAs == "s" {
		w := util.NewIndenter("  ")
		nodeText(w, root)
		if t := w.String(); !sameText(t, b.String()) {
			return bad("expected %s", t)
		}
		return true
	}
	wm, err := nodeMap(s, root, o.ExplainOptions, o.ExplainOptions && !o.ExplainData)
	if err != nil {
		return bad("%s", err)
	}
	var v interface{}
	if o.RenderAs == "json" {
		v, err = parseJSON(b.Bytes())
	} else {
		v, err = parseYAML(b.Bytes())
	}
	if err != nil {
		return bad("can't be parsed: %s", err)
	}
	if x, y := mv.Canon(mv.Numeric(wm)), mv.Canon(mv.Numeric(v)); x != y {
		return bad("expected %s, observed %s", x, y)
	}
	return true
}
