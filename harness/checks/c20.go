package checks

import (
	"bytes"
	"context"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/session"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C20", "a lookup that depends on the scope; distinct by key, value, calls and way that the scope was given", c20)
}

func c20profile(g *gen.G) *gen.Profile {
	p := gen.Default()
	p.Entries = 3
	p.Scope = 5
	p.InterpCfg, p.InterpVal, p.InterpKey = .4, .35, .1
	p.Mapped = 5
	p.Convert, p.IntKeys = 0, 0
	p.NoScope = .1
	p.LuOpts = .2
	p.Sparse = .3
	return p
}

var scopeKeys = []string{"v1", "v2", "v3", "v3.k1", "v3.k2.deep", "v3.'a.b'", "lst", "lst.0", "files", "one_file", "env", "vi", "fact", "'dot.ted'", "a::b", "facts", "facts.v1", "facts.fact", "nope"}

// c20tweak adds data that shows what is in the scope
func c20tweak(g *gen.G, w *model.World) {
	if w.Cfg.Absent || w.Cfg.NoHierarchy || w.Cfg.Raw != "" {
		return
	}
	for i := range w.Cfg.Entries {
		if w.Cfg.Entries[i].Name == "" {
			return
		}
	}
	for _, sc := range []*mv.Map{w.Sess, w.Inv} { // variables that are null hide those of the outer scope
		if sc != nil && g.P(.3) {
			sc.Put(strings.Trim(scopeKeys[g.Intn(len(scopeKeys))], "'"), mv.Null{})
		}
	}
	vars := mv.NewMap()
	for _, n := range scopeKeys {
		vars.Put("see "+strings.Trim(n, "'"), "%{"+n+"}")
		vars.Put("scope "+strings.Trim(n, "'"), g.Pick("%{scope('"+strings.ReplaceAll(n, "'", `"`)+"')}", "%{ "+n+" }/%{::"+n+"}"))
	}
	w.Cfg.Entries = append(w.Cfg.Entries, &model.Entry{Name: "seen", FnKind: "data_hash", FnName: "yaml_data", DataDir: "seen", Loc: &model.Loc{Kind: "paths", Args: []string{"nofile.yaml", "%{v1}.yaml", "%{env}.yaml", "%{facts.env}.yaml", "c.yaml"}}})
	if w.Cfg.Files == nil {
		w.Cfg.Files = map[string]*model.File{}
	}
	w.Cfg.Files["seen/c.yaml"] = &model.File{Format: "yaml", V: vars}
	for _, n := range []string{"val1", "prod", "10"} {
		w.Cfg.Files["seen/"+n+".yaml"] = &model.File{Format: "yaml", V: mv.NewMap("who", n, "see v2", n+" %{v2}")}
	}
	if g.P(.7) {
		w.Cfg.Entries = append(w.Cfg.Entries, &model.Entry{Name: "the scope", FnKind: "lookup_key", FnName: "scope"})
	}
}

func c20key(w *gen.W) string {
	if w.G.P(.4) {
		return w.Pick("'see ", "'scope ") + strings.Trim(scopeKeys[w.Intn(len(scopeKeys))], "'") + "'"
	}
	if w.G.P(.1) {
		return "who"
	}
	if w.G.P(.35) {
		return scopeKeys[w.Intn(len(scopeKeys))]
	}
	return w.Key()
}

// A cmdScope is the variables, variable files and fact files given to a command
type cmdScope struct {
	opts  hiera.CommandOptions
	want  *mv.Map
	fails bool
	files map[string]string
}

// genCmdScope generates what a command is given, writes the files, and derives what scope it should give
func genCmdScope(g *gen.G, dir, dialect string, broken float64) *cmdScope {
	cs := &cmdScope{want: mv.NewMap(), files: map[string]string{}}
	for k := g.Intn(5); k > 0; k-- {
		if g.P(broken) {
			cs.opts.Variables = append(cs.opts.Variables, g.Pick("novalue", "v1=", "v1==x", "=x", "v1:=x", "v1::x", "v1=:x", ""))
			cs.fails = true
			continue
		}
		v := genVariable(g, dialect, func() string { return g.Pick("=", ":", "=", " = ", " : ") })
		cs.opts.Variables = append(cs.opts.Variables, v.text)
		cs.want.Put(v.name, v.value)
	}
	file := func(into *mv.Map) string {
		fn := filepath.Join(dir, fmt.Sprintf("vars%d.%s", len(cs.files), g.Pick("yaml", "json", "txt")))
		text := ""
		switch {
		case g.P(broken):
			cs.fails = true
			if g.P(.3) {
				cs.files[fn] = "(missing)"
				return fn
			}
			text = g.Pick("a: b: c\n", "[1, 2]", "text", "{a: 1", "\t- a\n", "- a\n", "# nothing\n")
		case g.P(.05): // an empty file
		default:
			m := mv.NewMap()
			for _, n := range variableNames {
				if g.P(.25) {
					vs := literals(dialect)
					i := g.Intn(len(vs))
					switch n {
					case "v3":
						i = 18 + g.Intn(3)
					case "env", "one_file":
						i = []int{0, 1, 3, 4, 6}[g.Intn(5)]
					case "files", "lst":
						i = len(vs) - 3 + g.Intn(3)
					}
					v := vs[i].value
					if g.P(.15) && n != "v3" && n != "files" && n != "lst" {
						v = []interface{}{int64(7), true, 1.5, mv.NewMap("k", mv.L("x"))}[g.Intn(4)]
					}
					m.Put(n, v)
					into.Put(n, v)
				}
			}
			if g.P(.1) {
				m.Put("facts", "from a file")
				into.Put("facts", "from a file")
			}
			if g.P(.5) {
				text = mv.YAML(m)
			} else {
				text = mv.JSON(m)
			}
		}
		write(fn, text)
		cs.files[fn] = text
		return fn
	}
	for k := g.Weighted(5, 3, 1); k > 0; k-- {
		cs.opts.VarPaths = append(cs.opts.VarPaths, file(cs.want))
	}
	facts := mv.NewMap()
	for k := g.Weighted(5, 3, 1); k > 0; k-- {
		cs.opts.FactPaths = append(cs.opts.FactPaths, file(facts))
	}
	if len(cs.opts.FactPaths) > 0 {
		for _, k := range facts.Keys {
			cs.want.Put(k, facts.Get(k))
		}
		cs.want.Put("facts", facts)
	}
	return cs
}

// c20world is one world with several scopes
type c20world struct {
	w      *model.World
	env    *mon.Env
	dir    string
	scopes []*mv.Map
	cmds   []*cmdScope
	ops    []*scopeOp
}

type scopeOp struct {
	scope int
	key   string
	merge interface{}
	want  model.Outcome
	cmd   bool
	inv   api.Invocation
}

func (o *scopeOp) desc() string {
	return fmt.Sprintf("lookup of %s %s in scope %d (command %v)", o.key, mv.Canon(o.merge), o.scope, o.cmd)
}

func newC20world(c *C, g *gen.G, dir string) *c20world {
	p := c20profile(g)
	w := gen.Build(g, p)
	c20tweak(g, w)
	x := &c20world{w: w, dir: dir}
	w.Write(dir)
	dialect := g.Pick("dgo", "pcore")
	n := 2 + g.Intn(4)
	inv := w.Inv
	for k := 0; k < n; k++ {
		if g.P(.5) {
			cs := genCmdScope(g, filepath.Join(dir, fmt.Sprintf("cmd%d", k)), dialect, .02)
			x.cmds = append(x.cmds, cs)
			x.scopes = append(x.scopes, cs.want)
			continue
		}
		x.cmds = append(x.cmds, nil)
		m := mv.NewMap()
		if g.P(.2) {
			m = nil
		} else {
			if inv != nil && g.P(.5) {
				m = inv.Copy()
			}
			for j := g.Intn(6); j > 0; j-- {
				v := genVariable(g, dialect, func() string { return "=" })
				m.Put(v.name, v.value)
			}
		}
		x.scopes = append(x.scopes, m)
	}
	for _, m := range x.scopes { // the locations that exist depend on the scope
		w.Inv = m
		gen.Fill(g, p, w)
	}
	w.Inv = nil
	x.env = mon.NewEnv(w)
	x.env.NoTrace = true
	x.env.Extra = map[string]interface{}{api.HieraDialect: dialect}
	gw := gen.NewW(g, p, w)
	var keys []string
	for k := 0; k < 5; k++ {
		keys = append(keys, c20key(gw))
	}
	for k := 0; k < 14; k++ {
		o := &scopeOp{scope: g.Intn(n), key: keys[g.Intn(len(keys))]}
		if g.P(.3) {
			o.merge = g.Pick("unique", "deep", "hash")
		}
		o.cmd = x.cmds[o.scope] != nil
		w.Inv = x.scopes[o.scope]
		o.want = model.NewEval(w).Lookup(o.key, o.merge)
		w.Inv = nil
		if o.cmd && x.cmds[o.scope].fails {
			o.want = model.Outcome{Kind: "error"}
		}
		if o.want.Kind == "unsupported" {
			c.Add("lookups without a prediction", 1)
			continue
		}
		c.Add("outcome "+o.want.Kind, 1)
		x.ops = append(x.ops, o)
	}
	// If the same key has different values with different scopes then leaks show
	for _, a := range x.ops {
		for _, b := range x.ops {
			if a.key == b.key && mv.Canon(a.merge) == mv.Canon(b.merge) && a.scope < b.scope && a.want.Canon() != b.want.Canon() {
				c.Add("pairs of lookups of the same key with different outcomes in different scopes", 1)
			}
		}
	}
	return x
}

// perform performs the operation and returns a text unless the outcome is the expected
func (x *c20world) perform(s api.Session, o *scopeOp) string {
	if o.cmd {
		opts := x.cmds[o.scope].opts
		opts.RenderAs = "json"
		if o.merge != nil {
			opts.Merge = o.merge.(string)
		}
		b := &bytes.Buffer{}
		ok := false
		got := mon.Try(func() dgo.Value {
			ok = hiera.LookupAndRender(s, &opts, []string{o.key}, b)
			return vf.True
		})
		switch o.want.Kind {
		case "error":
			if got.Kind == "error" {
				return ""
			}
		case "absent":
			if got.Kind == "value" && !ok && b.Len() == 0 {
				return ""
			}
		default:
			if v, err := parseJSON(b.Bytes()); err == nil && got.Kind == "value" && mv.Canon(mv.Numeric(v)) == mv.Canon(mv.Numeric(o.want.V)) {
				return ""
			}
		}
		return fmt.Sprintf("%s: expected %s, observed %s %v %q", o.desc(), o.want, got, ok, b)
	}
	inv := o.inv
	if inv == nil {
		inv = x.invocation(s, o.scope)
	}
	got := mon.Try(func() dgo.Value { return hiera.Lookup(inv, o.key, nil, mon.MergeOption(o.merge)) })
	if !got.Same(o.want) {
		return fmt.Sprintf("%s: expected %s, observed %s", o.desc(), o.want, got)
	}
	return ""
}

func (x *c20world) invocation(s api.Session, scope int) api.Invocation {
	m := x.scopes[scope]
	if m == nil {
		return s.Invocation(nil, nil)
	}
	if scope%2 == 0 {
		return s.Invocation(mv.ToGo(m), nil)
	}
	return s.Invocation(mon.ToDgo(m), nil)
}

func (x *c20world) detail() map[string]interface{} {
	d := map[string]interface{}{"world": x.w.Dump()}
	for i, m := range x.scopes {
		if m != nil {
			d[fmt.Sprintf("scope %d", i)] = mv.JSON(m)
		}
		if cs := x.cmds[i]; cs != nil {
			d[fmt.Sprintf("command %d", i)] = cs.opts
			d[fmt.Sprintf("files %d", i)] = cs.files
		}
	}
	return d
}

func (x *c20world) count(c *C, how string) {
	for _, o := range x.ops {
		c.Case(how + o.desc() + o.want.String())
		if o.cmd {
			c.Add("lookups with the scope of a command", 1)
			cs := x.cmds[o.scope]
			c.Add("variables given", len(cs.opts.Variables))
			c.Add("variable files given", len(cs.opts.VarPaths))
			c.Add("fact files given", len(cs.opts.FactPaths))
		} else {
			c.Add("lookups with the scope of an invocation", 1)
		}
	}
}

// scribble alters everything that can be altered in a value of the caller
func scribble(v interface{}) {
	switch v := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			scribble(v[k])
			v[k] = "SCRIBBLE"
		}
		v["v1"] = "SCRIBBLE"
		v["nope"] = "SCRIBBLE"
	case []interface{}:
		for i, e := range v {
			scribble(e)
			v[i] = "SCRIBBLE"
		}
	case dgo.Map:
		if v.Frozen() {
			return
		}
		for _, k := range v.Keys().GoSlice() {
			scribble(v.Get(k))
			v.Put(k, "SCRIBBLE")
		}
		v.Put("v1", "SCRIBBLE")
		v.Put("nope", "SCRIBBLE")
	case dgo.Array:
		if v.Frozen() {
			return
		}
		for i := 0; i < v.Len(); i++ {
			scribble(v.Get(i))
			v.Set(i, "SCRIBBLE")
		}
	}
}

func mutable(m *mv.Map) dgo.Value {
	// deeply mutable
	var conv func(v interface{}) dgo.Value
	conv = func(v interface{}) dgo.Value {
		switch v := v.(type) {
		case *mv.Map:
			r := vf.MutableMap()
			for _, k := range v.Keys {
				r.Put(mon.ToDgo(k), conv(v.Get(k)))
			}
			return r
		case []interface{}:
			r := vf.MutableValues()
			for _, e := range v {
				r.Add(conv(e))
			}
			return r
		}
		return mon.ToDgo(v)
	}
	return conv(m)
}

func c20(c *C) {
	each := func(wc *WorldCase) {
		if wc.World.Inv != nil && wc.World.Sess != nil {
			c.Add("lookups with both scopes", 1)
		}
	}
	c.RunWorlds(WorldRun{Name: "worlds", Profile: c20profile, Worlds: c.N(1000, 20000), Keys: 8, MergeP: .3, KeyGen: c20key, Each: each, Tweak: c20tweak})

	// One invocation after the other, in any order
	c.Parallel(c.N(700, 12000), func(i int) {
		g := c.G("interleaved", i)
		dir := c.Dir()
		defer c.Drop(dir)
		x := newC20world(c, g, dir)
		x.count(c, "interleaved")
		s := x.env.Session()
		defer s.KillPlugins()
		invs := map[int]api.Invocation{}
		for round := 0; round < 2; round++ {
			for _, k := range g.Perm(len(x.ops)) {
				o := x.ops[k]
				o.inv = nil
				if !o.cmd && g.P(.4) { // several lookups with the same invocation
					if invs[o.scope] == nil {
						invs[o.scope] = x.invocation(s, o.scope)
					}
					o.inv = invs[o.scope]
				}
				if bad := x.perform(s, o); bad != "" {
					c.Violation(fmt.Sprintf("case interleaved%d: %s", i, bad), x.detail())
					return
				}
			}
		}
		c.Sample(map[string]interface{}{"case": i, "scopes": len(x.scopes), "operations": len(x.ops)})
	})

	// All at once
	c.Parallel(c.N(300, 6000), func(i int) {
		g := c.G("concurrent", i)
		dir := c.Dir()
		defer c.Drop(dir)
		x := newC20world(c, g, dir)
		x.count(c, "concurrent")
		s := x.env.Session()
		defer s.KillPlugins()
		var wg sync.WaitGroup
		var lock sync.Mutex
		bad := ""
		start := make(chan struct{})
		for _, o := range x.ops {
			wg.Add(1)
			go func(o *scopeOp) {
				defer wg.Done()
				<-start
				if b := x.perform(s, o); b != "" {
					lock.Lock()
					bad = b
					lock.Unlock()
				}
			}(o)
		}
		close(start)
		wg.Wait()
		c.Add("concurrent rounds", 1)
		if bad != "" {
			c.Violation(fmt.Sprintf("case concurrent%d: %s", i, bad), x.detail())
		}
	})

	// What the caller does with its maps afterwards
	c.Parallel(c.N(400, 8000), func(i int) {
		g := c.G("caller", i)
		dir := c.Dir()
		defer c.Drop(dir)
		x := newC20world(c, g, dir)
		if x.w.Sess == nil || len(x.ops) == 0 {
			return
		}
		x.count(c, "caller")
		opts := x.env.Options()
		var mine interface{}
		switch i % 2 {
		case 0:
			mine = mutable(x.w.Sess)
		default:
			mine = mv.ToGo(x.w.Sess)
			if _, ok := mine.(map[string]interface{}); !ok {
				return
			}
		}
		opts[api.HieraScope] = mine
		s := session.New(context.Background(), x.env.Top(), opts, nil)
		defer s.KillPlugins()
		if g.P(.5) && len(x.ops) > 0 {
			if bad := x.perform(s, x.ops[0]); bad != "" {
				c.Violation(fmt.Sprintf("case caller%d, before: %s", i, bad), x.detail())
				return
			}
		}
		if f, ok := mine.(dgo.Freezable); ok && f.Frozen() {
			c.Violation(fmt.Sprintf("case caller%d: the scope that a session was given can't be altered by the caller anymore", i), x.detail())
			return
		}
		scribble(mine)
		for k := range opts {
			delete(opts, k)
		}
		// maps used for other invocations
		for _, m := range x.scopes {
			if m == nil {
				continue
			}
			d := mutable(m)
			inv := s.Invocation(d, nil)
			o := x.ops[g.Intn(len(x.ops))]
			mon.Try(func() dgo.Value { return hiera.Lookup(inv, o.key, nil, nil) })
			if d.(dgo.Map).Frozen() {
				c.Violation(fmt.Sprintf("case caller%d: the scope that an invocation was given can't be altered by the caller anymore", i), x.detail())
				return
			}
			scribble(d)
		}
		for _, o := range x.ops {
			if bad := x.perform(s, o); bad != "" {
				c.Violation(fmt.Sprintf("case caller%d, after what was passed is altered: %s", i, bad), x.detail())
				return
			}
		}
		c.Add("sessions whose scope was altered by the caller", 1)
	})
	c.Need("pairs of lookups of the same key with different outcomes in different scopes", 1000)
	c.Need("sessions whose scope was altered by the caller", int64(c.N(200, 4000)))
	c.Need("fact files given", 500)
}
