package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C22", "a lookup that is repeated in a generated history; distinct by call, outcome and what came before", c22)
	Modes["c22child"] = c22child
}

// call is a call of one of the lookup functions
type call struct {
	mode    int // 0 Lookup, 1 Lookup2, 2 LookupAll
	keys    []string
	merge   interface{}
	def     interface{}
	over    *mv.Map
	defs    *mv.Map
	df      bool
	scope   int
	explain int // 0 no, 1 data, 2 data and options, 3 only options
}

func (q *call) String() string {
	s := fmt.Sprintf("%s of %q merge %s in scope %d", []string{"Lookup", "Lookup2", "LookupAll"}[q.mode], q.keys, mv.Canon(q.merge), q.scope)
	if q.def != nil {
		s += " default " + mv.Canon(q.def)
	}
	if q.over != nil {
		s += " overrides " + mv.Canon(q.over)
	}
	if q.defs != nil {
		s += " default values " + mv.Canon(q.defs)
	}
	if q.df {
		s += " default function"
	}
	if q.explain > 0 {
		s += " explained"
	}
	return s
}

// c22world is a world with calls to make in it
type c22world struct {
	p      *gen.Profile
	w      *model.World
	scopes []*mv.Map
	calls  []*call
	// keep is what the backend functions return, when they return the same objects each time
	keep map[string]dgo.Value
	env  *mon.Env
}

func newC22world(g *gen.G, dir string) *c22world {
	p := gen.Default()
	p.Convert = .08
	p.InterpVal = .25
	p.Cyclic = .01
	p.Malformed = .02
	p.HasModules = g.P(.3)
	if p.HasModules {
		p.Providers = [][]string{{"config", "module"}, {"module", "config", "custom"}, {"module"}}
	}
	w := gen.Build(g, p)
	w.Write(dir)
	x := &c22world{p: p, w: w}
	x.scopes = []*mv.Map{w.Inv, nil}
	if g.P(.7) {
		m := mv.NewMap()
		if w.Inv != nil {
			m = w.Inv.Copy()
		}
		m.Put("v1", "other")
		m.Put("env", g.Pick("prod", "test"))
		m.Put("alpha", g.PlainValue(2, .1, false))
		x.scopes = append(x.scopes, m)
	}
	for _, m := range x.scopes {
		w.Inv = m
		gen.Fill(g, p, w)
	}
	gw := gen.NewW(g, p, w)
	amap := func(ks []string) *mv.Map {
		if g.P(.5) {
			return nil
		}
		m := mv.NewMap("other", mv.L("x"))
		for _, k := range ks {
			if g.P(.3) {
				m.Put(k, gw.Val(2, 0))
			}
		}
		return m
	}
	for n := 6 + g.Intn(4); n > 0; n-- {
		q := &call{mode: g.Weighted(5, 2, 2), merge: g.MergeOpt(.35), scope: g.Intn(len(x.scopes))}
		nk := 1
		if q.mode > 0 {
			nk = 1 + g.Intn(3)
		}
		for ; nk > 0; nk-- {
			q.keys = append(q.keys, gw.Key())
		}
		if q.mode < 2 && g.P(.4) {
			q.def = gw.Val(2, 0)
		}
		if q.mode > 0 {
			q.over, q.defs = amap(q.keys), amap(q.keys)
		}
		q.df = q.mode == 1 && g.P(.3)
		if g.P(.15) {
			q.explain = 1 + g.Intn(3)
		}
		x.calls = append(x.calls, q)
	}
	x.env = mon.NewEnv(w)
	x.env.NoTrace = true
	return x
}

// session starts a session. When the backend functions keep what they return then they return mutable values.
func (x *c22world) session() api.Session {
	if x.keep == nil {
		return x.env.Session()
	}
	opts := x.env.Options()
	get := func(pc sdk.ProviderContext, key string) dgo.Value {
		id, loc := "", ""
		if s, ok := pc.Option("id").(dgo.String); ok {
			id = s.GoString()
		}
		if s, ok := pc.Option("path").(dgo.String); ok {
			loc = model.RelLoc(x.w.Root, s.GoString())
		}
		m, ok := x.keep[id+" "+loc]
		if !ok {
			t := x.w.Tables[id][loc]
			if t == nil {
				t = mv.NewMap()
			}
			m = mutable(t)
			x.keep[id+" "+loc] = m
		}
		if key == "" {
			return m
		}
		return m.(dgo.Map).Get(key)
	}
	opts[api.HieraFunctions] = vf.Map(
		"hv_hash", func(pc sdk.ProviderContext) dgo.Map { return get(pc, "").(dgo.Map) },
		"hv_key", func(pc sdk.ProviderContext, key string) dgo.Value { return get(pc, key) },
		"hv_dig", func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			return get(pc, key.Get(0).(dgo.String).GoString())
		})
	return session.New(context.Background(), x.env.Top(), opts, nil)
}

// altered returns the name of a source whose data was altered
func (x *c22world) altered() string {
	ks := make([]string, 0, len(x.keep))
	for k := range x.keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p := strings.SplitN(k, " ", 2)
		t := x.w.Tables[p[0]][p[1]]
		if t == nil {
			t = mv.NewMap()
		}
		if got, want := mv.CanonDgo(x.keep[k]), mv.Canon(t); got != want {
			return fmt.Sprintf("%s: %s, was %s", k, got, want)
		}
	}
	return ""
}

// args are the arguments of a call that the caller can alter
type callArgs struct {
	def  dgo.Value
	over dgo.Map
	defs dgo.Map
	opts dgo.Map
}

func (q *call) args() *callArgs {
	a := &callArgs{}
	conv := func(m *mv.Map) dgo.Map {
		if m == nil {
			return nil
		}
		return mutable(m).(dgo.Map)
	}
	if q.def != nil {
		a.def = mon.ToDgo(q.def)
		if m, ok := q.def.(*mv.Map); ok {
			a.def = mutable(m)
		}
	}
	a.over, a.defs = conv(q.over), conv(q.defs)
	if q.merge != nil {
		a.opts = conv(mv.NewMap("merge", q.merge))
	}
	return a
}

func (a *callArgs) scribble() {
	for _, v := range []dgo.Value{a.def, a.over, a.defs, a.opts} {
		if v != nil {
			scribble(v)
		}
	}
}

func (x *c22world) inv(s api.Session, scope, explaining int) api.Invocation {
	var ex api.Explainer
	if explaining > 0 {
		ex = explain.NewExplainer(explaining > 1, explaining == 3)
	}
	m := x.scopes[scope]
	if m == nil {
		return s.Invocation(nil, ex)
	}
	return s.Invocation(mon.ToDgo(m), ex)
}

// frozenInv is an invocation with a scope that nobody can alter. The scope belongs to the caller, and a lookup with the
// scope function returns parts of it.
func (x *c22world) frozenInv(s api.Session, scope int) api.Invocation {
	m := x.scopes[scope]
	if m == nil {
		return s.Invocation(nil, nil)
	}
	return s.Invocation(mon.ToDgo(m).(dgo.Map).FrozenCopy(), nil)
}

// perform makes the call
func (q *call) perform(inv api.Invocation, a *callArgs) mon.Obs {
	var df dgo.Producer
	if q.df {
		df = func() dgo.Value { return vf.Values("from", "function") }
	}
	// A nil dgo.Map must not end up as an interface that isn't nil
	var opts interface{}
	if a.opts != nil {
		opts = a.opts
	}
	o := mon.Try(func() dgo.Value {
		switch q.mode {
		case 0:
			return hiera.Lookup(inv, q.keys[0], a.def, opts)
		case 1:
			return hiera.Lookup2(inv, q.keys, nil, a.def, a.over, a.defs, a.opts, df)
		}
		return hiera.LookupAll(inv, q.keys, nil, a.over, a.defs, a.opts)
	})
	if o.Kind == "value" {
		o.Canon += " " + o.V.String() // tells the order of maps, too
	}
	return o
}

// fresh makes the call in a session of its own
func (x *c22world) fresh(q *call) string {
	s := x.env.Session()
	defer s.KillPlugins()
	return q.perform(x.inv(s, q.scope, 0), q.args()).Canon
}

func (x *c22world) detail(extra ...interface{}) map[string]interface{} {
	d := map[string]interface{}{"world": x.w.Dump()}
	for i, m := range x.scopes {
		if m != nil {
			d[fmt.Sprintf("scope %d", i)] = mv.JSON(m)
		}
	}
	for i := 0; i+1 < len(extra); i += 2 {
		d[extra[i].(string)] = extra[i+1]
	}
	return d
}

// model predicts the outcome of a call, or returns an empty string
func (x *c22world) model(q *call) string {
	if q.mode > 0 {
		return ""
	}
	x.w.Inv = x.scopes[q.scope]
	o := model.NewEval(x.w).Lookup(q.keys[0], q.merge)
	if o.Kind == "unsupported" {
		return ""
	}
	if o.Kind == "absent" && q.def != nil {
		o = model.Outcome{Kind: "value", V: q.def}
	}
	return o.Canon()
}

// changed is a variant of a value that is just as long when written
func changed(v interface{}) interface{} {
	switch v := v.(type) {
	case *mv.Map:
		r := mv.NewMap()
		for _, k := range v.Keys {
			if k == "lookup_options" {
				r.Put(k, v.Get(k))
			} else {
				r.Put(k, changed(v.Get(k)))
			}
		}
		return r
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = changed(e)
		}
		return r
	case int64:
		if v >= 0 && v < 9 {
			return v + 1
		}
	case string:
		switch {
		case v == "red":
			return "tan"
		case v == "s1" || v == "s2":
			return "s9"
		case v == "blue":
			return "gold"
		case v == "green":
			return "black"
		}
	}
	return v
}

// change changes a source of data
func (x *c22world) change(g *gen.G) string {
	type src struct {
		fn string
		fs map[string]*model.File
		n  string
	}
	var srcs []src
	add := func(dir string, fs map[string]*model.File) {
		for n, f := range fs {
			if f.Format != "txt" {
				srcs = append(srcs, src{filepath.Join(dir, n), fs, n})
			}
		}
	}
	add(x.w.Root, x.w.Cfg.Files)
	for _, mp := range x.w.ModPaths {
		for _, m := range mp.Mods {
			if !mp.Missing && m.Cfg != nil && !m.Plain {
				add(filepath.Join(x.w.Root, mp.Dir, m.Dir), m.Cfg.Files)
			}
		}
	}
	sort.Slice(srcs, func(i, j int) bool { return srcs[i].fn < srcs[j].fn })
	if len(srcs) == 0 || g.P(.2) {
		var ids []string
		for id := range x.w.Tables {
			ids = append(ids, id)
		}
		if len(ids) == 0 {
			return ""
		}
		id := ids[0]
		sort.Strings(ids)
		id = ids[g.Intn(len(ids))]
		for _, l := range sortedLocs(x.w.Tables[id]) {
			x.w.Tables[id][l] = gen.Data(g, x.p)
		}
		return "the data of backend " + id
	}
	s := srcs[g.Intn(len(srcs))]
	f := s.fs[s.n]
	how := g.Weighted(4, 4, 1, 1)
	fi, err := os.Stat(s.fn)
	if err != nil {
		return ""
	}
	switch {
	case how == 0 && f.V != nil: // same size, same time
		nf := &model.File{Format: f.Format, V: changed(f.V).(*mv.Map)}
		s.fs[s.n] = nf
		write(s.fn, nf.Text())
		_ = os.Chtimes(s.fn, fi.ModTime(), fi.ModTime())
		return "in place " + s.n
	case how == 2:
		delete(s.fs, s.n)
		if os.Remove(s.fn) != nil {
			panic("remove")
		}
		return "removed " + s.n
	case how == 3:
		nf := &model.File{Format: f.Format, Raw: "[1, 2"}
		s.fs[s.n] = nf
		write(s.fn, nf.Text())
		return "broken " + s.n
	}
	ik := x.p.IntKeys
	if f.Format == "json" {
		x.p.IntKeys = 0
	}
	nf := &model.File{Format: f.Format, V: gen.Data(g, x.p)}
	x.p.IntKeys = ik
	s.fs[s.n] = nf
	write(s.fn, nf.Text())
	if g.P(.5) {
		_ = os.Chtimes(s.fn, fi.ModTime(), fi.ModTime())
	} else if g.P(.3) {
		old := time.Unix(1000000000, 0)
		_ = os.Chtimes(s.fn, old, old)
	}
	return "new content " + s.n
}

func sortedLocs(m map[string]*mv.Map) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	return ensureSorted(r)
}

func c22child(args []string) int {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	from, _ := strconv.Atoi(args[1])
	to, _ := strconv.Atoi(args[2])
	res := map[int][]string{}
	for i := to - 1; i >= from; i-- {
		dir := filepath.Join(args[3], strconv.Itoa(i))
		if err := os.MkdirAll(dir, 0755); err != nil {
			panic(err)
		}
		x := newC22world(gen.New(seed, "C22world", i), dir)
		out := make([]string, len(x.calls))
		for k := len(x.calls) - 1; k >= 0; k-- {
			out[k] = x.fresh(x.calls[k])
		}
		res[i] = out
	}
	bs, _ := json.Marshal(res)
	_, _ = os.Stdout.Write(bs)
	return 0
}

func c22(c *C) {
	n := c.N(900, 16000)
	outcomes := make([][]string, n)
	c.Parallel(n, func(i int) {
		dir := c.Dir()
		defer c.Drop(dir)
		x := newC22world(c.G("world", i), dir)
		g := c.G("history", i)
		want := make([]string, len(x.calls))
		for k, q := range x.calls {
			want[k] = x.fresh(q)
			if m := x.model(q); m != "" {
				c.Add("calls predicted by the model", 1)
				if !strings.HasPrefix(want[k]+" ", m+" ") {
					c.Violation(fmt.Sprintf("case %d: %s in a fresh session: expected %s, observed %s", i, q, m, want[k]), x.detail())
					return
				}
			}
		}
		outcomes[i] = append([]string{}, want...)
		keeping := g.P(.35)
		if keeping {
			x.keep = map[string]dgo.Value{}
		}
		s := x.session()
		defer s.KillPlugins()
		invs := map[int]api.Invocation{}
		args := map[int]*callArgs{}
		var hist []string
		for step := 0; step < 3*len(x.calls); step++ {
			k := g.Intn(len(x.calls))
			q := x.calls[k]
			inv := x.inv(s, q.scope, 0)
			how := "new invocation"
			switch {
			case q.explain > 0:
				inv, how = x.inv(s, q.scope, q.explain), "explained"
			case g.P(.4):
				if invs[q.scope] == nil {
					invs[q.scope] = x.frozenInv(s, q.scope)
				}
				inv, how = invs[q.scope], "same invocation"
			}
			a := args[k]
			if a == nil || g.P(.5) {
				a = q.args()
			} else {
				how += ", same arguments"
			}
			got := q.perform(inv, a)
			c.Case(q.String() + how + want[k])
			c.Add("calls repeated in a history", 1)
			hist = append(hist, q.String()+" ("+how+")")
			// Explaining only the options finds no data
			if got.Canon != want[k] && q.explain != 3 {
				c.Violation(fmt.Sprintf("case %d: %s: %s, but in a fresh session %s", i, hist[len(hist)-1], got, want[k]), x.detail("history", hist))
				return
			}
			args[k] = nil
			if g.P(.5) {
				args[k] = a // used again, unaltered
			} else {
				a.scribble()
				c.Add("arguments altered by the caller", 1)
			}
			if got.Kind == "value" && !keeping {
				if (isMutable(got.V)) && args[k] == nil {
					c.Add("results altered by the caller", 1)
					scribble(got.V)
				}
			}
		}
		if keeping {
			c.Add("worlds whose backends keep what they return", 1)
			if a := x.altered(); a != "" {
				c.Violation(fmt.Sprintf("case %d: the data that a function returned was altered: %s", i, a), x.detail("history", hist))
				return
			}
			return
		}

		// Changes of the data
		for round := 0; round < 3; round++ {
			var what []string
			for k := 1 + g.Intn(2); k > 0; k-- {
				if ch := x.change(g); ch != "" {
					what = append(what, ch)
					c.Add("changes of data", 1)
				}
			}
			for _, k := range g.Perm(len(x.calls)) {
				q := x.calls[k]
				now := x.fresh(q)
				if m := x.model(q); m != "" && !strings.HasPrefix(now+" ", m+" ") {
					c.Violation(fmt.Sprintf("case %d: %s in a fresh session after change of %s: expected %s, observed %s", i, q, what, m, now), x.detail())
					return
				}
				got := q.perform(x.inv(s, q.scope, 0), q.args())
				if now != want[k] {
					c.Add("outcomes that changed with the data", 1)
					want[k] = now
				}
				c.Case(fmt.Sprint(q, what, now))
				if got.Canon != now {
					c.Violation(fmt.Sprintf("case %d: %s after change of %s: %s, but in a fresh session %s", i, q, what, got, now), x.detail("history", hist))
					return
				}
			}
			hist = append(hist, fmt.Sprint("change of ", what))
		}
		c.Sample(map[string]interface{}{"case": i, "history": hist})
	})
	if c.Violations() > 0 {
		return
	}

	// Other processes, which perform the same calls in another order
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	const per = 50
	c.Parallel((n+per-1)/per, func(b int) {
		dir := c.Dir()
		defer c.Drop(dir)
		from, to := b*per, (b+1)*per
		if to > n {
			to = n
		}
		cmd := exec.Command(exe, "c22child", strconv.FormatInt(c.Seed, 10), strconv.Itoa(from), strconv.Itoa(to), dir)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		out, err := cmd.Output()
		var res map[int][]string
		if err == nil {
			err = json.Unmarshal(out, &res)
		}
		if err != nil {
			c.Violation(fmt.Sprintf("another process fails with %v", err), map[string]interface{}{"stderr": clip(stderr.String())})
			return
		}
		for i := from; i < to; i++ {
			for k, o := range outcomes[i] {
				c.Add("outcomes compared with another process", 1)
				if k >= len(res[i]) || res[i][k] != o {
					c.Violation(fmt.Sprintf("case %d: outcome of call %d is %s, and in another process %v", i, k, o, res[i]), nil)
					return
				}
			}
		}
	})

	// The provider that keeps its data in the session
	c.Parallel(c.N(300, 5000), func(i int) {
		dir := c.Dir()
		defer c.Drop(dir)
		g := c.G("yaml", i)
		p := gen.Default()
		p.LuOpts = 0
		data := gen.Data(g, p)
		path := filepath.Join(dir, "data.yaml")
		write(path, mv.YAML(data))
		open := func() api.Session {
			return session.New(context.Background(), provider.YamlLookupKey, map[string]interface{}{"path": path}, nil)
		}
		s := open()
		defer s.KillPlugins()
		gw := gen.NewW(g, p, &model.World{})
		var hist []string
		for k := 0; k < 12; k++ {
			key := gw.Key()
			merge := g.MergeOpt(.3)
			look := func(s api.Session) mon.Obs {
				return mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), key, nil, mon.MergeOption(merge)) })
			}
			want, got := look(open()), look(s)
			c.Case("yaml " + key + mv.Canon(merge) + want.Canon)
			hist = append(hist, key)
			c.Add("lookups in data of the session", 1)
			if got.Canon != want.Canon {
				c.Violation(fmt.Sprintf("case yaml%d: lookup of %s is %s, but in a fresh session %s", i, key, got, want), map[string]interface{}{"data": mv.YAML(data), "history": hist})
				return
			}
			if got.Kind == "value" {
				scribble(got.V)
			}
		}
	})

	// The command, run again
	c.Parallel(c.N(40, 400), func(i int) {
		dir := c.Dir()
		defer c.Drop(dir)
		x := newC22world(c.G("world", i), dir)
		for _, q := range x.calls[:3] {
			var first []byte
			for r := 0; r < 3; r++ {
				got, ended := runCommand(filepath.Join(c.Bin, "lookup"), dir, nil, "", append([]string{"--all", "--render-as", "json", "--"}, q.keys...)...)
				if !ended {
					c.Violation("the command doesn't end", x.detail("keys", q.keys))
					return
				}
				res := []byte(fmt.Sprintf("%d ", got.code))
				if got.code == 0 {
					res = append(res, got.out...)
				}
				if r > 0 && !bytes.Equal(res, first) {
					c.Violation(fmt.Sprintf("lookup %q printed %q, and later %q", q.keys, first, res), x.detail())
					return
				}
				first = res
				c.Add("commands repeated", 1)
			}
		}
	})
	c.Need("arguments altered by the caller", 1000)
	c.Need("results altered by the caller", 300)
	c.Need("outcomes that changed with the data", 500)
	c.c22opaque()
	c.c22same()
	c.c22order()
	c.Need("values that aren't data", 100)
	c.Need("worlds whose backends keep what they return", 100)
}

func isMutable(v dgo.Value) bool {
	f, ok := v.(dgo.Freezable)
	return ok && !f.Frozen()
}

// c22opaque uses functions that return something that isn't data, and that is returned as it is by all lookups
func (c *C) c22opaque() {
	type thing struct{ A int }
	for i := 0; i < c.N(40, 400); i++ {
		g := c.G("opaque", i)
		dir := c.Dir()
		ptr := &thing{i}
		vals := []interface{}{ptr, func() {}, make(chan int), typ.String, tf.Array(typ.Integer), vf.Sensitive(vf.Value(ptr)), vf.MutableValues(1, ptr), vf.MutableMap("k", typ.Any)}
		kind := g.Pick("data_hash", "lookup_key", "data_dig")
		write(filepath.Join(dir, "hiera.yaml"), mv.JSON(mv.NewMap("version", 5, "hierarchy", mv.L(
			mv.NewMap("name", "e", kind, "opaque", "path", "x"), mv.NewMap("name", "f", "path", "x")))))
		write(filepath.Join(dir, "data", "x"), "{b: 2, z: last}")
		all := vf.MutableMap()
		for n, v := range vals {
			all.Put(string(rune('a'+n))+"key", v)
		}
		if g.P(.5) {
			all.Put("plain", vf.MutableValues(1, vf.MutableMap("x", 1)))
		}
		var fn interface{}
		switch kind {
		case "data_hash":
			fn = func(sdk.ProviderContext) dgo.Map { return all }
		case "lookup_key":
			fn = func(_ sdk.ProviderContext, k string) dgo.Value { return all.Get(k) }
		default:
			fn = func(_ sdk.ProviderContext, k dgo.Array) dgo.Value { return all.Get(k.Get(0)) }
		}
		s := session.New(context.Background(), provider.ConfigLookupKey, map[string]interface{}{api.HieraRoot: dir, api.HieraFunctions: vf.Map("opaque", fn)}, nil)
		for _, n := range append(g.Perm(len(vals)), g.Perm(len(vals))...) {
			k := string(rune('a'+n)) + "key"
			o := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), k, nil, nil) })
			c.Case(fmt.Sprint("opaque", kind, k))
			c.Add("values that aren't data", 1)
			if o.Kind != "value" || !o.V.Equals(all.Get(k)) {
				c.Violation(fmt.Sprintf("a %s function returns %v for %s, but the lookup gives %s", kind, all.Get(k), k, o), nil)
				return
			}
		}
		if o := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), "z", nil, nil) }); o.Canon != `"last"` {
			c.Violation(fmt.Sprintf("a %s function that has values that aren't data hides the entry that follows: %s", kind, o), nil)
			return
		}
		c.Drop(dir)
	}
}

// c22same has a global configuration that also is the configuration of a module
func (c *C) c22same() {
	c.Parallel(c.N(150, 3000), func(i int) {
		dir := c.Dir()
		defer c.Drop(dir)
		g := c.G("same", i)
		lo := func() *mv.Map {
			m := mv.NewMap()
			for _, k := range []string{"y", "z", "one::x", "two::x"} {
				if g.P(.5) {
					m.Put(k, mv.NewMap("merge", g.Pick("unique", "deep", "hash", "first")))
				}
			}
			return m
		}
		mods := []string{"one"}
		if g.P(.5) {
			mods = append(mods, "two")
		}
		for _, mod := range mods {
			base := filepath.Join(dir, "mods", mod)
			write(filepath.Join(base, "hiera.yaml"), "version: 5\nhierarchy: [{name: a, paths: [a.yaml, b.yaml]}]\n")
			for _, f := range []string{"a", "b"} {
				d := mv.NewMap("lookup_options", lo(), "al", "%{alias('"+g.Pick("y", "one::x", "two::x")+"')}")
				for _, k := range []string{"y", "z", "one::x", "two::x"} {
					if g.P(.8) {
						d.Put(k, mv.L(k+" in "+mod+f, mv.NewMap("k"+f, mod)))
						if g.P(.3) {
							d.Put(k, mv.NewMap("k"+f, mod, "k", f))
						}
					}
				}
				write(filepath.Join(base, "data", f+".yaml"), mv.YAML(d))
			}
		}
		fs := [][]sdk.LookupKey{{provider.ModuleLookupKey, provider.ConfigLookupKey}, {provider.ConfigLookupKey, provider.ModuleLookupKey},
			{provider.ModuleLookupKey, func(pc sdk.ProviderContext, key string) dgo.Value {
				return provider.ConfigLookupKeyAt(pc.(api.ServerContext), filepath.Join(dir, "mods", "one", "hiera.yaml"), key, "")
			}}}[g.Intn(3)]
		s := session.New(context.Background(), provider.MuxLookupKey, map[string]interface{}{
			api.HieraConfig: filepath.Join(dir, "mods", "one", "hiera.yaml"), provider.ModulePath: filepath.Join(dir, "mods"), provider.LookupKeyFunctions: fs}, nil)
		defer s.KillPlugins()
		shared := s.Invocation(nil, nil)
		var hist []string
		for k := 0; k < 10; k++ {
			key := g.Pick("y", "z", "one::x", "two::x", "al", "one::al", "nope", "one::nope")
			merge := g.MergeOpt(.2)
			look := func(iv api.Invocation) mon.Obs {
				return mon.Try(func() dgo.Value { return hiera.Lookup(iv, key, nil, mon.MergeOption(merge)) })
			}
			want, got := look(s.Invocation(nil, nil)), look(shared)
			hist = append(hist, key)
			c.Case("same " + key + mv.Canon(merge) + want.Canon)
			c.Add("lookups in a configuration that also is that of a module", 1)
			if got.Canon != want.Canon {
				c.Violation(fmt.Sprintf("case same%d: lookup of %s is %s, but in a fresh invocation %s", i, key, got, want), map[string]interface{}{"history": hist})
				return
			}
		}
	})
	c.Need("lookups in a configuration that also is that of a module", 500)
}
