package model

import (
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"hv/mv"
)

// Outcome is the outcome of a lookup
type Outcome struct {
	Kind string // value, absent, error or unsupported
	V    interface{}
	Err  string
}

// Canon returns the canonical text form of the outcome
func (o Outcome) Canon() string {
	switch o.Kind {
	case "value":
		return mv.Canon(o.V)
	case "absent":
		return "<absent>"
	case "error":
		return "<error>"
	}
	return "<" + o.Kind + ">"
}

func (o Outcome) String() string {
	if o.Kind == "error" {
		return "<error: " + o.Err + ">"
	}
	return o.Canon()
}

// Event is a call received by a backend function
type Event struct {
	Fn, ID, Loc, Key string
	Opts             string // canonical form of all options
}

func (e Event) String() string { return e.Fn + "|" + e.ID + "|" + e.Loc + "|" + e.Key }

type evalError string
type unsupported string

func fail(f string, args ...interface{}) { panic(evalError(fmt.Sprintf(f, args...))) }

// Unsupported ends the evaluation with the outcome that the model makes no prediction
func Unsupported(f string, args ...interface{}) { panic(unsupported(fmt.Sprintf(f, args...))) }

type rloc struct {
	path     string
	exists   bool
	original string
	uri      bool
}

type rentry struct {
	name    string
	fnKind  string
	fnName  string
	opts    *mv.Map
	noLoc   bool
	locs    []rloc
	hashes  map[string]*mv.Map
	dataDir string
}

type rconfig struct {
	entries []*rentry
	lo      *mv.Map
	module  string
	files   map[string]*File
	root    string
}

// Eval evaluates lookups in a world. It corresponds to one invocation.
type Eval struct {
	W       *World
	Trace   []Event
	stack   []string
	vars    []scopeVar
	configs map[string]*rconfig
	// Depth is the deepest nesting of names being resolved that was seen
	Depth int
	// Found collects the sources (entry name @ location) that had a value for the key of the outermost lookup, and
	// Missing the locations that don't exist
	Found, Missing []string
	resolveOnly    bool
	// X is the current node of the explanation, or nil when nothing is explained
	X *XNode
	// XTexts means that backend functions explain what they do
	XTexts          bool
	xOptions, xOnly bool
	mode            int
}

type scopeVar struct {
	name string
	v    interface{}
}

// NewEval creates an evaluator
func NewEval(w *World) *Eval {
	return &Eval{W: w, configs: map[string]*rconfig{}}
}

// Run runs the function and converts the outcome
func Run(f func() interface{}) (o Outcome) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case evalError:
			o = Outcome{Kind: "error", Err: string(r)}
		case unsupported:
			o = Outcome{Kind: "unsupported", Err: string(r)}
		default:
			panic(r)
		}
	}()
	v := f()
	if v == nil {
		return Outcome{Kind: "absent"}
	}
	return Outcome{Kind: "value", V: v}
}

// Lookup predicts the outcome of a lookup. The merge is nil, or the value of the merge option
func (ev *Eval) Lookup(key string, merge interface{}) Outcome {
	return Run(func() interface{} { return ev.lookup(key, merge) })
}

// Must is like Lookup but lets errors propagate to an enclosing Run
func (ev *Eval) Must(key string, merge interface{}) interface{} { return ev.lookup(key, merge) }

func (ev *Eval) push(name string) func() {
	for _, n := range ev.stack {
		if n == name {
			fail("recursive lookup of %s", name)
		}
	}
	ev.stack = append(ev.stack, name)
	if len(ev.stack) > ev.Depth {
		ev.Depth = len(ev.stack)
	}
	return func() { ev.stack = ev.stack[:len(ev.stack)-1] }
}

func (ev *Eval) lookup(key string, merge interface{}) interface{} {
	ps := ParseKey(key)
	root := ps[0].(string)
	if root == "lookup_options" {
		return ev.with(&XNode{Kind: "invalidKey", Key: key}, func() interface{} {
			ev.report("not_found", key, nil)
			return nil
		})
	}
	defer ev.push("key " + key)()
	m := ev.mode
	ev.mode = topMode
	defer func() { ev.mode = m }()
	v := ev.top(root, merge)
	if v == nil {
		return nil
	}
	return ev.forData(func() interface{} {
		v = ev.interpolate(v, true)
		return ev.dig(key, ps, v)
	})
}

// ParseKey parses a key
func ParseKey(key string) []interface{} {
	var ps []interface{}
	var cur strings.Builder
	quoted := false
	var q rune
	finish := func() {
		s := cur.String()
		cur.Reset()
		if !quoted {
			if i, err := strconv.ParseInt(s, 10, 32); err == nil {
				if len(ps) == 0 {
					fail("key '%s' first segment cannot be an index", key)
				}
				ps = append(ps, i)
				return
			}
			if s == "" {
				fail("key '%s' contains an empty segment", key)
			}
		} else if s == "" {
			Unsupported("empty quoted segment")
		}
		ps = append(ps, s)
		quoted = false
	}
	for _, c := range key {
		switch {
		case q != 0 && c == q:
			q = 0
		case q != 0:
			cur.WriteRune(c)
		case c == '\'' || c == '"':
			q = c
			quoted = true
		case c == '.':
			finish()
		default:
			cur.WriteRune(c)
		}
	}
	if q != 0 {
		fail("unterminated quote in key '%s'", key)
	}
	finish()
	return ps
}

// Dig follows all segments of the key, except the first, into the value
func Dig(ps []interface{}, v interface{}) interface{} {
	for _, p := range ps[1:] {
		switch c := v.(type) {
		case []interface{}:
			ix, ok := p.(int64)
			if !ok || ix < 0 || ix >= int64(len(c)) {
				return nil
			}
			v = c[ix]
		case *mv.Map:
			v = c.Get(p)
		default:
			return nil
		}
		if v == nil {
			return nil
		}
	}
	return v
}

// Merging

// MergeList merges the values of n sources
func MergeList(strategy string, n int, get func(i int) interface{}) interface{} {
	if n == 0 {
		return nil
	}
	if strategy == "first" {
		for i := 0; i < n; i++ {
			if v := get(i); v != nil {
				return v
			}
		}
		return nil
	}
	if n == 1 {
		v := get(0)
		if l, ok := v.([]interface{}); ok && strategy == "unique" {
			return uniq(flatten(l))
		}
		return v
	}
	var memo interface{}
	for i := 0; i < n; i++ {
		v := get(i)
		if v == nil {
			continue
		}
		switch {
		case memo == nil && strategy == "unique":
			memo = uniq(asFlatList(v))
		case memo == nil:
			memo = v
		case strategy == "unique":
			memo = uniq(append(append([]interface{}{}, memo.([]interface{})...), asFlatList(v)...))
		case strategy == "hash":
			memo = hashMerge(memo, v)
		case strategy == "deep":
			memo = DeepMerge(memo, v)
		}
	}
	return memo
}

func asFlatList(v interface{}) []interface{} {
	if l, ok := v.([]interface{}); ok {
		return flatten(l)
	}
	return []interface{}{v}
}

func flatten(l []interface{}) []interface{} {
	r := []interface{}{}
	for _, e := range l {
		if el, ok := e.([]interface{}); ok {
			r = append(r, flatten(el)...)
		} else {
			r = append(r, e)
		}
	}
	return r
}

func uniq(l []interface{}) []interface{} {
	seen := map[string]bool{}
	r := []interface{}{}
	for _, e := range l {
		c := mv.Canon(e)
		if !seen[c] {
			seen[c] = true
			r = append(r, e)
		}
	}
	return r
}

func hashMerge(a, b interface{}) interface{} {
	ma, ok := a.(*mv.Map)
	if !ok {
		return a
	}
	mb, ok := b.(*mv.Map)
	if !ok {
		return a
	}
	r := mb.Copy()
	for _, k := range ma.Keys {
		r.Put(k, ma.Get(k))
	}
	return r
}

// DeepMerge merges b into a
func DeepMerge(a, b interface{}) interface{} {
	switch a := a.(type) {
	case *mv.Map:
		mb, ok := b.(*mv.Map)
		if !ok {
			return a
		}
		r := mv.NewMap()
		for _, k := range a.Keys {
			av := a.Get(k)
			if bv := mb.Get(k); bv != nil {
				av = DeepMerge(av, bv)
			}
			r.Put(k, av)
		}
		for _, k := range mb.Keys {
			if a.Get(k) == nil {
				r.Put(k, mb.Get(k))
			}
		}
		return r
	case []interface{}:
		lb, ok := b.([]interface{})
		if !ok || len(lb) == 0 {
			return a
		}
		if len(a) == 0 {
			return lb
		}
		return uniq(append(append([]interface{}{}, a...), lb...))
	}
	return a
}

// strat is a merge strategy with options, which only the deep strategy has
type strat struct {
	name string
	opts *mv.Map
}

var deep = strat{name: "deep"}

// strategy selects the merge strategy
func strategy(merge interface{}, lo *mv.Map) strat {
	o := merge
	if o == nil {
		o = lo.Get("merge")
	}
	s := strat{name: "first"}
	switch o := o.(type) {
	case string:
		s.name = o
	case *mv.Map:
		s.name, _ = o.Get("strategy").(string)
		if s.name == "deep" {
			s.opts = o.Copy()
			s.opts.Delete("strategy")
		}
	}
	switch s.name {
	case "first", "unique", "hash", "deep":
		return s
	}
	fail("unknown merge strategy '%s'", s.name)
	return s
}

// top is the top provider

func (ev *Eval) top(root string, merge interface{}) interface{} {
	if ev.W.Providers == nil {
		rc := ev.config(ev.W.Cfg, ev.W.Root, "")
		lo := rc.options(root)
		return ev.forData(func() interface{} {
			return ev.with(&XNode{Kind: "lookup", Key: root}, func() interface{} {
				ev.mergeSource(merge, lo)
				s := strategy(merge, lo)
				return ev.convert(lo, func() interface{} { return ev.hierarchy(rc, root, s) })
			})
		})
	}
	n := len(ev.W.Providers)
	lo, _ := ev.forOptions(func() interface{} {
		return ev.merged(deep, n, func(i int) interface{} {
			switch ev.W.Providers[i] {
			case "config":
				return absent(ev.config(ev.W.Cfg, ev.W.Root, "").options(root))
			case "module":
				return ev.module(root, func(rc *rconfig) interface{} { return absent(rc.options(root)) })
			case "yaml":
				return ownOptions(ev.W.Tables["yaml"][""].Get("lookup_options"), root)
			case "scope":
				return ownOptions(ev.scope("lookup_options"), root)
			}
			return nil // also environment variables are not lookup options
		})
	}).(*mv.Map)
	return ev.forData(func() interface{} {
		return ev.with(&XNode{Kind: "lookup", Key: root}, func() interface{} {
			ev.mergeSource(merge, lo)
			return ev.providers(root, merge, lo)
		})
	})
}

func (ev *Eval) providers(root string, merge interface{}, lo *mv.Map) interface{} {
	s := strategy(merge, lo)
	return ev.convert(lo, func() interface{} {
		return ev.merged(s, len(ev.W.Providers), func(i int) interface{} {
			switch p := ev.W.Providers[i]; p {
			case "config":
				return ev.hierarchy(ev.config(ev.W.Cfg, ev.W.Root, ""), root, s)
			case "module":
				return ev.module(root, func(rc *rconfig) interface{} { return ev.hierarchy(rc, root, s) })
			case "env":
				return ev.environment(root)
			case "yaml":
				return ev.W.Tables["yaml"][""].Get(root)
			case "scope":
				return ev.scope(root)
			default: // a custom function
				ev.Trace = append(ev.Trace, Event{Fn: "custom", ID: p, Key: root})
				if v := ev.W.Tables[p][""].Get(root); v != nil {
					return v
				}
				return nil
			}
		})
	})
}

// ownOptions are the options for a key in the lookup_options of a provider that has all of its data in one place
func ownOptions(lo interface{}, root string) interface{} {
	if m, ok := lo.(*mv.Map); ok {
		if o, ok := m.Get(root).(*mv.Map); ok {
			return o
		}
	}
	return nil
}

func absent(m *mv.Map) interface{} {
	if m == nil {
		return nil
	}
	return m
}

func (ev *Eval) environment(root string) interface{} {
	if root == "env" {
		if !ev.W.AllEnv {
			Unsupported("the complete environment")
		}
		m := mv.NewMap()
		ks := make([]string, 0, len(ev.W.Env))
		for k := range ev.W.Env {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m.Put(k, ev.W.Env[k])
		}
		return m
	}
	if strings.HasPrefix(root, "env::") {
		if v, ok := ev.W.Env[root[5:]]; ok {
			return v
		}
	}
	return nil
}

// module calls the function with the configuration of the module that the key belongs to, if any
func (ev *Eval) module(root string, f func(rc *rconfig) interface{}) interface{} {
	ci := strings.Index(root, "::")
	if ci <= 0 {
		return nil
	}
	name := strings.ToLower(root[:ci])
	return ev.with(&XNode{Kind: "module", Name: name}, func() interface{} {
		if rc := ev.findModule(name); rc != nil {
			return f(rc)
		}
		if ev.X != nil {
			ev.X.Event = "module_not_found"
		}
		return nil
	})
}

func (ev *Eval) findModule(name string) *rconfig {
	for _, p := range ev.W.ModPaths {
		if p.Missing {
			continue
		}
		for _, m := range p.Mods {
			if strings.EqualFold(m.Dir, name) {
				if m.Plain || m.Cfg == nil || m.Cfg.Absent {
					continue
				}
				return ev.config(m.Cfg, filepath.Join(ev.W.Root, p.Dir, m.Dir), name)
			}
		}
	}
	return nil
}

// Configuration

func (rc *rconfig) options(root string) *mv.Map {
	if rc.lo != nil && (rc.module == "" || strings.HasPrefix(root, rc.module+"::")) {
		m, _ := rc.lo.Get(root).(*mv.Map)
		return m
	}
	return nil
}

func (ev *Eval) dataDirDefault() string {
	if d, ok := ev.W.Env["HIERA_DATADIR"]; ok {
		return d
	}
	return "data"
}

func (ev *Eval) config(c *Config, root, module string) *rconfig {
	if rc, ok := ev.configs[root]; ok {
		return rc
	}
	if c.Raw != "" {
		fail("malformed configuration in %s", root)
	}
	rc := &rconfig{module: module, files: c.Files, root: root}
	ev.noExplain(func() { ev.entries(rc, c, root) })
	if ev.resolveOnly {
		return rc
	}
	lo := ev.forOptions(func() interface{} {
		return ev.with(&XNode{Kind: "lookup", Key: "lookup_options"}, func() interface{} {
			return ev.merged(deep, len(rc.entries), func(i int) interface{} {
				return ev.entry(rc, rc.entries[i], "lookup_options", deep)
			})
		})
	})
	rc.lo, _ = lo.(*mv.Map)
	ev.configs[root] = rc
	return rc
}

// entries resolves the entries of a configuration
func (ev *Eval) entries(rc *rconfig, c *Config, root string) {
	d := &Entry{FnKind: "data_hash", FnName: "yaml_data"}
	if c.Defaults != nil {
		cd := *c.Defaults
		d = &cd
		if d.FnKind == "" {
			d.FnKind, d.FnName = "data_hash", "yaml_data"
		} else {
			d.FnName = ev.text(d.FnName)
		}
		if d.DataDir != "" {
			if d.DataDir = ev.text(d.DataDir); d.DataDir == "" {
				Unsupported("the data directory of the defaults is empty once interpolated")
			}
		}
		if d.Options != nil {
			d.Options = ev.interpolate(d.Options, false).(*mv.Map)
		}
	}
	if d.DataDir == "" {
		d.DataDir = ev.dataDirDefault()
	}
	entries := c.Entries
	if c.Absent || c.NoHierarchy {
		entries = []*Entry{
			{Name: "Root", DataDir: ".", Loc: &Loc{"path", []string{"data.yaml"}}},
			{Name: "Common", Loc: &Loc{"path", []string{"common.yaml"}}}}
	}
	for _, e := range entries {
		re := &rentry{name: e.Name, hashes: map[string]*mv.Map{}}
		if e.FnKind == "" {
			re.fnKind, re.fnName = d.FnKind, d.FnName
		} else {
			re.fnKind, re.fnName = e.FnKind, ev.text(e.FnName)
		}
		dd := d.DataDir
		if e.DataDir != "" {
			dd = ev.text(e.DataDir)
		}
		if !filepath.IsAbs(dd) {
			dd = filepath.Join(root, dd)
		}
		re.dataDir = dd
		switch {
		case e.Options != nil:
			re.opts = ev.interpolate(e.Options, false).(*mv.Map)
		case d.Options != nil:
			re.opts = d.Options
		default:
			re.opts = mv.NewMap()
		}
		ev.locations(rc, re, e.Loc, dd)
		rc.entries = append(rc.entries, re)
	}
}

func (ev *Eval) exists(rc *rconfig, p string) bool {
	rel, err := filepath.Rel(rc.root, p)
	if err != nil {
		return false
	}
	if _, ok := rc.files[rel]; ok {
		return true
	}
	for f := range rc.files {
		if strings.HasPrefix(f, rel+"/") {
			Unsupported("a path that is a directory")
		}
	}
	return false
}

func (ev *Eval) locations(rc *rconfig, re *rentry, l *Loc, dd string) {
	if l == nil {
		re.noLoc = true
		return
	}
	add := func(original, s string) {
		p := filepath.Join(dd, s)
		re.locs = append(re.locs, rloc{p, ev.exists(rc, p), original, false})
	}
	switch l.Kind {
	case "path", "paths":
		for _, a := range l.Args {
			add(a, ev.text(a))
		}
	case "uri", "uris":
		for _, a := range l.Args {
			re.locs = append(re.locs, rloc{ev.text(a), true, a, true})
		}
	case "glob", "globs":
		for _, a := range l.Args {
			pat := filepath.Join(dd, ev.text(a))
			var ms []string
			for f := range rc.files {
				if fp := filepath.Join(rc.root, f); globMatch(RelLoc(rc.root, pat), RelLoc(rc.root, fp)) {
					ms = append(ms, fp)
				}
			}
			sort.Strings(ms)
			for _, m := range ms {
				re.locs = append(re.locs, rloc{m, true, a, false})
			}
		}
	case "mapped_paths":
		var vs []interface{}
		switch v := ev.inScope(l.Args[0], false).(type) {
		case string:
			vs = []interface{}{v}
		case []interface{}:
			vs = v
		}
		for _, v := range vs {
			ev.vars = append(ev.vars, scopeVar{l.Args[1], v})
			s := ev.text(l.Args[2])
			ev.vars = ev.vars[:len(ev.vars)-1]
			add(l.Args[2], s)
		}
	}
}

func globMatch(pat, name string) bool {
	return globParts(strings.Split(pat, "/"), strings.Split(name, "/"))
}

func globParts(ps, ns []string) bool {
	for i, p := range ps {
		if p == "**" {
			for j := i; j <= len(ns); j++ {
				if globParts(ps[i+1:], ns[j:]) {
					return true
				}
			}
			return false
		}
		if i >= len(ns) {
			return false
		}
		ok := false
		if o := strings.Index(p, "{"); o >= 0 {
			c := strings.Index(p, "}")
			for _, a := range strings.Split(p[o+1:c], ",") {
				if m, _ := path.Match(p[:o]+a+p[c+1:], ns[i]); m {
					ok = true
				}
			}
		} else {
			ok, _ = path.Match(p, ns[i])
		}
		if !ok {
			return false
		}
		ps, ns := ps[i+1:], ns[i+1:]
		return globParts(ps, ns)
	}
	return len(ns) == 0
}

// Sources

func (ev *Eval) hierarchy(rc *rconfig, root string, s strat) interface{} {
	return ev.merged(s, len(rc.entries), func(i int) interface{} { return ev.entry(rc, rc.entries[i], root, s) })
}

func (ev *Eval) entry(rc *rconfig, re *rentry, root string, s strat) interface{} {
	return ev.with(&XNode{Kind: "provider", Name: re.fullName()}, func() interface{} {
		if re.noLoc {
			return ev.source(rc, re, nil, root)
		}
		return ev.merged(s, len(re.locs), func(i int) interface{} {
			l := &re.locs[i]
			n := &XNode{Kind: "location", Original: l.original, Resolved: l.path, Exists: l.exists, URI: l.uri}
			return ev.with(n, func() interface{} { return ev.source(rc, re, l, root) })
		})
	})
}

// RelLoc makes a location independent of where the root is
func RelLoc(root, loc string) string {
	if strings.HasPrefix(loc, root+"/") {
		return loc[len(root)+1:]
	}
	return loc
}

func (ev *Eval) source(rc *rconfig, re *rentry, l *rloc, root string) interface{} {
	loc := ""
	opts := re.opts
	if l != nil {
		loc = RelLoc(ev.W.Root, l.path)
		if !l.exists {
			if ev.X != nil {
				ev.X.Event = "location_not_found"
			}
			if root != "lookup_options" && len(ev.stack) == 1 {
				ev.Missing = append(ev.Missing, re.name+"@"+loc)
			}
			return nil
		}
		opts = opts.Copy()
		opts.Put("path", l.path)
	}
	v := ev.value(rc, re, l, loc, opts, root)
	if v == nil {
		ev.report("not_found", root, nil)
	} else {
		ev.report("found", root, v)
	}
	if root != "lookup_options" && len(ev.stack) == 1 && v != nil {
		ev.Found = append(ev.Found, re.name+"@"+loc)
	}
	return v
}

func (ev *Eval) value(rc *rconfig, re *rentry, l *rloc, loc string, opts *mv.Map, root string) interface{} {
	event := func(key string) {
		id, _ := opts.Get("id").(string)
		e := Event{re.fnName, id, loc, key, mv.Canon(opts)}
		ev.Trace = append(ev.Trace, e)
		if ev.XTexts && ev.X != nil {
			ev.X.Texts = append(ev.X.Texts, "asked "+e.String())
		}
	}
	table := func() *mv.Map {
		id, _ := opts.Get("id").(string)
		return ev.W.Tables[id][loc]
	}
	switch re.fnKind {
	case "data_hash":
		h, ok := re.hashes[loc]
		if !ok {
			switch re.fnName {
			case "yaml_data", "json_data":
				if l == nil {
					fail("missing path")
				}
				rel, _ := filepath.Rel(rc.root, l.path)
				f := rc.files[rel]
				switch {
				case f == nil:
					h = mv.NewMap()
				case f.V != nil && re.fnName == "json_data" && f.Format != "json" && f.V.Len() == 0:
					h = f.V // {} is JSON too
				case f.V != nil && re.fnName == "json_data" && f.Format == "flow":
					Unsupported("YAML that may be JSON")
				case f.V == nil || (re.fnName == "json_data" && f.Format != "json"):
					fail("malformed file %s", rel)
				default:
					h = f.V
				}
			case "hv_hash":
				event("")
				if h = table(); h == nil {
					h = mv.NewMap()
				}
			case "hv_undefined":
				fail("no such function")
			default:
				Unsupported("function %s", re.fnName)
			}
			re.hashes[loc] = h
		}
		v := h.Get(root)
		if v == nil {
			return nil
		}
		return ev.interpolate(v, true)
	case "lookup_key":
		switch re.fnName {
		case "scope":
			return ev.scope(root)
		case "environment":
			return ev.environment(root)
		case "hv_key":
			event(root)
			return table().Get(root)
		case "hv_undefined":
			fail("no such function")
		}
	case "data_dig":
		switch re.fnName {
		case "hv_dig":
			event(mv.Canon([]interface{}{root}))
			return table().Get(root)
		case "hv_undefined":
			fail("no such function")
		}
	}
	Unsupported("function %s %s", re.fnKind, re.fnName)
	return nil
}

// Scope and interpolation

func (ev *Eval) scope(name string) interface{} {
	for i := len(ev.vars) - 1; i >= 0; i-- {
		if ev.vars[i].name == name {
			return ev.vars[i].v
		}
	}
	if v := ev.W.Inv.Get(name); v != nil {
		return v
	}
	return ev.W.Sess.Get(name)
}

func (ev *Eval) inScope(expr string, methods bool) interface{} {
	ps := ParseKey(expr)
	v := ev.scope(ps[0].(string))
	if v == nil {
		return nil
	}
	pop := ev.push("var " + ps[0].(string))
	v = ev.interpolate(v, methods)
	pop()
	if v == nil {
		return nil
	}
	return ev.dig(expr, ps, v)
}

// text interpolates a string of a configuration
func (ev *Eval) text(s string) string {
	if !strings.Contains(s, "%{") {
		return s
	}
	return Text(ev.str(s, false))
}

// Text returns what a value contributes to a string
func Text(v interface{}) string {
	switch v := v.(type) {
	case string:
		return v
	case int64:
		return strconv.FormatInt(v, 10)
	case bool:
		return strconv.FormatBool(v)
	case float64:
		s := strconv.FormatFloat(v, 'g', -1, 64)
		if strings.ContainsAny(s, "e") || !strings.Contains(s, ".") {
			Unsupported("text of float")
		}
		return s
	case mv.Sensitive:
		return "sensitive [value redacted]"
	}
	Unsupported("text of %T", v)
	return ""
}

func (ev *Eval) interpolate(v interface{}, methods bool) interface{} {
	switch v := v.(type) {
	case string:
		if strings.Contains(v, "%{") {
			return ev.with(&XNode{Kind: "interpolate", Name: v}, func() interface{} { return ev.str(v, methods) })
		}
		return v
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			if r[i] = ev.interpolate(e, methods); r[i] == nil {
				r[i] = mv.Null{}
			}
		}
		return r
	case *mv.Map:
		r := mv.NewMap()
		for _, k := range v.Keys {
			nk := ev.interpolate(k, methods)
			e := ev.interpolate(v.Get(k), methods)
			if e == nil {
				e = mv.Null{}
			}
			switch nk.(type) {
			case string, int64:
			default:
				Unsupported("key of type %T", nk)
			}
			r.Put(nk, e)
		}
		return r
	}
	return v
}

func (ev *Eval) str(s string, methods bool) interface{} {
	var b strings.Builder
	rest := s
	for {
		i := strings.Index(rest, "%{")
		if i < 0 {
			b.WriteString(rest)
			break
		}
		j := strings.Index(rest[i:], "}")
		if j < 0 {
			b.WriteString(rest)
			break
		}
		b.WriteString(rest[:i])
		whole := rest[i : i+j+1]
		expr := strings.TrimSpace(whole[2 : len(whole)-1])
		rest = rest[i+j+1:]
		switch expr {
		case "", "::", `""`, "''", `"::"`, "'::'":
			continue
		}
		method, arg := methodOf(expr)
		if method != "" && !methods {
			fail("methods not allowed")
		}
		switch method {
		case "":
			if v := ev.inScope(expr, methods); v != nil {
				b.WriteString(Text(v))
			}
		case "scope":
			if v := ev.inScope(arg, methods); v != nil {
				b.WriteString(Text(v))
			}
		case "literal":
			b.WriteString(arg)
		case "lookup", "hiera":
			if v := ev.lookup(arg, nil); v != nil {
				b.WriteString(Text(v))
			}
		case "alias", "strict_alias":
			if whole != s {
				fail("misplaced alias")
			}
			v := ev.lookup(arg, nil)
			if v == nil && method == "alias" {
				return ""
			}
			return v
		default:
			fail("unknown interpolation method '%s'", method)
		}
	}
	r := b.String()
	if strings.Contains(r, "%{") {
		Unsupported("interpolation resulting in an expression")
	}
	return r
}

// methodOf splits name('arg') into name and arg
func methodOf(expr string) (string, string) {
	o := strings.Index(expr, "(")
	if o <= 0 || len(expr) < o+5 || expr[len(expr)-1] != ')' {
		return "", ""
	}
	for _, c := range expr[:o] {
		if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return "", ""
		}
	}
	q := expr[o+1]
	if q != '"' && q != '\'' || expr[len(expr)-2] != q {
		return "", ""
	}
	arg := expr[o+2 : len(expr)-2]
	if strings.IndexByte(arg, q) >= 0 {
		return "", ""
	}
	return expr[:o], arg
}

// Conversion

func (ev *Eval) convert(lo *mv.Map, f func() interface{}) interface{} {
	ct := lo.Get("convert_to")
	var ts string
	var args []interface{}
	switch c := ct.(type) {
	case nil:
		return f()
	case string:
		ts = c
	case []interface{}:
		if len(c) == 0 {
			return f()
		}
		s, ok := c[0].(string)
		if !ok {
			fail("convert_to is not a string")
		}
		ts = s
		args = c[1:]
	default:
		fail("convert_to is not a string")
	}
	if ts == "sensitive[any]" {
		ts = "sensitive"
	}
	switch ts {
	case "string", "int", "float", "bool", "sensitive", "[]any":
	default:
		fail("unknown type %s", ts)
	}
	v := f()
	if v == nil {
		return nil
	}
	return Convert(ts, args, v)
}

// Convert converts a value
func Convert(ts string, args []interface{}, v interface{}) interface{} {
	switch ts {
	case "string":
		if len(args) == 0 {
			return Text(v)
		}
	case "int":
		switch v := v.(type) {
		case int64:
			if len(args) == 0 {
				return v
			}
		case string:
			base := 10
			if len(args) == 1 {
				b, _ := args[0].(int64)
				base = int(b)
			} else if len(args) > 1 {
				break
			}
			if strings.HasPrefix(v, "0") && len(v) > 1 || strings.ContainsAny(v, "_+xX") {
				break // prefixes
			}
			i, err := strconv.ParseInt(v, base, 64)
			if err != nil {
				fail("not an int %s", v)
			}
			return i
		case []interface{}, *mv.Map:
			if len(args) == 0 {
				fail("not an int")
			}
		}
	case "float":
		switch v := v.(type) {
		case int64:
			return float64(v)
		case float64:
			return v
		}
	case "bool":
		switch v := v.(type) {
		case bool:
			return v
		case string:
			switch v {
			case "true":
				return true
			case "false":
				return false
			}
		}
	case "sensitive":
		if s, ok := v.(mv.Sensitive); ok && len(args) == 0 {
			return s
		}
		if len(args) == 0 {
			return mv.Sensitive{V: v}
		}
	case "[]any":
		if l, ok := v.([]interface{}); ok && len(args) == 0 {
			return l
		}
	}
	Unsupported("conversion of %T to %s", v, ts)
	return nil
}

// Source is a place that a backend function gets its data from
type Source struct{ ID, Loc, Module string }

// Sources returns the sources of all backend functions in the world, as far as they can be resolved
func Sources(w *World) []Source {
	var ss []Source
	add := func(c *Config, root, module string) {
		_ = Run(func() interface{} {
			ev := NewEval(w)
			ev.resolveOnly = true
			rc := ev.config(c, root, module)
			for _, e := range rc.entries {
				id, _ := e.opts.Get("id").(string)
				if id == "" || !strings.HasPrefix(e.fnName, "hv_") {
					continue
				}
				if e.noLoc {
					ss = append(ss, Source{id, "", module})
				}
				for _, l := range e.locs {
					ss = append(ss, Source{id, RelLoc(w.Root, l.path), module})
				}
			}
			return nil
		})
	}
	add(w.Cfg, w.Root, "")
	for _, p := range w.ModPaths {
		for _, m := range p.Mods {
			if m.Cfg != nil {
				add(m.Cfg, filepath.Join(w.Root, p.Dir, m.Dir), strings.ToLower(m.Dir))
			}
		}
	}
	return ss
}

// Interpolate predicts the outcome of the interpolation of a value. It must be called within a Run
func (ev *Eval) Interpolate(v interface{}, methods bool) interface{} {
	return ev.interpolate(v, methods)
}

// During runs the function while the given key is being looked up. It must be called within a Run
func (ev *Eval) During(key string, f func() interface{}) interface{} {
	defer ev.push("key " + key)()
	root := ParseKey(key)[0].(string)
	ev.top(root, nil)
	return f()
}

// Scoped is like During but for what is done in a scope of its own, where nothing was resolved before
func (ev *Eval) Scoped(key string, f func() interface{}) interface{} {
	defer ev.push("key " + key)()
	return f()
}

// InScope predicts the value of an expression that refers to a variable. It must be called within a Run
func (ev *Eval) InScope(expr string, methods bool) interface{} { return ev.inScope(expr, methods) }

// At predicts what a hierarchy of its own, that has the given configuration, gives for a root key. It must be called
// within a Run
func (ev *Eval) At(c *Config, root, key, strategy string) interface{} {
	return ev.hierarchy(ev.config(c, root, ""), key, strat{name: strategy})
}
