package checks

import (
	"context"
	"fmt"
	"io"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"github.com/sirupsen/logrus"

	"hv/gen"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C18", "an operation on the cache of a session performed by a backend function; distinct by operation, place it was made from, and result", c18)
	Modes["c18child"] = c18child
}

// A cacheOp is an operation on the cache of a session. Values are given as numbers, 0 is none.
type cacheOp struct {
	kind      string // put, get, all or list
	keys      []string
	vals      []int // what is put, or what is found
	old       int   // what put returns
	call, ret int64
	bad       string
}

func (o *cacheOp) String() string {
	return fmt.Sprintf("%s %v %v old %d [%d, %d]", o.kind, o.keys, o.vals, o.old, o.call, o.ret)
}

// cacheVal creates the value with a given number
func cacheVal(n int) dgo.Value {
	switch n % 6 {
	case 0:
		return vf.Integer(int64(n))
	case 1:
		return vf.Values("v", n)
	case 2:
		return vf.Map("n", n, "l", vf.Values(n, n))
	case 3:
		return vf.Values(vf.Nil, n)
	case 4:
		return vf.Sensitive(n)
	}
	return vf.String("v" + strconv.Itoa(n))
}

func cacheNum(v dgo.Value, ok bool) int {
	if !ok || v == nil {
		return 0
	}
	var x dgo.Value = v
	switch t := v.(type) {
	case dgo.Integer:
	case dgo.Array:
		x = t.Get(1)
	case dgo.Map:
		x = t.Get("n")
	case dgo.Sensitive:
		x = t.Unwrap()
	case dgo.String:
		n, err := strconv.Atoi(strings.TrimPrefix(t.GoString(), "v"))
		if err != nil {
			return -1
		}
		x = vf.Integer(int64(n))
	}
	n, ok := x.(dgo.Integer)
	if !ok || !v.Equals(cacheVal(int(n.GoInt()))) {
		return -1 // a value that nobody put there
	}
	return int(n.GoInt())
}

var cacheClock int64

// perform performs the operation
func (o *cacheOp) perform(sc api.ServerContext) {
	switch o.kind {
	case "put":
		v := cacheVal(o.vals[0])
		o.call = atomic.AddInt64(&cacheClock, 1)
		old := sc.Cache(o.keys[0], v)
		o.ret = atomic.AddInt64(&cacheClock, 1)
		o.old = cacheNum(old, old != nil)
	case "all":
		m := vf.MapWithCapacity(len(o.keys))
		for i, k := range o.keys {
			m.Put(k, cacheVal(o.vals[i]))
		}
		o.call = atomic.AddInt64(&cacheClock, 1)
		sc.CacheAll(m)
		o.ret = atomic.AddInt64(&cacheClock, 1)
	case "get":
		o.call = atomic.AddInt64(&cacheClock, 1)
		v, ok := sc.CachedValue(o.keys[0])
		o.ret = atomic.AddInt64(&cacheClock, 1)
		o.vals = []int{cacheNum(v, ok)}
		if ok != (v != nil) {
			o.bad = fmt.Sprintf("the value %v is returned with %v", v, ok)
		}
	case "list":
		type entry struct {
			k string
			v dgo.Value
		}
		var es []entry
		o.call = atomic.AddInt64(&cacheClock, 1)
		sc.CachedEntries(func(k string, v dgo.Value) { es = append(es, entry{k, v}) })
		o.ret = atomic.AddInt64(&cacheClock, 1)
		found := map[string]int{}
		for _, e := range es {
			if !strings.HasPrefix(e.k, "key") {
				continue // not put there by a backend function of ours
			}
			if _, dup := found[e.k]; dup {
				o.bad = "key " + e.k + " is listed twice"
			}
			n := cacheNum(e.v, true)
			if n <= 0 {
				o.bad = fmt.Sprintf("key %s is listed with value %v", e.k, e.v)
			}
			found[e.k] = n
		}
		o.keys, o.vals = nil, nil
		for k, n := range found {
			o.keys, o.vals = append(o.keys, k), append(o.vals, n)
		}
	}
	for _, n := range append(o.vals, o.old) {
		if n < 0 && o.bad == "" {
			o.bad = "it gives a value that was not put there"
		}
	}
}

// cacheBatch is a number of operations that a backend function performs when it is called
type cacheBatch struct {
	lock  sync.Mutex
	ops   []*cacheOp
	where string
	pause func()
	fail  bool
}

func (b *cacheBatch) run(pc sdk.ProviderContext, where string) {
	sc := pc.(api.ServerContext)
	b.lock.Lock()
	defer b.lock.Unlock()
	if b.where != "" {
		return // done
	}
	b.where = where
	for i, o := range b.ops {
		x := sc
		switch (i + len(b.ops)) % 5 {
		case 1:
			x = sc.ForData()
		case 2:
			x = sc.ForLookupOptions()
		case 3:
			x = sc.Invocation().ServerContext(vf.Map("a", 1))
		}
		if b.pause != nil {
			b.pause()
		}
		o.perform(x)
	}
	if b.fail {
		panic(fmt.Errorf("failing on purpose"))
	}
}

// cachePlaces are the ways in which a backend function is called
var cachePlaces = []string{"top", "lookup_key", "data_hash", "data_dig", "module", "interpolation", "explained", "custom provider"}

type cacheWorld struct {
	dir   string
	lock  sync.Mutex
	batch map[string]*cacheBatch
	n     int
}

func newCacheWorld(dir string) *cacheWorld {
	for _, k := range []string{"lookup_key", "data_hash", "data_dig"} {
		write(filepath.Join(dir, k, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", mv.L(mv.NewMap("name", "a", k, "c18_"+k)))))
	}
	write(filepath.Join(dir, "modules", "mod", "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", mv.L(mv.NewMap("name", "a", "lookup_key", "c18_lookup_key")))))
	return &cacheWorld{dir: dir, batch: map[string]*cacheBatch{}}
}

func (w *cacheWorld) get(pc sdk.ProviderContext) *cacheBatch {
	v := pc.(api.ServerContext).Invocation().Scope().Get("batch")
	if v == nil {
		return nil
	}
	w.lock.Lock()
	defer w.lock.Unlock()
	return w.batch[v.(dgo.String).GoString()]
}

func (w *cacheWorld) session(place string) api.Session {
	run := func(pc sdk.ProviderContext, where string) {
		if b := w.get(pc); b != nil {
			b.run(pc, where)
		}
	}
	topf := func(pc sdk.ProviderContext, key string) dgo.Value {
		if strings.HasPrefix(key, "batch") {
			run(pc, "top")
			return vf.True
		}
		if key == "alias" {
			return pc.(api.ServerContext).Interpolate(vf.String("%{alias('batch')}"))
		}
		return nil
	}
	kind := place
	switch place {
	case "explained", "module", "interpolation":
		kind = "lookup_key"
	case "custom provider":
		kind = "data_hash"
	}
	opts := map[string]interface{}{
		api.HieraRoot: filepath.Join(w.dir, kind),
		api.HieraFunctions: vf.Map(
			"c18_lookup_key", func(pc sdk.ProviderContext, key string) dgo.Value {
				if key == "alias" {
					return vf.String("%{lookup('batch')}")
				}
				run(pc, "lookup_key")
				return vf.True
			},
			"c18_data_hash", func(pc sdk.ProviderContext) dgo.Map {
				run(pc, "data_hash")
				return vf.Map("batch", true)
			},
			"c18_data_dig", func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
				run(pc, "data_dig")
				return vf.True
			}),
		provider.ModulePath: filepath.Join(w.dir, "modules"),
	}
	switch place {
	case "top":
		return session.New(context.Background(), topf, opts, nil)
	case "module":
		return session.New(context.Background(), provider.ModuleLookupKey, opts, nil)
	case "custom provider":
		opts[provider.LookupKeyFunctions] = []sdk.LookupKey{provider.ModuleLookupKey, topf, provider.ConfigLookupKey}
		return session.New(context.Background(), provider.MuxLookupKey, opts, nil)
	}
	return session.New(context.Background(), nil, opts, nil)
}

// do lets a backend function in the session perform the operations
func (w *cacheWorld) do(s api.Session, place string, b *cacheBatch) mon.Obs {
	w.lock.Lock()
	w.n++
	id := fmt.Sprintf("b%d", w.n)
	w.batch[id] = b
	w.lock.Unlock()
	defer func() {
		w.lock.Lock()
		delete(w.batch, id)
		w.lock.Unlock()
	}()
	key := "batch"
	switch place {
	case "module":
		key = "mod::batch"
	case "interpolation":
		key = "alias"
	}
	var ex api.Explainer
	if place == "explained" {
		ex = explain.NewExplainer(true, false)
	}
	return mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(vf.Map("batch", id), ex), key, nil, nil) })
}

func randomCacheOp(g *gen.G, keys, n int, next func() int) *cacheOp {
	key := func() string { return "key" + strconv.Itoa(g.Intn(keys)) }
	switch g.Weighted(8, 8, 2, 1) {
	case 0:
		return &cacheOp{kind: "put", keys: []string{key()}, vals: []int{next()}}
	case 1:
		return &cacheOp{kind: "get", keys: []string{key()}}
	case 2:
		o := &cacheOp{kind: "all"}
		for _, k := range g.Perm(keys)[:g.Intn(keys+1)] {
			o.keys = append(o.keys, "key"+strconv.Itoa(k))
			o.vals = append(o.vals, next())
		}
		return o
	}
	return &cacheOp{kind: "list"}
}

// One key of the cache is a register. An input of a put has the value, that of a get has the value found.
type regIn struct {
	put  bool
	val  int
	old  int
	solo bool // no other write of the key overlaps, so the old value is known
}

var regModel = porcupine.Model{
	Init: func() interface{} { return 0 },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		i := input.(regIn)
		if i.put {
			return !i.solo || i.old == state.(int), i.val
		}
		return i.val == state.(int), state
	},
	Equal:             func(a, b interface{}) bool { return a == b },
	DescribeOperation: func(input, output interface{}) string { return fmt.Sprint(input) },
}

// checkHistory checks that the operations on a session are as if performed one at a time
func checkHistory(all []*cacheOp, clients []int, keys int) (string, map[string]int) {
	stats := map[string]int{}
	for _, o := range all {
		if o.bad != "" {
			return fmt.Sprintf("%s: %s", o, o.bad), stats
		}
	}
	for k := 0; k < keys; k++ {
		key := "key" + strconv.Itoa(k)
		var h []porcupine.Operation
		for i, o := range all {
			in := regIn{}
			found := false
			for j, ok := range o.keys {
				if ok == key {
					found, in.val = true, o.vals[j]
				}
			}
			in.put = o.kind == "put" || o.kind == "all"
			if !found && o.kind != "list" {
				continue // a listing without the key is a read that finds nothing
			}
			if o.kind == "put" {
				in.old, in.solo = o.old, true
			}
			h = append(h, porcupine.Operation{ClientId: clients[i], Input: in, Call: o.call, Return: o.ret})
		}
		puts := map[int]int64{}
		for i := range h {
			in := h[i].Input.(regIn)
			if in.put {
				puts[in.val] = h[i].Call
			}
			for j := range h {
				if i != j && h[i].Call < h[j].Return && h[j].Call < h[i].Return {
					stats["overlapping pairs of operations on the same key"]++
					if h[j].Input.(regIn).put {
						in.solo = false
					}
				}
			}
			h[i].Input = in
		}
		for i := range h {
			in := h[i].Input.(regIn)
			if v := in.old; v != 0 {
				if call, ok := puts[v]; !ok || call > h[i].Return {
					return fmt.Sprintf("%s: a replacement gives the value %d, which was not there", key, v), stats
				}
			}
			if in.solo {
				stats["replaced values checked"]++
			}
		}
		switch porcupine.CheckOperationsTimeout(regModel, h, 20*time.Second) {
		case porcupine.Illegal:
			sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
			t := ""
			for _, e := range h {
				in := e.Input.(regIn)
				switch {
				case in.put:
					t += fmt.Sprintf("[%d %d] client %d puts %d", e.Call, e.Return, e.ClientId, in.val)
					if in.solo {
						t += fmt.Sprintf(" replacing %d", in.old)
					}
				default:
					t += fmt.Sprintf("[%d %d] client %d reads %d", e.Call, e.Return, e.ClientId, in.val)
				}
				t += "\n"
			}
			return "operations on " + key + " are not as if performed one at a time:\n" + t, stats
		case porcupine.Unknown:
			stats["undecided histories"]++
		default:
			stats["linearizable histories"]++
		}
	}
	return "", stats
}

func c18child(args []string) int {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	from, _ := strconv.Atoi(args[1])
	to, _ := strconv.Atoi(args[2])
	tmp := args[3]
	logrus.SetOutput(io.Discard)
	out := newChildOut()
	var busy int64
	go watch(out, &busy)
	w := newCacheWorld(tmp)
	for i := from; i < to; i++ {
		g := gen.New(seed, "C18concurrent", i)
		place := cachePlaces[i%len(cachePlaces)]
		ns := 1 + g.Intn(2)
		clients := 3 + g.Intn(6)
		keys := 1 + g.Intn(3)
		batch := 1 + g.Intn(30)
		total := 300 / clients
		pause := delays(seed + int64(i))
		num := 0
		type client struct {
			s  int
			bs []*cacheBatch
		}
		sessions := make([]api.Session, ns)
		for k := range sessions {
			sessions[k] = w.session(place)
		}
		cs := make([]*client, clients*ns)
		for k := range cs {
			cl := &client{s: k % ns}
			gc := gen.New(seed, fmt.Sprintf("C18client%d", k), i)
			for n := 0; n < total; {
				b := &cacheBatch{fail: gc.P(.05)}
				if g.P(.3) {
					b.pause = func() { pause("", "", "", "") }
				}
				for j := 0; j < batch && n < total; j++ {
					b.ops = append(b.ops, randomCacheOp(gc, keys, 0, func() int { num++; return num }))
					n++
				}
				cl.bs = append(cl.bs, b)
			}
			cs[k] = cl
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		var failed atomic.Value
		for _, cl := range cs {
			wg.Add(1)
			go func(cl *client) {
				defer wg.Done()
				<-start
				for _, b := range cl.bs {
					o := w.do(sessions[cl.s], place, b)
					atomic.AddInt64(&busy, 1)
					if (o.Kind == "value") == b.fail || b.where == "" {
						failed.Store(fmt.Sprintf("%s: lookup gives %s", place, o))
						return
					}
				}
			}(cl)
		}
		close(start)
		wg.Wait()
		bad := ""
		if f, ok := failed.Load().(string); ok {
			bad = f
		}
		for k := 0; k < ns && bad == ""; k++ {
			var all []*cacheOp
			var ids []int
			for ci, cl := range cs {
				if cl.s != k {
					continue
				}
				for _, b := range cl.bs {
					for _, o := range b.ops {
						all = append(all, o)
						ids = append(ids, ci)
						out.say(childReport{Kind: "case", Text: place + b.where + o.kind + fmt.Sprint(o.keys, o.vals, o.old), N: 1})
						out.count(o.kind, 1)
					}
				}
			}
			var stats map[string]int
			bad, stats = checkHistory(all, ids, keys)
			for n, v := range stats {
				out.count(n, v)
			}
			out.count("operations made from "+place, len(all))
		}
		for _, s := range sessions {
			s.KillPlugins()
		}
		if bad != "" {
			out.say(childReport{Kind: "bad", Text: fmt.Sprintf("case %d, %d clients: %s", i, clients, clip(bad)), Detail: map[string]interface{}{"history": bad}})
			break
		}
		out.say(childReport{Kind: "done", N: i})
	}
	atomic.StoreInt64(&busy, -1<<40)
	out.say(childReport{Kind: "end"})
	return 0
}

// c18sequence performs operations one at a time, in several sessions at once, and compares each with a map
func c18sequence(c *C, i int) {
	g := c.G("sequence", i)
	dir := c.Dir()
	defer c.Drop(dir)
	w := newCacheWorld(dir)
	place := cachePlaces[g.Intn(len(cachePlaces))]
	n := 1 + g.Intn(3)
	ss := make([]api.Session, n)
	want := make([]map[string]int, n)
	for k := range ss {
		ss[k] = w.session(place)
		want[k] = map[string]int{}
	}
	num := 0
	keys := 1 + g.Intn(4)
	var log []string
	for step := 0; step < 60; step++ {
		k := g.Intn(n)
		b := &cacheBatch{fail: g.P(.1)}
		for j := g.Intn(4); j >= 0; j-- {
			b.ops = append(b.ops, randomCacheOp(g, keys, 0, func() int { num++; return num }))
		}
		if ob := w.do(ss[k], place, b); (ob.Kind == "value") == b.fail || b.where == "" {
			c.Violation(fmt.Sprintf("case %d: lookup of %s gives %s", i, place, ob), log)
			return
		}
		for _, o := range b.ops {
			bad := o.bad
			switch o.kind {
			case "put":
				if o.old != want[k][o.keys[0]] {
					bad = fmt.Sprintf("returns %d, expected %d", o.old, want[k][o.keys[0]])
				}
				want[k][o.keys[0]] = o.vals[0]
			case "all":
				for x, key := range o.keys {
					want[k][key] = o.vals[x]
				}
			case "get":
				if o.vals[0] != want[k][o.keys[0]] {
					bad = fmt.Sprintf("finds %d, expected %d", o.vals[0], want[k][o.keys[0]])
				}
			case "list":
				got := map[string]int{}
				for x, key := range o.keys {
					got[key] = o.vals[x]
				}
				if fmt.Sprint(got) != fmt.Sprint(want[k]) {
					bad = fmt.Sprintf("gives %v, expected %v", got, want[k])
				}
			}
			log = append(log, fmt.Sprintf("session %d: %s", k, o))
			c.Case("sequence" + place + b.where + o.kind + fmt.Sprint(o.keys, o.vals, o.old))
			c.Add("operations in sequence", 1)
			if bad != "" {
				c.Violation(fmt.Sprintf("case %d, %s: %s in session %d %s", i, place, o, k, bad), log)
				return
			}
		}
	}
	c.Add("sequences", 1)
	if i%100 == 0 {
		c.Sample(log)
	}
}

func c18(c *C) {
	c.Workers(1, c.N(200, 4000), func(i int) { c18sequence(c, i) })
	type job struct{ from, procs int }
	n, chunk := c.N(480, 6000), c.N(40, 120)
	var next int64 = -1
	wg := sync.WaitGroup{}
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := int(atomic.AddInt64(&next, 1))
				if k*chunk >= n || c.Violations() >= 5 {
					return
				}
				c.runChild("concurrent use of the cache", []string{"c18child", fmt.Sprint(c.Seed), fmt.Sprint(k * chunk), fmt.Sprint((k + 1) * chunk), "@TMP"}, []int{2, 4, 8, 3}[k%4])
			}
		}()
	}
	wg.Wait()
	c.Need("sequences", int64(c.N(190, 3900)))
	c.Need("linearizable histories", int64(c.N(400, 5000)))
	c.Need("overlapping pairs of operations on the same key", 1000)
}
