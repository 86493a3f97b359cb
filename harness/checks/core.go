// Package checks contains one monitor per property
package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lyraproj/dgo/loader"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
	"hv/rep"
)

// Check is a registered check
type Check struct {
	ID    string
	Level string
	Rule  string
	Run   func(c *C)
}

// All checks by ID
var All = map[string]*Check{}

// Modes are run by child processes
var Modes = map[string]func(args []string) int{}

func register(id, rule string, run func(c *C)) {
	All[id] = &Check{ID: id, Level: "exploration", Rule: rule, Run: run}
}

// C is the context of a running check
type C struct {
	*rep.R
	Seed int64
	Tmp  string // scratch directory, removed afterwards
	Bin  string // directory of the binaries that were built from the working tree
	n    int64
}

// Dir creates a new scratch directory
func (c *C) Dir() string {
	d := filepath.Join(c.Tmp, "w"+strconv.FormatInt(atomic.AddInt64(&c.n, 1), 10))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// Drop removes a directory created by Dir
func (c *C) Drop(d string) {
	if strings.HasPrefix(d, c.Tmp+"/") {
		_ = os.RemoveAll(d)
	}
}

// G creates the generator of a case
func (c *C) G(name string, n int) *gen.G { return gen.New(c.Seed, c.ID+name, n) }

// Inconclusive ends the check without a verdict
func (c *C) Inconclusive(f string, args ...interface{}) {
	fmt.Printf("INCONCLUSIVE property=%s "+f+"\n", append([]interface{}{c.ID}, args...)...)
	_ = os.RemoveAll(c.Tmp)
	os.Exit(2)
}

// Need ends the check without a verdict when a counter is lower than it should be, unless there are violations
func (c *C) Need(name string, n int64) {
	got := c.Get(name)
	if sc := int64(c.SeenCount(name)); sc > got {
		got = sc
	}
	if got < n && c.Violations() == 0 {
		c.Inconclusive("only %d of %s observed, at least %d needed", got, name, n)
	}
}

// Parallel runs the cases 0 to n-1 using all cores, in chunks
func (c *C) Parallel(n int, f func(i int)) { c.Workers(8, n, f) }

// Workers is like Parallel but with another number of workers, for cases that mostly wait
func (c *C) Workers(workers, n int, f func(i int)) {
	var next int64 = -1
	wg := sync.WaitGroup{}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Violations() >= 10 {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Watchdog ends the check when nothing happens. It is a violation if the code of hiera is what blocks, or never ends,
// and no verdict otherwise.
func (c *C) Watchdog() {
	limit := 840 * time.Second
	if c.Thorough() {
		limit = 3 * time.Hour
	}
	start := time.Now()
	last, since, cpu := int64(-1), time.Now(), cpuTime(os.Getpid())
	end := func(what, stacks string) {
		c.Violation(what, map[string]interface{}{"stacks": stacks})
		rc := c.Finish()
		_ = os.RemoveAll(c.Tmp)
		os.Exit(rc)
	}
	for {
		time.Sleep(time.Second)
		if time.Since(start) > limit {
			c.Inconclusive("not done after %s", limit)
		}
		if p := c.Progress(); p != last {
			last, since, cpu = p, time.Now(), cpuTime(os.Getpid())
			continue
		}
		if time.Since(since) < 30*time.Second {
			continue
		}
		if st := blocked(); st != "" {
			time.Sleep(5 * time.Second)
			if c.Progress() == last && blocked() != "" {
				end("lookups block forever", st)
			}
		}
		if used := cpuTime(os.Getpid()) - cpu; used > 150*time.Second {
			if st := running(); st != "" {
				end(fmt.Sprintf("a lookup doesn't end, %s of CPU time used", used), st)
			}
		}
	}
}

// running returns the stack of a go routine that executes code of hiera
func running() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, st := range strings.Split(string(buf), "\n\n") {
		head := strings.SplitN(st, "\n", 2)[0]
		if strings.Contains(st, "github.com/lyraproj/hiera/") && strings.Contains(head, "[run") {
			return clip(st)
		}
	}
	return ""
}

// WorldRun is the configuration of a comparison between the model and the code
type WorldRun struct {
	Name    string
	Profile func(g *gen.G) *gen.Profile
	Worlds  int
	Keys    int
	MergeP  float64
	Env     bool // the worlds have environment variables, so they can't run in parallel
	// Tweak may alter the world before it is written
	Tweak func(g *gen.G, w *model.World)
	// Prepare is called when the world is written and its tables are filled
	Prepare func(g *gen.G, w *model.World, dir string, env *mon.Env)
	// Each is called for each compared lookup
	Each func(w *WorldCase)
	// KeyGen overrides the generation of keys
	KeyGen func(w *gen.W) string
}

// WorldCase is one lookup in one world
type WorldCase struct {
	C     *C
	G     *gen.G
	World *model.World
	Env   *mon.Env
	Key   string
	Merge interface{}
	Want  model.Outcome
	Eval  *model.Eval
	Got   mon.Obs
	Case  int
}

// Detail describes the case
func (wc *WorldCase) Detail(extra ...interface{}) map[string]interface{} {
	d := map[string]interface{}{"case": wc.Case, "key": wc.Key, "expected": wc.Want.String(), "observed": wc.Got.String(),
		"world": wc.World.Dump()}
	if wc.Merge != nil {
		d["merge"] = mv.JSON(wc.Merge)
	}
	for i := 0; i+1 < len(extra); i += 2 {
		d[extra[i].(string)] = extra[i+1]
	}
	return d
}

func events(es []model.Event) []string {
	r := make([]string, len(es))
	for i, e := range es {
		r[i] = e.String()
	}
	return r
}

func isLookupOptions(e model.Event) bool {
	return e.Key == "lookup_options" || e.Key == `["lookup_options"]`
}

// CompareTrace compares the calls that the backend functions received with those that the model predicts. It returns a
// text that describes the difference, or an empty string
func CompareTrace(want, got []model.Event, exact bool, failed bool) string {
	var w, g []string
	existing := map[string]int{} // several entries may use the options of the defaults, and so have the same id
	for _, e := range want {
		if e.Fn == "hv_hash" {
			existing[e.String()+e.Opts]++
		} else if !isLookupOptions(e) {
			w = append(w, e.String()+" "+e.Opts)
		}
	}
	seen := map[string]int{}
	for _, e := range got {
		if e.Fn == "hv_hash" {
			k := e.String() + e.Opts
			seen[k]++
			if seen[k] > 1 && seen[k] > existing[k] && !(failed && strings.Contains(e.ID, "def")) {
				return "asked more than once: " + e.String()
			}
			if existing[k] == 0 && !failed {
				return "unexpected call " + e.String() + " " + e.Opts
			}
		} else if !isLookupOptions(e) {
			g = append(g, e.String()+" "+e.Opts)
		}
	}
	if !exact {
		if failed {
			return ""
		}
		sort.Strings(w)
		sort.Strings(g)
	}
	if len(w) != len(g) {
		return fmt.Sprintf("%d calls, expected %d", len(g), len(w))
	}
	for i := range w {
		if w[i] != g[i] {
			return fmt.Sprintf("call %d is %s, expected %s", i, g[i], w[i])
		}
	}
	return ""
}

// OddNames are names of directories with characters that are special in patterns, interpolations, URIs and shells
var OddNames = []string{"a b", "[p]", "{p,q}", "p*", "p?q", "%7Bx%7D", "%{env}", "[!a]", "a[b-c]", "**", "q\\r", "$HOME", "~", "é[ü]", "p'q\"", "{", "[", "]", "#p", "p;q&r", "-"}

// RunWorlds compares what the code does with what the model predicts
func (c *C) RunWorlds(r WorldRun) {
	one := func(i int) {
		g := c.G(r.Name, i)
		p := r.Profile(g)
		w := gen.Build(g, p)
		if r.Tweak != nil {
			r.Tweak(g, w)
		}
		dir := c.Dir()
		defer c.Drop(dir)
		if i%6 == 5 {
			// directories may have any name
			dir = filepath.Join(dir, OddNames[i/6%len(OddNames)])
		}
		w.Write(dir)
		gen.Fill(g, p, w)
		if r.Env {
			defer mon.SetEnv(w.Env)()
		}
		env := mon.NewEnv(w)
		if i%10 == 9 {
			env.Parent = loader.New(nil, "", nil, nil, nil)
		}
		if r.Prepare != nil {
			r.Prepare(g, w, dir, env)
		}
		s := env.Session()
		defer s.KillPlugins()
		gw := gen.NewW(g, p, w)
		for k := 0; k < r.Keys; k++ {
			key := ""
			if r.KeyGen != nil {
				key = r.KeyGen(gw)
			} else {
				key = gw.Key()
			}
			merge := g.MergeOpt(r.MergeP)
			ev := model.NewEval(w)
			wc := &WorldCase{C: c, G: g, World: w, Env: env, Key: key, Merge: merge, Eval: ev, Case: i}
			wc.Want = ev.Lookup(key, merge)
			if wc.Want.Kind == "unsupported" {
				c.Add("lookups without a prediction", 1)
				continue
			}
			env.Take()
			wc.Got = env.Lookup(s, key, merge)
			got := env.Take()
			c.Add("lookups compared", 1)
			c.Add("outcome "+wc.Want.Kind, 1)
			c.Add("backend calls observed", len(got))
			id := ""
			if wc.Want.Kind == "value" || len(got) > 0 {
				id = key + mv.Canon(merge) + wc.Want.String() + strings.Join(events(got), " ")
			}
			c.Case(id)
			if len(got) > 1 && wc.Want.Kind == "value" {
				c.Sample(map[string]interface{}{"key": key, "value": wc.Want.Canon(), "calls": events(got)})
			}
			if !wc.Got.Same(wc.Want) {
				c.Violation(fmt.Sprintf("lookup of %s in case %s%d: expected %s, observed %s", key, r.Name, i, wc.Want, wc.Got), wc.Detail())
				return
			}
			if d := CompareTrace(ev.Trace, got, ev.Depth <= 1, wc.Want.Kind == "error"); d != "" {
				c.Violation(fmt.Sprintf("calls made by lookup of %s in case %s%d: %s", key, r.Name, i, d),
					wc.Detail("expected calls", events(ev.Trace), "observed calls", events(got)))
				return
			}
			if r.Each != nil {
				r.Each(wc)
			}
		}
	}
	if r.Env {
		for i := 0; i < r.Worlds && c.Violations() < 10; i++ {
			one(i)
		}
	} else {
		c.Parallel(r.Worlds, one)
	}
}

func ensureSorted(ss []string) []string {
	sort.Strings(ss)
	return ss
}
