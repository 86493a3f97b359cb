package checks

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"hv/gen"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C14", "a session that used plugins, or could have; distinct by the plugins it has, the lookups made, and how it ended", c14)
}

// startRec is one start of a plugin process
type startRec struct {
	pid, ppid int
	name, tag string
}

func readStarts(fn string) (rs []startRec) {
	bs, err := os.ReadFile(fn)
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(string(bs), "\n") {
		fs := strings.Fields(l)
		if len(fs) < 4 {
			continue
		}
		r := startRec{name: fs[1], tag: fs[2]}
		r.pid, _ = strconv.Atoi(fs[0])
		r.ppid, _ = strconv.Atoi(fs[3])
		rs = append(rs, r)
	}
	return
}

// procState returns the state and parent of a process, or an empty string if there is no such process
func procState(pid int) (string, int) {
	bs, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return "", 0
	}
	s := string(bs)
	fs := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	ppid, _ := strconv.Atoi(fs[1])
	return fs[0], ppid
}

// alive returns a description of the process if it remains. Processes that other programs started since are ignored.
func alive(r startRec, dir string, zombies bool) string {
	st, ppid := procState(r.pid)
	if st == "" {
		return ""
	}
	if st == "Z" || st == "X" {
		if zombies && ppid == os.Getpid() {
			return "has not been reaped"
		}
		return ""
	}
	cl, _ := os.ReadFile(fmt.Sprintf("/proc/%d/cmdline", r.pid))
	if strings.Contains(string(cl), dir) {
		return "is still running"
	}
	return ""
}

var c14scripts = map[string]string{
	"exits":    "exit 1",
	"garbage":  "echo not JSON\nexec sleep 40",
	"silent":   "exec sleep 40",
	"deaf":     "trap '' INT TERM\nexec sleep 40",
	"badmeta":  "trap '' INT TERM\necho '{\"version\":1,\"address\":1}'\nexec sleep 40",
	"badfuncs": "trap '' INT\necho '{\"version\":1,\"address\":\"x\",\"network\":\"unix\",\"functions\":{\"lookup_key\":\"hv_key\"}}'\nexec sleep 40",
	"holder":   "sleep 40 &\necho '[]'\nexec sleep 40",
	"closes":   "exec >&- 2>&-\nexec sleep 40",
}

type c14dir struct {
	dir, log string
	mods     map[string]string // module name -> plugin file
	bad      map[string]bool
}

// c14setup creates a configuration where
// - the plugin 'base' is needed by all lookups
// - the plugin 'never' belongs to an entry without existing locations
// - the function of entry 'shadow' is found in-process
// - each of a number of modules has a plugin of its own
func (c *C) c14setup(g *gen.G) (*c14dir, func()) {
	dir := c.Dir()
	pd := filepath.Join(dir, "plugin")
	if err := os.MkdirAll(pd, 0755); err != nil {
		panic(err)
	}
	d := &c14dir{dir: dir, log: filepath.Join(pd, "starts.log"), mods: map[string]string{}, bad: map[string]bool{}}
	write(d.log, "")
	kinds := func() (string, string) {
		k := g.Pick("lookup_key", "data_hash", "data_dig")
		return k, map[string]string{"lookup_key": "hv_key", "data_hash": "hv_hash", "data_dig": "hv_dig"}[k]
	}
	data := func(k string) *mv.Map { return mv.NewMap("data", mv.NewMap(k, "value of "+k)) }
	h := mv.L()
	for n := 1 + g.Intn(3); n > 0; n-- {
		k, fn := kinds()
		// The same file, written in different ways
		h = append(h, mv.NewMap("name", fmt.Sprintf("base%d", n), k, fn, "pluginfile", g.Pick("base", "./base", "x/../base", "../plugin/base", filepath.Join(pd, "base")), "options", data("base")))
	}
	k, fn := kinds()
	h = append(h, mv.NewMap("name", "never", k, fn, "pluginfile", "never", "path", "does-not-exist.yaml"))
	h = append(h, mv.NewMap("name", "never2", k, fn, "pluginfile", "never", "mapped_paths", mv.L("no_such_variable", "v", "%{v}")))
	h = append(h, mv.NewMap("name", "shadow", "lookup_key", "shadow", "pluginfile", "shadow"))
	write(filepath.Join(dir, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", h)))
	for _, p := range []string{"base", "never", "shadow"} {
		c.linkPlugin(filepath.Join(pd, p))
	}
	module := func(name, file string) {
		d.mods[name] = file
		h := mv.L()
		for n := 1 + g.Intn(2); n > 0; n-- {
			k, fn := kinds()
			h = append(h, mv.NewMap("name", fmt.Sprintf("e%d", n), k, fn, "plugindir", pd, "pluginfile", file, "options", data(name+"::k")))
		}
		write(filepath.Join(dir, "mods", name, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", h)))
	}
	for _, m := range []string{"m1", "m2", "m3"} {
		module(m, m)
		c.linkPlugin(filepath.Join(pd, m))
	}
	module("m4", "m3") // shares the plugin
	// calls that take long, or end the process
	slow := mv.NewMap("data", mv.NewMap("slow::k", "slow"), "sleep", 300+g.Intn(4000))
	write(filepath.Join(dir, "mods", "slow", "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy",
		mv.L(mv.NewMap("name", "e", "lookup_key", "hv_key", "plugindir", pd, "pluginfile", "slow", "options", slow)))))
	c.linkPlugin(filepath.Join(pd, "slow"))
	write(filepath.Join(dir, "mods", "dies", "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy",
		mv.L(mv.NewMap("name", "e", "lookup_key", "hv_key", "plugindir", pd, "pluginfile", "dies", "options", mv.NewMap("die", true))))))
	c.linkPlugin(filepath.Join(pd, "dies"))
	module("stubborn", "stubborn")
	c.linkPlugin(filepath.Join(pd, "stubborn"))
	for n, text := range c14scripts {
		module(n, n)
		d.bad[n] = true
		write(filepath.Join(pd, n), fmt.Sprintf("#!/bin/sh\necho $$ %s $HIERA_PLUGIN_SOCKET_DIR $PPID >> %s\n%s\n", n, d.log, text))
		_ = os.Chmod(filepath.Join(pd, n), 0755)
	}
	// a shell that doesn't forward the request to terminate to the real plugin
	module("wrapper", "wrapper")
	c.linkPlugin(filepath.Join(pd, "wrapped"))
	write(filepath.Join(pd, "wrapper"), fmt.Sprintf("#!/bin/sh\necho $$ wrapper $HIERA_PLUGIN_SOCKET_DIR $PPID >> %s\n%s\nexit 0\n", d.log, filepath.Join(pd, "wrapped")))
	_ = os.Chmod(filepath.Join(pd, "wrapper"), 0755)
	return d, func() {
		// descendants of plugins that remain
		for _, r := range readStarts(d.log) {
			if alive(r, dir, false) != "" {
				_ = syscall.Kill(r.pid, syscall.SIGKILL)
			}
		}
		c.Drop(dir)
	}
}

// needed adds the plugins needed for a lookup
func (d *c14dir) needed(key string, m map[string]bool) {
	m["base"] = true
	mod := strings.Split(key, "::")[0]
	if p, ok := d.mods[mod]; ok && p != key {
		m[p] = true
		if p == "wrapper" {
			m["wrapped"] = true
		}
	}
	if mod == "slow" || mod == "dies" {
		m[mod] = true
	}
}

func c14(c *C) {
	c.Assume("the lookups that may start a plugin have begun before the session ends, and descendants of a plugin process are not considered to be started by the session")
	c.Workers(32, c.N(96, 1500), func(i int) { c.c14case(i) })
	if c.Violations() == 0 {
		c.Workers(24, c.N(32, 400), func(i int) { c.c14command(i) })
	}
	if c.Violations() == 0 {
		c.Parallel(c.N(8, 80), func(i int) { c.c14first(i) })
	}
	if c.Violations() == 0 {
		// No child process remains
		var left []string
		ds, _ := filepath.Glob("/proc/self/task/*/children")
		for _, d := range ds {
			bs, _ := os.ReadFile(d)
			for _, p := range strings.Fields(string(bs)) {
				n, _ := strconv.Atoi(p)
				st, _ := procState(n)
				cl, _ := os.ReadFile("/proc/" + p + "/cmdline")
				left = append(left, p+" "+st+" "+strings.ReplaceAll(string(cl), "\x00", " "))
			}
		}
		c.Add("scans for children", 1)
		if len(left) > 0 {
			c.Violation(fmt.Sprintf("%d child processes remain when all sessions have ended: %v", len(left), left), map[string]interface{}{"children": left})
		}
	}
	c.Need("sessions", 100)
	c.Need("plugin processes observed", 200)
	c.Need("plugin processes that failed to start", 40)
	c.Need("plugin processes that ignored the request to terminate", 10)
	c.Need("sessions that ended with an error or a panic", 20)
	c.Need("sessions that ended during a call", 5)
	c.Need("commands", 20)
}

var c14ends = []string{"do", "do", "try", "try-error", "try-panic", "do-panic", "do-panic-value", "goexit", "kill", "kill-twice", "kill-concurrent"}

// run runs the function in a session that ends in the given way and returns when it has ended
func c14run(how string, opts map[string]interface{}, f func(s api.Session)) {
	do := func(end func()) {
		defer func() { _ = recover() }()
		hiera.DoWithParent(context.Background(), provider.MuxLookupKey, opts, func(s api.Session) {
			f(s)
			end()
		})
	}
	try := func(end func() error) {
		_ = hiera.TryWithParent(context.Background(), provider.MuxLookupKey, opts, func(s api.Session) error {
			f(s)
			return end()
		})
	}
	switch how {
	case "do":
		do(func() {})
	case "do-panic":
		do(func() { panic(errors.New("the consumer failed")) })
	case "do-panic-value":
		do(func() { panic(struct{ x int }{3}) })
	case "goexit":
		done := make(chan bool)
		go func() {
			defer close(done)
			do(runtime.Goexit)
		}()
		<-done
	case "try":
		try(func() error { return nil })
	case "try-error":
		try(func() error { return errors.New("the consumer failed") })
	case "try-panic":
		try(func() error { panic("the consumer failed") })
	default:
		s := session.New(context.Background(), provider.MuxLookupKey, opts, nil)
		f(s)
		switch how {
		case "kill-twice":
			s.KillPlugins()
		case "kill-concurrent":
			wg := sync.WaitGroup{}
			for n := 0; n < 3; n++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					s.KillPlugins()
				}()
			}
			wg.Wait()
		}
		s.KillPlugins()
	}
}

func c14opts(d *c14dir, tag, transport string) map[string]interface{} {
	o := map[string]interface{}{
		api.HieraRoot:               d.dir,
		provider.ModulePath:         filepath.Join(d.dir, "mods"),
		provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey},
		api.HieraFunctions: vf.Map("shadow", func(pc sdk.ProviderContext, key string) interface{} {
			if key == "shadow" {
				return "in-process"
			}
			return nil
		}),
		"unixSocketDir":   tag,
		"pluginTransport": transport,
	}
	return o
}

func (c *C) c14case(i int) {
	g := c.G("case", i)
	d, drop := c.c14setup(g)
	defer drop()
	// Some sessions at the same time, with the same plugins
	wg := sync.WaitGroup{}
	for n := 1 + g.Intn(2); n > 0; n-- {
		tag := filepath.Join(d.dir, fmt.Sprintf("s%d", n))
		if err := os.MkdirAll(tag, 0755); err != nil {
			panic(err)
		}
		sg := c.G("session", i*10+n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.c14session(sg, i, d, tag)
		}()
	}
	wg.Wait()
}

func (c *C) c14session(g *gen.G, i int, d *c14dir, tag string) {
	how := c14ends[g.Intn(len(c14ends))]
	transport := g.Pick("unix", "tcp")
	want := map[string]bool{}
	var keys []string
	nk := g.Intn(8)
	if g.P(.05) {
		nk = 0
	}
	for n := 0; n < nk; n++ {
		switch g.Intn(10) {
		case 0:
			keys = append(keys, g.Pick("base", "none", "shadow", "base.x", "never"))
		case 1, 2, 3, 4:
			keys = append(keys, g.Pick("m1::k", "M1::k", "m2::k", "m3::k", "m4::k", "m2::none", "nomodule::k"))
		case 5:
			keys = append(keys, g.Pick("stubborn::k", "stubborn::none", "dies::k", "wrapper::k"))
		default:
			ns := []string{}
			for s := range c14scripts {
				ns = append(ns, s)
			}
			keys = append(keys, ensureSorted(ns)[g.Intn(len(ns))]+"::k")
		}
	}
	for _, k := range keys {
		if k == "dies::k" {
			// its port may be taken over by a plugin of another session
			transport = "unix"
		}
		d.needed(strings.ToLower(k), want)
	}
	inflight := g.P(.25) && nk > 0
	if inflight {
		want["slow"] = true
	}
	fl := make(chan bool)
	ended := make(chan bool)
	var endAt, endStart time.Time
	var bad string
	go func() {
		defer close(ended)
		c14run(how, c14opts(d, tag, transport), func(s api.Session) {
			look := func(k string) mon.Obs {
				c.Add("lookups", 1)
				return mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), k, nil, nil) })
			}
			wg := sync.WaitGroup{}
			for r := 1 + g.Intn(4); r > 0; r-- {
				wg.Add(1)
				order := g.Perm(len(keys))
				go func() {
					defer wg.Done()
					for _, n := range order {
						k := keys[n]
						o := look(k)
						mod := strings.ToLower(strings.Split(k, "::")[0])
						if (k == "base" || mod != k && strings.HasSuffix(k, "::k") && mod != "nomodule" && mod != "dies" && !d.bad[mod]) && o.Canon != mv.Canon("value of "+k) {
							if !(mod == "m1" && o.Canon == mv.Canon("value of m1::k")) && !(k == "M1::k" && o.Kind == "absent") {
								bad = fmt.Sprintf("lookup of %s: %s", k, o)
							}
						}
					}
				}()
			}
			wg.Wait()
			if inflight {
				look("slow::other") // also sleeps, but the plugin is now started
				go func() {
					defer close(fl)
					look("slow::k")
				}()
				time.Sleep(time.Duration(50+g.Intn(200)) * time.Millisecond)
				c.Add("sessions that ended during a call", 1)
			}
			endStart = time.Now()
		})
		endAt = time.Now()
	}()
	detail := map[string]interface{}{"case": i, "keys": keys, "end": how, "transport": transport, "in-flight": inflight}
	select {
	case <-ended:
	case <-time.After(120 * time.Second):
		detail["blocked"] = blocked()
		c.Violation(fmt.Sprintf("the session of case %d doesn't end", i), detail)
		return
	}
	c.Add("sessions", 1)
	c.Case(fmt.Sprint(how, transport, inflight, want, keys))
	if how != "do" && how != "try" && !strings.HasPrefix(how, "kill") {
		c.Add("sessions that ended with an error or a panic", 1)
	}
	if bad != "" {
		c.Violation(fmt.Sprintf("case %d: %s", i, bad), detail)
		return
	}
	var rs []startRec
	for _, r := range readStarts(d.log) {
		if r.tag == tag {
			rs = append(rs, r)
		}
	}
	c.c14judge(i, d, rs, want, detail, os.Getpid())
	c.Sample(map[string]interface{}{"keys": keys, "end": how, "plugins started": fmt.Sprint(rs), "seconds to end": endAt.Sub(endStart).Seconds()})
	if inflight {
		select {
		case <-fl:
		case <-time.After(60 * time.Second):
			c.Violation(fmt.Sprintf("a lookup of case %d blocks forever when the session ended", i), detail)
		}
	}
}

func (c *C) c14judge(i int, d *c14dir, rs []startRec, want map[string]bool, detail map[string]interface{}, parent int) {
	detail["started"] = fmt.Sprint(rs)
	starts := map[string]int{}
	for _, r := range rs {
		starts[r.name]++
		c.Add("plugin processes observed", 1)
		if d.bad[r.name] {
			c.Add("plugin processes that failed to start", 1)
		} else if r.name != "wrapped" && starts[r.name] > 1 {
			c.Violation(fmt.Sprintf("the plugin %s was started %d times in the session of case %d", r.name, starts[r.name], i), detail)
			return
		}
		if r.name == "stubborn" || r.name == "wrapper" {
			c.Add("plugin processes that ignored the request to terminate", 1)
		}
		if !want[r.name] {
			c.Violation(fmt.Sprintf("the plugin %s that isn't needed was started in the session of case %d", r.name, i), detail)
			return
		}
		if r.name != "wrapped" {
			if s := alive(r, d.dir, parent == os.Getpid()); s != "" {
				detail["process"] = fmt.Sprint(r)
				c.Violation(fmt.Sprintf("the process of plugin %s %s although the session of case %d has ended", r.name, s, i), detail)
				return
			}
		}
	}
	for n := range want {
		if starts[n] == 0 {
			c.Violation(fmt.Sprintf("the plugin %s that is needed was never started in the session of case %d", n, i), detail)
			return
		}
	}
}

// c14command uses the lookup command
func (c *C) c14command(i int) {
	g := c.G("command", i)
	d, drop := c.c14setup(g)
	defer drop()
	pd := filepath.Join(d.dir, "plugin")
	want := map[string]bool{"base": true}
	h := mv.L(mv.NewMap("name", "base", "lookup_key", "hv_key", "pluginfile", "base", "options", mv.NewMap("data", mv.NewMap("base", "x", "num", "12"))))
	for n := g.Intn(3); n > 0; n-- {
		p := g.Pick("m1", "m2", "stubborn", "exits", "deaf", "badmeta", "silent", "holder", "dies", "wrapper")
		if want[p] {
			continue
		}
		want[p] = true
		if p == "wrapper" {
			want["wrapped"] = true
		}
		o := mv.NewMap()
		if p == "dies" {
			o.Put("die", true)
		}
		h = append(h, mv.NewMap("name", p, "lookup_key", "hv_key", "pluginfile", p, "options", o))
		if d.bad[p] || p == "dies" {
			break // what follows is never reached
		}
	}
	cfg := filepath.Join(d.dir, "cmd.yaml")
	write(cfg, mv.YAML(mv.NewMap("version", 5, "hierarchy", h)))
	args := []string{"--config", cfg}
	args = append(args, [][]string{{"base"}, {"none"}, {"none", "--default", "d"}, {"num", "--type", "Integer"}, {"base", "--type", "Integer"},
		{"base", "--explain"}, {"base", "num", "--all"}, {"base", "--type", "Nope["}, {"base..x"}}[g.Intn(9)]...)
	switch args[len(args)-1] {
	case "Nope[":
		want = map[string]bool{}
	case "base..x":
		want = map[string]bool{}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(c.Bin, "lookup"), args...)
	cmd.Env = append(os.Environ(), "TMPDIR="+d.dir)
	out := &headBuffer{max: 4000}
	cmd.Stdout, cmd.Stderr = out, out
	err := cmd.Run()
	c.Add("commands", 1)
	c.Case(fmt.Sprint(want, args[2:]))
	detail := map[string]interface{}{"case": i, "command": args, "error": fmt.Sprint(err), "output": out.String(), "plugins": pd}
	if ctx.Err() != nil {
		c.Violation(fmt.Sprintf("the command of case %d doesn't end", i), detail)
		return
	}
	c.c14judge(i, d, readStarts(d.log), want, detail, cmd.ProcessState.Pid())
}

// c14first lets many go routines need the same plugins for the first time at the same moment
func (c *C) c14first(i int) {
	g := c.G("first", i)
	d, drop := c.c14setup(g)
	defer drop()
	tag := filepath.Join(d.dir, "s")
	if err := os.MkdirAll(tag, 0755); err != nil {
		panic(err)
	}
	keys := []string{"base", "m1::k", "m2::k", "m3::k", "m4::k"}
	want := map[string]bool{}
	for _, k := range keys {
		d.needed(k, want)
	}
	errs := make(chan string, 100)
	ended := make(chan bool)
	go func() {
		defer close(ended)
		c14run("do", c14opts(d, tag, g.Pick("unix", "tcp")), func(s api.Session) {
			wg := sync.WaitGroup{}
			gate := make(chan bool)
			for r := 0; r < 24; r++ {
				wg.Add(1)
				k := keys[g.Intn(len(keys))]
				if r < len(keys) {
					k = keys[r]
				}
				go func() {
					defer wg.Done()
					<-gate
					o := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), k, nil, nil) })
					c.Add("first lookups at the same moment", 1)
					if o.Canon != mv.Canon("value of "+k) {
						errs <- fmt.Sprintf("lookup of %s: %s", k, o)
					}
				}()
			}
			close(gate)
			wg.Wait()
		})
	}()
	detail := map[string]interface{}{"case": i, "keys": keys}
	select {
	case <-ended:
	case <-time.After(120 * time.Second):
		detail["blocked"] = blocked()
		c.Violation(fmt.Sprintf("the session of case first %d doesn't end", i), detail)
		return
	}
	c.Add("sessions", 1)
	c.Case(fmt.Sprint("first", i))
	if len(errs) > 0 {
		c.Violation(<-errs, detail)
		return
	}
	c.c14judge(i, d, readStarts(d.log), want, detail, os.Getpid())
}
