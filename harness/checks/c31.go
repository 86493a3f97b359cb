package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"github.com/sirupsen/logrus"

	"hv/gen"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C31", "a plugin that was started and whose environment and messages were examined; distinct by what it does, its transport and the messages", c31)
	Modes["c31child"] = c31child
}

// talkPart and talkScript are read by the program talker
type talkPart struct {
	Out    bool
	Chunks [][]byte
	Pause  int
	Fill   int
}

type talkScript struct {
	Mode, Meta       string
	Start, Idle, End []talkPart
	Calls            map[string][]talkPart
	Die              string
}

// a talker is a plugin and what it does
type talker struct {
	name   string
	path   string
	script *talkScript
	seq    int
	plain  bool // no tags
}

// text generates what is written. Unless the plugin is alone, each line starts with the name of the plugin.
func (t *talker) text(g *gen.G, last bool) string {
	b := strings.Builder{}
	n := 1 + g.Intn(3)
	if g.P(.15) {
		n = 20 + g.Intn(60)
	}
	for i := 0; i < n; i++ {
		t.seq++
		if !t.plain {
			fmt.Fprintf(&b, "%s.%d|", t.name, t.seq)
		}
		switch g.Weighted(6, 2, 1, 1, 1, 1, 1) {
		case 0:
			b.WriteString(strings.Repeat("message ", g.Intn(8)))
		case 1:
			b.WriteString(strings.NewReplacer("\n", "", "\r", "").Replace(g.Str()))
		case 2:
			b.WriteString(strings.Repeat("x", 4080+g.Intn(40)))
		case 3:
			b.WriteString("\x00\xff\xfe\x1b[31m%s%d%!%\t")
		case 4:
			b.WriteString(`time="x" level=error msg="{\"a\": 1}"`)
		case 5:
			size := 100 + g.Intn(60000)
			if t.plain && g.P(.6) {
				size = 65530 + g.Intn(12)*[]int{1, 1, 10000}[g.Intn(3)]
			}
			b.WriteString(strings.Repeat("long line ", size/10+1)[:size])
		}
		if i < n-1 || !last {
			b.WriteString(g.Pick("\n", "\n", "\n", "\r\n"))
			if t.plain && g.P(.2) {
				b.WriteString("\n\n")
			}
		}
	}
	return b.String()
}

func (t *talker) parts(g *gen.G, max int, last bool) []talkPart {
	var ps []talkPart
	for n := g.Intn(max + 1); n > 0; n-- {
		s := t.text(g, last && n == 1)
		p := talkPart{Pause: []int{0, 0, 0, 1, 5}[g.Intn(5)]}
		for s != "" && len(p.Chunks) < 6 && g.P(.4) {
			i := 1 + g.Intn(len(s))
			p.Chunks = append(p.Chunks, []byte(s[:i]))
			s = s[i:]
		}
		if s != "" {
			p.Chunks = append(p.Chunks, []byte(s))
		}
		ps = append(ps, p)
	}
	return ps
}

// chatter is written on the standard output, after the announcement
func chatter(g *gen.G) []talkPart {
	switch g.Intn(4) {
	case 0:
		return []talkPart{{Out: true, Chunks: [][]byte{[]byte("noise\n")}}}
	case 1:
		return []talkPart{{Out: true, Chunks: [][]byte{[]byte(`{"version":1,"address":"noise","functions":{}}`)}}}
	case 2:
		return []talkPart{{Out: true, Fill: 100000 + g.Intn(400000)}}
	}
	return nil
}

// newTalkers generates plugins in the given directory, and a configuration with an entry for each which is used when the
// variable who is the name of the plugin
func newTalkers(g *gen.G, dir, bin, tr string, n int) []*talker {
	h := mv.L()
	ts := make([]*talker, n)
	for i := range ts {
		t := &talker{name: fmt.Sprintf("p%d", i), plain: n == 1, script: &talkScript{Mode: "serve", Calls: map[string][]talkPart{}}}
		t.path = filepath.Join(dir, "plugin", t.name)
		s := t.script
		if err := os.MkdirAll(filepath.Dir(t.path), 0755); err != nil {
			panic(err)
		}
		if err := os.Symlink(bin, t.path); err != nil {
			panic(err)
		}
		switch g.Weighted(60, 1, 6, 1, 4, 4) {
		case 1:
			s.Mode = "stubborn"
		case 2:
			s.Mode = "exit"
		case 3:
			s.Mode = "hang"
		case 4:
			s.Mode, s.Meta = "garbage", g.Pick("garbage", "{", "[]", `{"version": "x"`, "\x00")
			if strings.HasPrefix(s.Meta, "{") {
				s.Meta += "}}" // never waits for more
			}
		case 5:
			s.Mode, s.Meta = "meta", g.Pick(`{}`, `{"version":7,"network":"unix","address":"x","functions":{}}`, `{"version":1,"network":"unix"}`,
				`{"version":1,"network":"unix","address":"x","functions":3}`, `{"version":1,"network":"unix","address":"x","functions":{"lookup_key":"talk"}}`)
		}
		s.Start = t.parts(g, 3, s.Mode != "serve" && s.Mode != "stubborn")
		if s.Mode == "serve" || s.Mode == "stubborn" {
			s.Idle = append(chatter(g), t.parts(g, 6, false)...)
			for k := 0; k < 4; k++ {
				s.Calls[fmt.Sprintf("k%d", k)] = append(chatter(g), t.parts(g, 3, false)...)
			}
			if s.Mode == "serve" {
				s.End = append(t.parts(g, 3, true), chatter(g)...)
				if g.P(.15) && tr != "tcp" {
					s.Die = "k3"
				}
			}
		}
		bs, err := json.Marshal(s)
		if err != nil {
			panic(err)
		}
		write(t.path+".json", string(bs))
		write(filepath.Join(dir, "data", t.name+"-"+t.name), "")
		h = append(h, mv.NewMap("name", t.name, "lookup_key", "talk", "pluginfile", t.name, "path", "%{who}-"+t.name))
		ts[i] = t
	}
	write(filepath.Join(dir, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", h)))
	return ts
}

// judge compares the log with what the plugins wrote
func judgeLog(ts []*talker, log string) string {
	norm := func(s string) string {
		if s != "" && !strings.HasSuffix(s, "\n") {
			s += "\n"
		}
		return strings.ReplaceAll(s, "\r\n", "\n")
	}
	want := map[string]string{}
	for _, t := range ts {
		bs, err := os.ReadFile(t.path + ".said")
		if err != nil && !os.IsNotExist(err) {
			panic(err)
		}
		want[t.name] = norm(string(bs))
	}
	got := map[string]string{}
	if len(ts) == 1 {
		got[ts[0].name] = norm(log)
	} else {
		for _, l := range strings.SplitAfter(log, "\n") {
			if l == "" {
				continue
			}
			i := strings.Index(l, ".")
			if i < 0 || want[l[:i]] == "" {
				return fmt.Sprintf("the log has the line %q, which no plugin wrote", clip(l))
			}
			got[l[:i]] += l
		}
	}
	for _, t := range ts {
		w, o := want[t.name], got[t.name]
		if w != o {
			i := 0
			for i < len(w) && i < len(o) && w[i] == o[i] {
				i++
			}
			from := i - 60
			if from < 0 {
				from = 0
			}
			return fmt.Sprintf("plugin %s (%s) wrote %d bytes on its standard error, of which %d are in the log. They differ from byte %d: %q was written, and the log has %q",
				t.name, t.script.Mode, len(w), len(o), i, clip(w[from:]), clip(o[from:]))
		}
	}
	return ""
}

// judgeStart examines how the plugin was started
func judgeStart(t *talker, env []string, cwd, transport, socketDir string) (string, bool) {
	bs, err := os.ReadFile(t.path + ".env")
	if os.IsNotExist(err) {
		return "", false
	}
	var e struct {
		Args, Env []string
		Cwd       string
	}
	if err == nil {
		err = json.Unmarshal(bs, &e)
	}
	if err != nil {
		panic(err)
	}
	if len(e.Args) != 1 || e.Args[0] != t.path {
		return fmt.Sprintf("plugin %s was started as %q", t.name, e.Args), true
	}
	if e.Cwd != cwd {
		return fmt.Sprintf("plugin %s was started in the directory %s instead of %s", t.name, e.Cwd, cwd), true
	}
	m := map[string]string{}
	for _, v := range env {
		if i := strings.Index(v, "="); i > 0 {
			m[v[:i]] = v[i+1:]
		}
	}
	m["HIERA_MAGIC_COOKIE"] = strconv.Itoa(sdk.MagicCookie)
	m["HIERA_PLUGIN_TRANSPORT"] = transport
	m["HIERA_PLUGIN_SOCKET_DIR"] = socketDir
	var want []string
	for k, v := range m {
		want = append(want, k+"="+v)
	}
	sort.Strings(want)
	got := append([]string{}, e.Env...)
	sort.Strings(got)
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		return fmt.Sprintf("the environment of plugin %s has %q, expected %q", t.name, without(got, want), without(want, got)), true
	}
	return "", true
}

func c31(c *C) {
	n := c.N(240, 4000)
	const children = 8
	c.Workers(children, children, func(i int) {
		dir := c.Dir()
		defer c.Drop(dir)
		c.runChild("plugins", []string{"c31child", strconv.FormatInt(c.Seed, 10), dir, filepath.Join(c.Bin, "talker"), strconv.Itoa(n * i / children), strconv.Itoa(n * (i + 1) / children)}, 2+i%4)
	})
	c.Parallel(c.N(60, 800), func(i int) { c31command(c, i) })
	c.Need("plugins whose environment was examined", 400)
	c.Need("bytes of messages", 1000000)
	c.Need("sessions with several plugins that write", 100)
	c.Need("plugins that could not be started", 40)
	c.Need("commands with a plugin that writes", 30)
}

// c31child performs cases in a process of their own since there's only one log
func c31child(args []string) int {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	dir, bin := args[1], args[2]
	from, _ := strconv.Atoi(args[3])
	to, _ := strconv.Atoi(args[4])
	out := newChildOut()
	var busy int64
	go watch(out, &busy)
	for i := from; i < to; i++ {
		bad := ""
		for try := 0; try < 3; try++ {
			bad = c31case(out, &busy, seed, filepath.Join(dir, fmt.Sprintf("%d-%d", i, try)), bin, i)
			if !strings.Contains(strings.ToLower(bad), "timeout") {
				break
			}
			out.count("cases repeated after a timeout", 1)
		}
		if bad != "" {
			out.say(childReport{Kind: "bad", Text: fmt.Sprintf("case %d: %s", i, bad), Detail: map[string]interface{}{"case": i}})
			break
		}
		out.say(childReport{Kind: "done", N: i})
	}
	atomic.StoreInt64(&busy, -1)
	out.say(childReport{Kind: "end"})
	return 0
}

func c31case(out *childOut, busy *int64, seed int64, dir, bin string, i int) string {
	g := gen.New(seed, "C31", i)
	dir += g.Pick("", " x", "%{y}", "é")
	_ = os.MkdirAll(filepath.Join(dir, "tmp"), 0755)
	_ = os.MkdirAll(filepath.Join(dir, "sock"), 0755)
	defer func() { _ = os.RemoveAll(dir) }()
	opts := map[string]interface{}{api.HieraRoot: dir}
	tr, sd := "unix", filepath.Join(dir, "tmp")
	switch g.Intn(5) {
	case 0, 1:
		tr = "tcp"
		opts["pluginTransport"] = "tcp"
	case 2:
		opts["pluginTransport"] = "unix"
	case 3:
		opts["pluginTransport"] = []interface{}{"pigeon", 3, nil, "TCP", ""}[g.Intn(5)]
	}
	switch g.Intn(4) {
	case 0:
		opts["unixSocketDir"] = []interface{}{3, nil, vf.Strings("x")}[g.Intn(3)]
	case 1, 2:
		sd = filepath.Join(dir, "sock")
		opts["unixSocketDir"] = sd
	}
	// The environment of this process
	for _, kv := range [][2]string{{"TMPDIR", filepath.Join(dir, "tmp")}, {"HV_X", g.Pick("", "a=b", "two\nlines", "é\x01", " ")}, {"HIERA_PLUGIN_TRANSPORT", g.Pick("", "tcp", "unix")},
		{"HIERA_MAGIC_COOKIE", "3"}, {"HIERA_PLUGIN_SOCKET_DIR", g.Pick("", "/nonexistent")}} {
		if kv[1] == "" && kv[0] != "HV_X" {
			_ = os.Unsetenv(kv[0])
		} else {
			_ = os.Setenv(kv[0], kv[1])
		}
	}
	env := os.Environ()
	cwd := filepath.Join(dir, g.Pick("tmp", "sock"))
	if err := os.Chdir(cwd); err != nil {
		panic(err)
	}
	defer func() { _ = os.Chdir("/") }()

	np := 1
	if g.P(.7) {
		np = 2 + g.Intn(5)
	}
	ts := newTalkers(g, dir, bin, tr, np)

	// What is written on the log is kept in a file, or in something that isn't made for concurrent use
	var text func() string
	if g.P(.5) {
		buf := &bytes.Buffer{}
		logrus.SetOutput(buf)
		text = buf.String
	} else {
		fn := filepath.Join(dir, "log")
		f, err := os.OpenFile(fn, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		if err != nil {
			panic(err)
		}
		logrus.SetOutput(f)
		text = func() string {
			_ = f.Close()
			bs, err := os.ReadFile(fn)
			if err != nil {
				panic(err)
			}
			return string(bs)
		}
	}
	defer logrus.SetOutput(io.Discard)

	// Each plugin belongs to one of the sessions so that what is written is well defined
	ns := 1 + g.Intn(2)
	var ss []api.Session
	for k := 0; k < ns; k++ {
		ss = append(ss, session.New(context.Background(), nil, opts, nil))
	}
	var lock sync.Mutex
	bad := ""
	fail := func(f string, args ...interface{}) {
		lock.Lock()
		if bad == "" {
			bad = fmt.Sprintf(f, args...)
		}
		lock.Unlock()
	}
	started := map[string]bool{}
	var wg sync.WaitGroup
	rs := rand.New(rand.NewSource(int64(g.Intn(1 << 30))))
	start := make(chan bool)
	for k, t := range ts {
		if g.P(.1) {
			continue // not used
		}
		started[t.name] = true
		s := ss[k%ns]
		t := t
		ks := []string{"k0", "k1", "k2", "k3"}
		rs.Shuffle(4, func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
		dead := false
		concurrent := t.script.Die == "" && g.P(.5)
		ops := func(ks []string) {
			defer wg.Done()
			<-start
			for _, key := range ks {
				o := mon.Try(func() dgo.Value {
					return hiera.Lookup(s.Invocation(map[string]string{"who": t.name}, nil), key, nil, nil)
				})
				atomic.AddInt64(busy, 1)
				serves := t.script.Mode == "serve" || t.script.Mode == "stubborn"
				if key == t.script.Die {
					dead = true
				}
				switch {
				case serves && !dead && o.Canon != mv.Canon("value of "+key):
					fail("lookup of %s in plugin %s (%s) gives %s", key, t.name, t.script.Mode, o)
				case (!serves || dead) && o.Kind != "error":
					fail("lookup of %s in plugin %s (%s, dies when asked for '%s') gives %s", key, t.name, t.script.Mode, t.script.Die, o)
				}
				if t.script.Mode == "hang" {
					return
				}
			}
		}
		if concurrent {
			wg.Add(2)
			go ops(ks[:2])
			go ops(ks[2:])
		} else {
			wg.Add(1)
			go ops(ks)
		}
	}
	close(start)
	wg.Wait()
	for _, s := range ss {
		s.KillPlugins()
		atomic.AddInt64(busy, 1)
	}
	log := text()
	runtime.KeepAlive(ss)
	if bad != "" {
		return bad
	}
	if bad = judgeLog(ts, log); bad != "" {
		return bad
	}
	for _, t := range ts {
		bad, ran := judgeStart(t, env, cwd, tr, sd)
		if bad != "" {
			return bad
		}
		if ran != started[t.name] {
			return fmt.Sprintf("plugin %s: used %v, started %v", t.name, started[t.name], ran)
		}
		if !ran {
			continue
		}
		out.count("plugins whose environment was examined", 1)
		if t.script.Mode != "serve" && t.script.Mode != "stubborn" {
			out.count("plugins that could not be started", 1)
		}
		out.say(childReport{Kind: "case", N: 1, Text: fmt.Sprintf("%s %s %d %s", t.script.Mode, tr, np, hashOf(strings.Join(saidBy([]*talker{t}), "")))})
	}
	out.count("bytes of messages", len(log))
	if len(started) > 1 {
		out.count("sessions with several plugins that write", 1)
		last := ""
		n := 0
		for _, l := range strings.Split(log, "\n") {
			if i := strings.Index(l, "."); i > 0 {
				if l[:i] != last {
					n++
				}
				last = l[:i]
			}
		}
		out.count("changes from one plugin to another in the log", n)
	}
	return ""
}

func saidBy(ts []*talker) []string {
	var r []string
	for _, t := range ts {
		bs, _ := os.ReadFile(t.path + ".said")
		r = append(r, string(bs))
	}
	return r
}

// c31command uses the lookup command, which has the standard error as its log
func c31command(c *C, i int) {
	g := c.G("command", i)
	dir := c.Dir()
	defer c.Drop(dir)
	_ = os.MkdirAll(filepath.Join(dir, "tmp"), 0755)
	ts := newTalkers(g, dir, filepath.Join(c.Bin, "talker"), "unix", 1)
	t := ts[0]
	key := fmt.Sprintf("k%d", g.Intn(4))
	set := []string{"TMPDIR=" + filepath.Join(dir, "tmp"), "HV_X=" + g.Pick("", "a=b", "two\nlines"), "HIERA_PLUGIN_TRANSPORT=tcp"}
	env := append(os.Environ(), set...)
	r, ok := runCommand(filepath.Join(c.Bin, "lookup"), dir, set, "", "--var", "who="+t.name, "--render-as", "s", key)
	detail := map[string]interface{}{"case": i, "script": fmt.Sprintf("%+v", t.script), "exit status": r.code, "stdout": clip(string(r.out)), "stderr": clip(string(r.err))}
	if !ok {
		c.Inconclusive("the command doesn't end")
		return
	}
	c.Case("command " + t.script.Mode + key + fmt.Sprint(hashOf(string(r.err))))
	log := string(r.err)
	fails := t.script.Mode != "serve" && t.script.Mode != "stubborn" || t.script.Die == key
	if fails {
		// The message of the command comes last
		said := saidBy(ts)[0]
		n := len(strings.ReplaceAll(said, "\r\n", "\n"))
		if said != "" && !strings.HasSuffix(said, "\n") && n < len(log) && log[n] == '\n' {
			n++
		}
		if n > len(log) || !strings.HasPrefix(log[n:], "Error: ") || r.code == 0 {
			c.Violation(fmt.Sprintf("command case %d: %d bytes of messages, exit status %d and standard error %q", i, n, r.code, clip(log)), detail)
			return
		}
		log = log[:n]
	}
	want := "value of " + key + "\n"
	if fails {
		want = ""
	}
	if string(r.out) != want {
		c.Violation(fmt.Sprintf("command case %d: the command writes %q, expected %q", i, clip(string(r.out)), want), detail)
		return
	}
	if bad := judgeLog(ts, log); bad != "" {
		c.Violation(fmt.Sprintf("command case %d: %s", i, bad), detail)
		return
	}
	bad, ran := judgeStart(t, env, dir, "unix", filepath.Join(dir, "tmp"))
	if bad == "" && !ran {
		bad = "the plugin was not started"
	}
	if bad != "" {
		c.Violation(fmt.Sprintf("command case %d: %s", i, bad), detail)
		return
	}
	if len(log) > 0 {
		c.Add("commands with a plugin that writes", 1)
	}
}

func hashOf(s string) string {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return strconv.FormatUint(h.Sum64(), 16)
}

// without returns those in a that aren't in b
func without(a, b []string) []string {
	m := map[string]bool{}
	for _, s := range b {
		m[s] = true
	}
	var r []string
	for _, s := range a {
		if !m[s] {
			r = append(r, s)
		}
	}
	return r
}
