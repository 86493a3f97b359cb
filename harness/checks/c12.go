package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C12", "a request to a server that serves other requests at the same time; distinct by the world, the request and the response", c12)
}

// server is a running REST server
type server struct {
	cmd  *exec.Cmd
	addr string
	err  *headBuffer
	lock sync.Mutex
	done chan struct{}
	last []byte // the end of what it wrote
}

func (s *server) exited() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

func (s *server) stop() {
	_ = s.cmd.Process.Kill()
	<-s.done
}

func (s *server) stderr() string {
	s.lock.Lock()
	defer s.lock.Unlock()
	return s.err.String()
}

func (s *server) Write(p []byte) (int, error) {
	s.lock.Lock()
	defer s.lock.Unlock()
	s.last = append(s.last, p...)
	if len(s.last) > 40000 {
		s.last = append([]byte{}, s.last[len(s.last)-20000:]...)
	}
	return s.err.Write(p)
}

// tail returns the end of what the server has written
func (s *server) tail() string {
	s.lock.Lock()
	defer s.lock.Unlock()
	return string(s.last)
}

var (
	portLock sync.Mutex
	nextPort = 12000 + os.Getpid()*37%18000
)

// freePort returns a port that nothing listens to and that was not returned before. It isn't one of those that the system
// gives to outgoing connections.
func freePort() int {
	portLock.Lock()
	defer portLock.Unlock()
	for try := 0; try < 18000; try++ {
		nextPort++
		if nextPort >= 32000 {
			nextPort = 12000
		}
		if l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", nextPort)); err == nil {
			_ = l.Close()
			return nextPort
		}
	}
	return 0
}

// startServer starts the server and waits until it listens, or ends. It returns nil if that takes too long.
func startServer(bin string, env []string, args ...string) *server {
	return startExact(bin, append(os.Environ(), env...), args...)
}

// startExact is like startServer but with exactly the given environment
func startExact(bin string, env []string, args ...string) *server {
	for try := 0; try < 5; try++ {
		port := freePort()
		s := &server{addr: fmt.Sprintf("127.0.0.1:%d", port), err: &headBuffer{max: 200000}, done: make(chan struct{})}
		s.cmd = exec.Command(bin, append([]string{"--addr", "127.0.0.1", "--port", fmt.Sprint(port)}, args...)...)
		s.cmd.Env = append([]string{}, env...)
		s.cmd.Stdout = s
		s.cmd.Stderr = s
		if err := s.cmd.Start(); err != nil {
			return nil
		}
		go func() {
			_ = s.cmd.Wait()
			close(s.done)
		}()
		for i := 0; i < 1500; i++ {
			if s.exited() {
				break
			}
			if cn, err := net.DialTimeout("tcp", s.addr, time.Second); err == nil {
				_ = cn.Close()
				if listens(s.cmd.Process.Pid, port) {
					return s
				}
				// somebody else's port
			}
			time.Sleep(20 * time.Millisecond)
		}
		if s.exited() {
			if strings.Contains(s.stderr(), "address already in use") {
				continue
			}
			return s
		}
		s.stop()
	}
	return nil
}

// listens tells if the process has a socket that listens on the port, so that another process that happens to have
// taken the port isn't mistaken for it
func listens(pid, port int) bool {
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		bs, _ := ioutil.ReadFile(f)
		for _, line := range strings.Split(string(bs), "\n") {
			fs := strings.Fields(line)
			if len(fs) > 9 && fs[3] == "0A" && strings.HasSuffix(fs[1], fmt.Sprintf(":%04X", port)) {
				inodes["socket:["+fs[9]+"]"] = true
			}
		}
	}
	dir := fmt.Sprintf("/proc/%d/fd", pid)
	fds, _ := ioutil.ReadDir(dir)
	for _, fd := range fds {
		if t, err := os.Readlink(filepath.Join(dir, fd.Name())); err == nil && inodes[t] {
			return true
		}
	}
	return false
}

// A variable given to a command or request: the text and the value that it is
type variable struct {
	text  string
	name  string
	value interface{}
}

// literals are texts in the syntax of a dialect and the values that they denote
func literals(dialect string) []variable {
	m := func(dgoText, pcoreText string, v interface{}) variable {
		if dialect == "pcore" {
			return variable{pcoreText, "", v}
		}
		return variable{dgoText, "", v}
	}
	t := func(s string) variable { return variable{s, "", strings.TrimSpace(s)} }
	return []variable{t("val1"), t("prod"), t("x y"), t("10"), t("true"), t(" trimmed "), t("é"), t("a=b"), t("a:b"), t("http://h/x?y=z&w"), t("1.5"), t("%{v2}"), t("100%"), t("two\nlines: a=b\n\nend"),
		m(`"quoted str"`, `'quoted str'`, "quoted str"), m(`"10"`, `"10"`, "10"), m(`"a\nb"`, `"a\nb"`, "a\nb"),
		m(`{}`, `{}`, mv.NewMap()), m(`{"x": 1}`, `[]`, map[bool]interface{}{true: mv.L(), false: mv.NewMap("x", 1)}[dialect == "pcore"]),
		m(`{"a.b": 1.5}`, `{'a.b' => 1.5}`, mv.NewMap("a.b", 1.5)), m(`{"k1": "deep", "n": 2}`, `{'k1' => 'deep', "n" => 2}`, mv.NewMap("k1", "deep", "n", 2)),
		m(`{"k1": {"deep": "deeper"}, "files": {"f1", "f2"}}`, `{'k1' => {'deep' => 'deeper'}, 'files' => ['f1', 'f2']}`, mv.NewMap("k1", mv.NewMap("deep", "deeper"), "files", mv.L("f1", "f2"))),
		m(`{"l1", 2, true}`, `['l1', 2, true]`, mv.L("l1", 2, true)), m(`{"f1"}`, `['f1']`, mv.L("f1")), m(`{"f1", "common"}`, `["f1", "common"]`, mv.L("f1", "common"))}
}

var variableNames = []string{"v1", "v2", "v3", "lst", "files", "env", "one_file", "fact", "vi", "a::b", "dot.ted"}

func genVariable(g *gen.G, dialect string, sep func() string) variable {
	vs := literals(dialect)
	v := vs[g.Intn(len(vs))]
	n := variableNames[g.Intn(len(variableNames))]
	switch n {
	case "v3":
		v = vs[19+g.Intn(3)]
	case "env", "one_file": // used in patterns
		v = vs[[]int{0, 1, 3, 4, 6}[g.Intn(5)]]
	case "files", "lst":
		v = vs[len(vs)-3+g.Intn(3)]
	}
	v.name = n
	v.text = v.name + sep() + v.text
	return v
}

type restReq struct {
	key    string
	vars   []variable
	merge  string
	typ    string
	dflt   *string
	dv     interface{}
	rid    string
	want   restResp
	mcanon string // what the model predicts, as JSON
	badVar string
}

type restResp struct {
	status int
	body   string
}

func (r *restReq) url(addr string) string {
	q := url.Values{}
	for _, v := range r.vars {
		q.Add("var", v.text)
	}
	if r.rid != "" {
		q.Add("var", "rid="+r.rid)
	}
	if r.badVar != "" {
		q.Add("var", r.badVar)
	}
	if r.merge != "" {
		q.Set("merge", r.merge)
	}
	if r.typ != "" {
		q.Set("type", r.typ)
	}
	if r.dflt != nil {
		q.Set("default", *r.dflt)
	}
	u := url.URL{Scheme: "http", Host: addr, Path: "/lookup/" + r.key, RawQuery: q.Encode()}
	return u.String()
}

type restWorld struct {
	w       *model.World
	cfg     string
	flags   []variable
	fileV   *mv.Map
	changed bool
}

// scope is the variables of a request: the ones of the command line, of the request, and of the file
func (rw *restWorld) scope(r *restReq) *mv.Map {
	m := mv.NewMap()
	for _, v := range append(append([]variable{}, rw.flags...), r.vars...) {
		m.Put(v.name, v.value)
	}
	if r.rid != "" {
		m.Put("rid", r.rid)
	}
	if rw.fileV != nil {
		for _, k := range rw.fileV.Keys {
			m.Put(k, rw.fileV.Get(k))
		}
	}
	return m
}

// expect determines what the library gives for the request, in a session of its own
func (rw *restWorld) expect(r *restReq) {
	if r.badVar != "" {
		r.want = restResp{500, "unable to parse variable '" + r.badVar + "'\n"}
		return
	}
	scope := rw.scope(r)
	opts := map[string]interface{}{provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment}, api.HieraConfig: rw.cfg}
	out := bytes.Buffer{}
	o := mon.Try(func() dgo.Value {
		s := session.New(context.Background(), provider.MuxLookupKey, opts, nil)
		t := typ.Any
		if r.typ != "" {
			t = s.Dialect().ParseType(nil, vf.String(r.typ))
		}
		var lo dgo.Map
		if r.merge != "" && r.merge != "first" {
			lo = vf.Map("merge", r.merge)
		}
		var dv dgo.Value
		if r.dflt != nil {
			dv = mon.ToDgo(r.dv)
		}
		v := hiera.Lookup2(s.Invocation(mon.ToDgo(scope), nil), []string{r.key}, t, dv, nil, nil, lo, nil)
		if v != nil {
			hiera.Render(s, hiera.JSON, v, &out)
		}
		return v
	})
	switch o.Kind {
	case "absent":
		r.want = restResp{404, "404 value not found\n"}
	case "value":
		r.want = restResp{200, out.String()}
	default:
		r.want = restResp{500, strings.TrimPrefix(o.Err, "runtime error: ") + "\n"} // added by Try
	}
	r.mcanon = ""
	if r.typ == "" && !rw.changed {
		wc := *rw.w
		wc.Inv = scope
		var merge interface{}
		if r.merge != "" && r.merge != "first" {
			merge = r.merge
		}
		switch m := model.NewEval(&wc).Lookup(r.key, merge); m.Kind {
		case "value":
			r.mcanon = mv.Canon(mv.Numeric(m.V))
		case "absent":
			r.mcanon = m.Canon()
			if r.dflt != nil {
				r.mcanon = mv.Canon(mv.Numeric(r.dv))
			}
		case "error":
			r.mcanon = m.Canon()
		}
	}
}

// judge compares the response with what is expected
func (r *restReq) judge(status int, ctype, body string) string {
	plain := func(s string) string { return strings.ReplaceAll(s, "runtime error: ", "") }
	if status != r.want.status || body != r.want.body && !(status == 500 && plain(body) == plain(r.want.body)) {
		return fmt.Sprintf("the response is %d %q, the library gives %d %q", status, clip(body), r.want.status, clip(r.want.body))
	}
	if status == 200 && !strings.HasPrefix(ctype, "application/json") {
		return "the content type is " + ctype
	}
	switch r.mcanon {
	case "":
	case "<absent>":
		if status != 404 {
			return fmt.Sprintf("the response is %d %q, expected no value", status, clip(body))
		}
	case "<error>":
		if status != 500 {
			return fmt.Sprintf("the response is %d %q, expected an error", status, clip(body))
		}
	default:
		if strings.Contains(r.mcanon, "sensitive(") {
			return ""
		}
		d := json.NewDecoder(strings.NewReader(body))
		d.UseNumber()
		var v interface{}
		if err := d.Decode(&v); err != nil || status != 200 {
			return fmt.Sprintf("the response is %d %q, expected %s", status, clip(body), r.mcanon)
		}
		if c := mv.Canon(mv.Numeric(mv.FromGo(v))); c != r.mcanon {
			return fmt.Sprintf("the response is %s, expected %s", c, r.mcanon)
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func c12profile(g *gen.G) *gen.Profile {
	p := gen.Default()
	p.Hash, p.Key, p.Dig = 0, 0, 0
	p.IntKeys = 0
	p.URI, p.URIs = 0, 0
	p.NoLoc = 0
	p.Convert = .1
	p.Defaults = 0
	p.Providers = [][]string{{"config", "env"}}
	if g.P(.2) {
		p.Malformed = .1
	}
	return p
}

// noise sends something to the server that isn't a proper request
func noise(g *gen.G, addr string) {
	cn, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return
	}
	defer cn.Close()
	_ = cn.SetDeadline(time.Now().Add(5 * time.Second))
	key := g.Pick("alpha", "beta", "echo_a")
	switch g.Intn(11) {
	case 0:
		fmt.Fprintf(cn, "GET /lookup/%s HTTP/1.1\r\n", key) // incomplete
	case 1:
		fmt.Fprintf(cn, "GARBAGE\r\n\r\n")
	case 2:
		fmt.Fprintf(cn, "GET /lookup/%%zz HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
	case 3:
		fmt.Fprintf(cn, "POST /lookup/%s HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nabc", key)
	case 4: // does not wait for the response
		fmt.Fprintf(cn, "GET /lookup/%s?var=rid%%3Dnoise HTTP/1.1\r\nHost: x\r\n\r\n", key)
		return
	case 5:
		fmt.Fprintf(cn, "GET /lookup/%s?default=%%zz&merge=%%&var HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", key)
		_, _ = io.Copy(io.Discard, cn)
	case 6:
		fmt.Fprintf(cn, "GET /lookup/%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", strings.Repeat("k", 20000))
		_, _ = io.Copy(io.Discard, cn)
	case 7:
		fmt.Fprintf(cn, "GET /%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", g.Pick("", "lookup", "nope", "lookup/../alpha", "/lookup//alpha"))
		_, _ = io.Copy(io.Discard, cn)
	case 8:
		fmt.Fprintf(cn, "GET /lookup/%s?%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", key, strings.Repeat("var=a%3Db&", 3000))
		_, _ = io.Copy(io.Discard, cn)
	case 9:
		fmt.Fprintf(cn, "GET /lookup/%s?type=%%5B%%5B&default=%%7B HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", key)
		_, _ = io.Copy(io.Discard, cn)
	default:
		fmt.Fprintf(cn, "%s /lookup/%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", g.Pick("HEAD", "PUT", "DELETE", "OPTIONS"), key)
		_, _ = io.Copy(io.Discard, cn)
	}
}

func c12(c *C) {
	worlds := c.N(26, 500)
	var next int64 = -1
	wg := sync.WaitGroup{}
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= worlds || c.Violations() >= 5 {
					return
				}
				c.rest(i)
			}
		}()
	}
	wg.Wait()
	c.Need("responses 200", int64(c.N(1500, 20000)))
	c.Need("responses 404", int64(c.N(300, 5000)))
	c.Need("responses 500", int64(c.N(150, 2000)))
}

func (c *C) rest(i int) {
	g := c.G("world", i)
	p := c12profile(g)
	w := gen.Build(g, p)
	w.Sess, w.Inv = nil, nil
	w.Cfg.FileName = ""
	if !w.Cfg.Absent && !w.Cfg.NoHierarchy && w.Cfg.Raw == "" {
		w.Cfg.Entries = append(w.Cfg.Entries, &model.Entry{Name: "echo", FnKind: "data_hash", FnName: "yaml_data", DataDir: "data", Loc: &model.Loc{Kind: "path", Args: []string{"echo.yaml"}}})
		w.Cfg.Files["data/echo.yaml"] = &model.File{Format: "yaml", V: mv.NewMap("echo_a", "%{rid}", "echo_b", mv.NewMap("x", mv.L("%{rid} %{v1}"), "%{rid}", "y"),
			"echo_c", "%{alias('echo_b')}", "echo_d", mv.L("%{lookup('echo_a')}", "%{lookup('echo_b.x.0')}"),
			"two\nlines", "%{rid}", "a/b", "%{rid}", "a//b", "other %{rid}", "x/../y", "up %{rid}", "y", "why %{rid}", "/", "slash %{rid}", "a/", "after %{rid}", ".", "dot %{rid}", "c %41+?#&=;", "%{rid}", "é", "%{rid}")}
	}
	dir := c.Dir()
	defer c.Drop(dir)
	w.Write(dir)
	rw := &restWorld{w: w, cfg: filepath.Join(dir, "hiera.yaml")}
	args := []string{"--config", rw.cfg}
	for n := g.Intn(4); n > 0; n-- {
		v := genVariable(g, "dgo", func() string { return g.Pick("=", ":") })
		rw.flags = append(rw.flags, v)
		args = append(args, "--var", v.text)
	}
	if g.P(.3) {
		rw.fileV = mv.NewMap(variableNames[g.Intn(4)], g.Pick("fromfile", "val1"), "fv", "x")
		fn := filepath.Join(dir, "vars.yaml")
		write(fn, mv.YAML(rw.fileV))
		args = append(args, "--vars", fn)
	}
	s := startServer(filepath.Join(c.Bin, "server"), []string{"GORACE=halt_on_error=0"}, args...)
	if s == nil {
		c.Inconclusive("cannot start the server")
		return
	}
	defer s.stop()
	if s.exited() {
		c.Violation("the server does not start: "+s.stderr(), map[string]interface{}{"args": args, "world": w.Dump()})
		return
	}
	client := &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 20},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	defer client.CloseIdleConnections()

	dgoValues := literals("dgo")
	gw := gen.NewW(g, p, w)
	reqs := make([]*restReq, 40)
	for k := range reqs {
		r := &restReq{key: gw.Key()}
		for n := g.Intn(4); n > 0; n-- {
			r.vars = append(r.vars, genVariable(g, "dgo", func() string { return g.Pick("=", ":", "=", " = ", ": ") }))
		}
		if g.P(.3) {
			r.key = g.Pick("echo_a", "echo_b", "echo_c", "echo_d", "echo_b.x.0", "env::HV_REST", "two\nlines", "a/b", "c %41+?#&=;", "é",
				"a//b", "'x/../y'", "x/../y", "y", "/", "a/", "'.'", ".", "..", "../lookup/a/b", "//y", "./y", "y/.", "lookup/y", "")
		}
		r.rid = fmt.Sprintf("r%d-%d", i, k)
		r.merge = g.Pick("", "", "", "first", "unique", "hash", "deep")
		if g.P(.03) {
			r.merge = "bogus"
		}
		if g.P(.25) {
			r.typ = g.Pick("string", "int", "map[string]any", "[]any", "[]string", "float", "bool", "string|int", "any")
			if g.P(.1) {
				r.typ = g.Pick("nosuch", "[", "map[")
			}
		}
		if g.P(.35) {
			v := dgoValues[g.Intn(len(dgoValues))]
			r.dflt, r.dv = &v.text, v.value
			if g.P(.2) {
				e := ""
				r.dflt, r.dv = &e, ""
			}
		}
		if g.P(.04) {
			r.typ, r.dflt = "", nil
			r.badVar = g.Pick("novalue", "novalue=", "=x", "", "::", "a==b")
		}
		reqs[k] = r
	}
	var broken string
	for phase := 0; phase < 4 && c.Violations() < 5; phase++ {
		// Data files are replaced between the phases, when no request is in progress
		switch phase {
		case 1:
			for f := range w.Cfg.Files {
				if broken == "" || f < broken {
					broken = f
				}
			}
			if broken != "" {
				write(filepath.Join(dir, broken), g.Pick("[1, 2\n", "a: b: c\n", "- x\n"))
				rw.changed = true
			}
		case 2:
			if broken != "" {
				write(filepath.Join(dir, broken), w.Cfg.Files[broken].Text())
				rw.changed = false
			}
		case 3:
			fs := make([]string, 0, len(w.Cfg.Files))
			for f := range w.Cfg.Files {
				fs = append(fs, f)
			}
			for _, f := range ensureSorted(fs) {
				if fl := w.Cfg.Files[f]; fl.V != nil && f != "data/echo.yaml" && g.P(.5) {
					fl.V.Put("alpha", "changed")
					fl.V.Put("beta", mv.NewMap("k1", "changed"))
					write(filepath.Join(dir, f), fl.Text())
				}
			}
		}
		for _, r := range reqs {
			rw.expect(r)
		}
		if !c.restPhase(s, client, rw, reqs, g.Int63(), i, phase) {
			return
		}
	}
	c.Add("servers", 1)
}

func (c *C) restPhase(s *server, client *http.Client, rw *restWorld, reqs []*restReq, seed int64, i, phase int) bool {
	wg := sync.WaitGroup{}
	var failed int32
	detail := func(r *restReq) map[string]interface{} {
		return map[string]interface{}{"case": i, "phase": phase, "url": r.url(s.addr), "model": r.mcanon, "args": s.cmd.Args, "world": rw.w.Dump(), "stderr": clip(s.stderr())}
	}
	if phase == 0 { // the very first request of the server
		wg.Add(0)
	}
	for k := 0; k < 14; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			g := gen.New(seed, "client", k)
			for _, x := range g.Perm(len(reqs)) {
				if atomic.LoadInt32(&failed) != 0 {
					return
				}
				if k == 0 && x%2 == 0 || k == 1 && x%8 == 0 {
					noise(g, s.addr)
					c.Add("improper requests", 1)
					if k == 0 {
						continue
					}
				}
				r := reqs[x]
				resp, err := client.Get(r.url(s.addr))
				var body []byte
				if err == nil {
					body, err = io.ReadAll(resp.Body)
					_ = resp.Body.Close()
				}
				if err != nil {
					atomic.StoreInt32(&failed, 1)
					if s.exited() {
						c.Violation(fmt.Sprintf("the server died when requested %s in case %d", r.url(s.addr), i), detail(r))
						return
					}
					t := cpuTime(s.cmd.Process.Pid)
					time.Sleep(3 * time.Second)
					if strings.Contains(err.Error(), "Timeout") && cpuTime(s.cmd.Process.Pid)-t > 300*time.Millisecond {
						c.Inconclusive("the server is too slow")
					}
					c.Violation(fmt.Sprintf("no response for %s in case %d: %v", r.url(s.addr), i, err), detail(r))
					return
				}
				c.Add(fmt.Sprintf("responses %d", resp.StatusCode), 1)
				if r.mcanon != "" {
					c.Add("responses compared with the model", 1)
				}
				c.Case(fmt.Sprintf("%d %d %s %d %s", i, phase, r.url(""), resp.StatusCode, body))
				if d := r.judge(resp.StatusCode, resp.Header.Get("Content-Type"), string(body)); d != "" {
					atomic.StoreInt32(&failed, 1)
					c.Violation(fmt.Sprintf("%s in case %d: %s", r.url(s.addr), i, d), detail(r))
					return
				}
				if resp.StatusCode == 200 && k == 3 {
					c.Sample(map[string]interface{}{"url": r.url("host"), "status": resp.StatusCode, "body": clip(string(body))})
				}
			}
		}(k)
	}
	wg.Wait()
	for _, t := range raceReports(s.stderr()) {
		if stringHashRace(t) {
			c.Add("races in the computation of the hash of a dgo string", 1)
			continue
		}
		c.Violation("concurrent requests: data race: "+raceTop(t), map[string]interface{}{"report": t, "args": s.cmd.Args, "world": rw.w.Dump()})
		return false
	}
	if s.exited() && failed == 0 {
		c.Violation(fmt.Sprintf("the server died in case %d", i), map[string]interface{}{"args": s.cmd.Args, "stderr": clip(s.stderr())})
		return false
	}
	return failed == 0
}
