package checks

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"

	"hv/gen"
	"hv/mon"
	"hv/mv"
)

// c15answers lets a server, that is in this process and that a script announces as if it was its own, answer calls with
// every kind of answer, and compares what a lookup makes of them
func (c *C) c15answers(i int) {
	g := c.G("answers", i)
	dir := c.Dir()
	defer c.Drop(dir)
	tr := g.Pick("unix", "tcp")
	addr := "127.0.0.1:0"
	if tr == "unix" {
		addr = filepath.Join(dir, "sock")
	}
	l, err := net.Listen(tr, addr)
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	type answer struct {
		key, want, part string
		status          int
		body            string
		mode            string
	}
	var as []*answer
	text := g.Pick("what went wrong", "", "line\nline", `{"a":1}`, strings.Repeat("t", 5000), "null", `"a"`)
	add := func(want string, status int, body, mode string) {
		a := &answer{key: fmt.Sprintf("k%d", len(as)), want: want, status: status, body: body, mode: mode}
		if want == "error" && mode == "" && status != 200 {
			a.part = body
		}
		as = append(as, a)
	}
	val := plain(noInterp(fractions(rich(g, 3))))
	body := strings.TrimSpace(mv.JSON(val))
	big := `["` + strings.Repeat("0123456789abcdef", 1+g.Intn(30000)) + `", 1]`
	for _, m := range []string{"", "slow", "chunked", "typed"} {
		add("value", 200, body, m)
		add("value", 200, big, m)
	}
	add("value", 200, " \n\t"+body+"\n \n", "")
	for _, st := range []int{404} {
		for _, b := range []string{"", body, text, "404 page not found\n"} {
			add("not found", st, b, "")
		}
	}
	for _, st := range []int{201, 202, 203, 204, 205, 206, 226, 300, 301, 304, 305, 307, 400, 401, 402, 403, 405, 406, 408, 409, 410, 411, 412, 413, 414, 415, 417, 418, 421, 422, 423, 424, 425,
		426, 428, 429, 431, 444, 451, 499, 500, 501, 502, 503, 504, 505, 507, 508, 511, 520, 599, 604, 700, 999} {
		b := text
		if g.P(.3) {
			b = body
		}
		if st == 204 || st == 304 {
			b = ""
		}
		add("error", st, b, "")
	}
	add("error", 500, text, "cut")
	for _, b := range []string{"", " ", "{", `{"a":1`, `[1,`, `"abc`, "nul", "truth", "<html>", `{"a" 1}`, `{a:1}`, "'x'", body[:len(body)-1] + "\x01"} {
		if !strings.HasSuffix(b, "\x01") || strings.IndexByte("{[\"", b[0]) >= 0 {
			add("error", 200, b, "")
		}
	}
	add("error", 200, big, "cut")
	add("error", 200, big, "cut chunked")
	add("error", 0, "", "close")
	add("error", 0, "", "close")
	add("error", 0, "garbage\r\n\r\n", "raw")
	add("error", 0, "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n\"a", "raw")
	add("error", 0, "HTTP/1.1 200 OK\r\nContent-Le", "raw")
	by := map[string]*answer{}
	for _, a := range as {
		by[a.key] = a
	}
	var lock sync.Mutex
	counts := map[string]int{}
	bad := ""
	opts := mv.NewMap("o", plain(noInterp(fractions(rich(g, 2)))), "name", "é &=+%;")
	kind := g.Pick("lookup_key", "data_dig")
	name := g.Pick("plug_fn", "plug_fn", "plug::fn", "is it?x=y", "c#", "100%", "f%41", "a b", "a+b", "é;(x)", "a&b=c", "{x}", "a/b", "[1]", "q\"q", "@:80", "*", "~/x")
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		k := r.URL.Query().Get("key")
		path := "/lookup_key/" + name
		if kind == "data_dig" {
			path = "/data_dig/" + name
			k = strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(k), `["`), `"]`)
		}
		problem := ""
		if r.Method != "GET" || r.URL.Path != path || len(r.URL.Query()) != 2 || len(r.URL.Query()["key"]) != 1 || len(r.URL.Query()["options"]) != 1 {
			problem = fmt.Sprintf("a call is %s %s", r.Method, clip(r.RequestURI))
		} else {
			o := mon.Try(func() dgo.Value { return streamer.UnmarshalJSON([]byte(r.URL.Query().Get("options")), nil) })
			if o.Canon != mv.Canon(opts) {
				problem = fmt.Sprintf("the options of a call are %s, expected %s", clip(o.String()), clip(mv.Canon(opts)))
			}
		}
		lock.Lock()
		counts[k]++
		if problem != "" && bad == "" {
			bad = problem
		}
		lock.Unlock()
		if k == "lookup_options" {
			http.NotFound(w, r)
			return
		}
		a := by[k]
		if a == nil {
			http.NotFound(w, r)
			return
		}
		hijack := func(s string) {
			cn, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				_, _ = io.WriteString(cn, s)
				_ = cn.Close()
			}
		}
		h := w.Header()
		switch a.mode {
		case "close":
			hijack("")
		case "raw":
			hijack(a.body)
		case "cut":
			hijack(fmt.Sprintf("HTTP/1.1 %d X\r\nContent-Length: %d\r\n\r\n%s", a.status, len(a.body)+7, a.body))
		case "cut chunked":
			hijack(fmt.Sprintf("HTTP/1.1 %d X\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", a.status, len(a.body), a.body))
		case "slow", "chunked":
			w.WriteHeader(a.status)
			for n, step := 0, len(a.body)/5+1; n < len(a.body); n += step {
				e := n + step
				if e > len(a.body) {
					e = len(a.body)
				}
				_, _ = io.WriteString(w, a.body[n:e])
				w.(http.Flusher).Flush()
				if a.mode == "slow" {
					time.Sleep(10 * time.Millisecond)
				}
			}
		default:
			h.Set("Content-Type", map[string]string{"typed": "application/json; charset=utf-8"}[a.mode])
			if a.status != 204 && a.status != 304 {
				h.Set("Content-Length", strconv.Itoa(len(a.body)))
			}
			w.WriteHeader(a.status)
			_, _ = io.WriteString(w, a.body)
		}
	})}
	done := make(chan struct{})
	go func() {
		_ = srv.Serve(l)
		close(done)
	}()
	defer func() {
		_ = srv.Close()
		<-done
	}()
	write(filepath.Join(dir, "hiera.yaml"), mv.YAML(mv.NewMap("version", 5, "hierarchy", mv.L(mv.NewMap("name", "p", kind, name, "pluginfile", "plug", "options", opts)))))
	fn := filepath.Join(dir, "plugin", "plug")
	write(fn, announcement(g, tr, l.Addr().String(), kind, name))
	if err := os.Chmod(fn, 0755); err != nil {
		panic(err)
	}
	hiera.DoWithParent(nil, nil, map[string]interface{}{api.HieraRoot: dir, "pluginTransport": tr, "unixSocketDir": dir}, func(s api.Session) {
		for _, n := range g.Perm(len(as)) {
			a := as[n]
			o := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), a.key, nil, nil) })
			c.Case(fmt.Sprintf("answer %d %s %s", a.status, a.mode, clip(a.body)))
			c.Add("answers of plugins", 1)
			c.Seen("kinds of answers", fmt.Sprint(a.status, a.mode, a.want))
			if strings.Contains(o.Err, "Client.Timeout") {
				c.Inconclusive("a call timed out")
				continue
			}
			detail := map[string]interface{}{"case": i, "transport": tr, "function": kind, "status": a.status, "body": clip(a.body), "mode": a.mode, "result": clip(o.String())}
			want := a.want
			if want == "value" {
				if w := mon.Try(func() dgo.Value { return streamer.UnmarshalJSON([]byte(a.body), nil) }); w.Kind == "value" {
					want = w.Canon
				} else {
					panic("bad answer of a plugin")
				}
				if o.Canon != want {
					c.Violation(fmt.Sprintf("case %d: a plugin answers with %s, and the lookup gives %s", i, clip(a.body), clip(o.String())), detail)
					return
				}
				continue
			}
			if want == "not found" && o.Kind != "absent" || want == "error" && (o.Kind != "error" || !strings.Contains(o.Err, a.part)) {
				c.Violation(fmt.Sprintf("case %d: a plugin answers with status %d (%s) and %q, which is %s, and the lookup gives %s", i, a.status, a.mode, clip(a.body), want, clip(o.String())), detail)
				return
			}
		}
	})
	lock.Lock()
	defer lock.Unlock()
	if c.Violations() > 0 {
		return
	}
	if bad != "" {
		c.Violation(fmt.Sprintf("case %d: %s", i, bad), map[string]interface{}{"case": i, "transport": tr})
	}
	for _, a := range as {
		if counts[a.key] == 0 {
			c.Violation(fmt.Sprintf("case %d: the plugin isn't called for %s", i, a.key), map[string]interface{}{"case": i, "transport": tr})
			return
		}
	}
}

// announcement is a plugin that announces a function that is served by someone else, in one of many ways
func announcement(g *gen.G, tr, addr, kind, name string) string {
	fs := mv.NewMap(kind, mv.L(name))
	if g.P(.5) {
		fs = mv.NewMap("data_hash", mv.L("other_hash"), kind, mv.L("other_fn", name, "another_fn"))
	}
	m := mv.NewMap("version", 1, "address", addr)
	if tr != "tcp" || g.P(.5) { // tcp is the default
		m.Put("network", tr)
	}
	if g.P(.3) {
		m.Put("more", mv.NewMap("a", mv.L(1, true)))
	}
	m.Put("functions", fs)
	text := mv.JSON(m)
	b := strings.Builder{}
	b.WriteString("#!/bin/sh\n")
	if g.P(.3) {
		b.WriteString("echo 'something on stderr' >&2\n")
	}
	n := g.Intn(4)
	if strings.Contains(text, "\\") && n == 1 {
		n = 0
	}
	switch n {
	case 0:
		fmt.Fprintf(&b, "printf '%%s' '%s'\n", text) // no newline
	case 1:
		fmt.Fprintf(&b, "echo ''\necho ' %s'\n", strings.ReplaceAll(strings.ReplaceAll(text, ":{", ":\n {"), ",", " ,\n\t"))
	case 2:
		n := g.Intn(len(text))
		fmt.Fprintf(&b, "printf '%%s' '%s'\nsleep 0.1\nprintf '%%s' '%s'\n", text[:n], text[n:])
	default:
		if strings.Contains(text, "\\") {
			fmt.Fprintf(&b, "printf '%%s\\n' '%s'\n", text)
		} else {
			fmt.Fprintf(&b, "echo '%s'\n", text)
		}
	}
	if g.P(.3) {
		b.WriteString("echo 'more on stdout'\n")
	}
	b.WriteString("exec sleep 1000\n")
	return b.String()
}

// c15same uses functions that have the same name, but are of different kinds, and functions of another kind than that asked
// for
func (c *C) c15same(i int) {
	g := c.G("same", i)
	dir := c.Dir()
	defer c.Drop(dir)
	c.linkPlugin(filepath.Join(dir, "plugin", "p1"))
	kinds := []string{"data_hash", "lookup_key", "data_dig"}
	keyOf := map[string]string{"data_hash": "h", "lookup_key": "k", "data_dig": "d"}
	has := map[string]string{"hv_same": "data_hash lookup_key data_dig", "hv_two": "data_hash lookup_key", "hv_hash": "data_hash", "hv_key": "lookup_key", "hv_dig": "data_dig"}
	fail := false
	want := map[string]string{}
	h := mv.L()
	perm := g.Perm(3)
	for n := 0; n < 1+g.Intn(3); n++ {
		k, fn := kinds[perm[n]], g.Pick("hv_same", "hv_same", "hv_two")
		if g.P(.03) {
			fn = g.Pick("hv_hash", "hv_key", "hv_dig")
		}
		h = append(h, mv.NewMap("name", fmt.Sprint("e", n), k, fn, "pluginfile", "p1"))
		if !strings.Contains(has[fn], k) {
			fail = true
		} else if strings.HasPrefix(fn, "hv_same") || fn == "hv_two" {
			want[keyOf[k]] = k
		}
	}
	t := mv.JSON(mv.NewMap("version", 5, "hierarchy", h))
	write(filepath.Join(dir, "hiera.yaml"), t)
	opts := map[string]interface{}{api.HieraRoot: dir, "pluginTransport": g.Pick("unix", "tcp"), "unixSocketDir": dir}
	s := session.New(context.Background(), provider.ConfigLookupKey, opts, nil)
	defer s.KillPlugins()
	for n := 0; n < 4; n++ {
		k := g.Pick("h", "k", "d", "missing")
		o := mon.Try(func() dgo.Value {
			return hiera.Lookup(s.Invocation(nil, nil), k, nil, map[string]string{"merge": g.Pick("deep", "hash")})
		})
		c.Case(fmt.Sprint("same", i, k))
		c.Add("functions with the same name", 1)
		w, found := want[k]
		switch {
		case fail:
			if o.Kind != "error" {
				c.Violation(fmt.Sprintf("lookup of %s, with a function of another kind, gives %s", k, o), t)
				return
			}
		case !found:
			if o.Kind != "absent" {
				c.Violation(fmt.Sprintf("lookup of %s gives %s, expected nothing", k, o), t)
				return
			}
		case o.Kind != "value" || o.Canon != fmt.Sprintf("%q", w):
			c.Violation(fmt.Sprintf("lookup of %s gives %s, expected that of the %s function", k, o, w), t)
			return
		}
	}
}
