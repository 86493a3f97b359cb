package checks

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C25", "a lookup in an environment; distinct by the key and the outcome", c25)
}

var envNames = []string{"HV_A", "hv_a", "HV_B", "A", "a", "PATH", "HOME", "LANG", "env", "lookup_options", "merge", "convert_to", "strategy", "x.y", "a.b.c", "A::B", "::A", ":A", "A:", "env::A",
	"with space", " lead", "trail ", "é", "日本", "0", "10", "-1", "'q'", `"dq"`, "%{HV_A}", "a%b", "a[0]", "a(1)", "a/b", "a\nb", "\t", "\u00a0", "A-B", "_", "__type", "__ref", "MERGE", "CONVERT_TO", "\xff\xfe", "n\x80"}

var envValues = []string{"", " ", "  padded\t", "=", "==", "a=b", "a=b=c", "=a", "a=", "A=1\nB=2", "line\nbreak\n", "\r\n", "x:y:z", "/bin:/usr/bin:", "%", "100%", "%{open", "{}", "[1, 2]", "{\"a\": 1}", "true", "10", "1.5", "null", "~", "''", "\"q\"", "back\\slash", "é日本\U0001F600", "\ufeffbom", "\x01\x1f\x7f", "deep", "unique", "sensitive", "int", "$HOME", "${PATH}", "`id`", "!!int 1", "- a", "a: b", "#c", "&a", "*a", "\xff", "a\x80b", "%{HV_A}", "%{env::A}", "<%{lookup('env::A')}>", "%{alias('env::a')}", "%{literal('%')}{x}", "%{v1}"}

// genEnv generates an environment. Only what text in a document can express is used when it must be valid.
func genEnv(g *gen.G, valid bool) map[string]string {
	m := map[string]string{}
	for n := g.Intn(14); n > 0; n-- {
		k := envNames[g.Intn(len(envNames))]
		if g.P(.1) {
			k = fmt.Sprintf("HV_%d", g.Intn(100))
		}
		v := envValues[g.Intn(len(envValues))]
		switch g.Intn(12) {
		case 0:
			v = strings.Repeat(v+"x", 1+g.Intn(3000))
			if strings.Contains(v, "%{") {
				v = "long"
			}
		case 1:
			v = strings.ReplaceAll(g.Str(), "\x00", "")
		}
		if valid && (!utf8.ValidString(k) || !utf8.ValidString(v)) {
			continue
		}
		m[k] = v
	}
	return m
}

// envKey generates a key and, when it is known what a direct call of the provider with that key gives, that key
func envKey(g *gen.G, env map[string]string) (key string, direct string) {
	var have []string
	for k := range env {
		have = append(have, k)
	}
	ensureSorted(have)
	name := envNames[g.Intn(len(envNames))]
	if len(have) > 0 && g.P(.7) {
		name = have[g.Intn(len(have))]
	}
	if g.P(.1) {
		name = g.Pick("", name+"=", name+"x", strings.ToLower(name), strings.ToUpper(name), " "+name, name+" ", "=", ":"+name, "x\x00y")
	}
	switch g.Intn(8) {
	case 0:
		return "env", "env"
	case 1: // in the map
		return "env." + quoteSegment(name), ""
	case 2: // not for the provider
		k := g.Pick("Env", "ENV", "env:", "env:A", "environment", "envx::A", "ENV::A", "Env::A", "nv::A", "xenv::A", "::env::A", " env", "env ", name, "facts", "env::")
		return quoteSegment(k), k
	case 3:
		return quoteSegment("env::"+name) + g.Pick(".0", ".x", ".'0'", ".-1"), ""
	default:
		return quoteSegment("env::" + name), "env::" + name
	}
}

// quoteSegment quotes a segment of a key if needed, and if possible
func quoteSegment(s string) string {
	if s != "" && !strings.ContainsAny(s, ".'\"") && strings.Trim(s, "-0123456789") != "" {
		return s
	}
	if !strings.Contains(s, "'") {
		return "'" + s + "'"
	}
	return `"` + s + `"`
}

func setAll(env map[string]string) {
	os.Clearenv()
	for k, v := range env {
		if err := os.Setenv(k, v); err != nil {
			panic(fmt.Errorf("%q: %v", k, err))
		}
	}
}

func c25(c *C) {
	c.Assume("expressions in values and names of variables are resolved as in other data, and an environment where the same name occurs twice is not used")
	old := os.Environ()
	for i := 0; i < c.N(1500, 20000) && c.Violations() < 5; i++ {
		c.c25process(i)
	}
	os.Clearenv()
	for _, e := range old {
		if n := strings.SplitN(e, "=", 2); len(n) == 2 && n[0] != "" {
			_ = os.Setenv(n[0], n[1])
		}
	}
	c.Parallel(c.N(300, 4000), func(i int) { c.c25command(i) })
	c.Parallel(c.N(10, 100), func(i int) { c.c25server(i) })
	c.Need("direct calls", 5000)
	c.Need("lookups compared", 10000)
	c.Need("outputs compared", 300)
	c.Need("responses compared", 150)
}

// c25process alters the environment of this process and performs lookups
func (c *C) c25process(i int) {
	g := c.G("process", i)
	dir := c.Dir()
	defer c.Drop(dir)
	w := &model.World{Root: dir, Cfg: &model.Config{Absent: true}, AllEnv: true, Sess: mv.NewMap("v1", "val")}
	w.Providers = [][]string{{"env"}, {"config", "env"}, {"env", "config"}, {"env", "config", "env"}}[g.Intn(4)]
	if len(w.Providers) > 1 && g.P(.6) {
		// data for the same keys and their options
		data := mv.NewMap("env", mv.NewMap("HV_A", "from data", "only", "data"), "env::HV_B", "from data", "other", "%{lookup('env::HV_A')}/%{env::A}", "all", "%{alias('env')}")
		lo := mv.NewMap()
		for n := g.Intn(3); n > 0; n-- {
			lo.Put(g.Pick("env", "env::HV_A", "env::HV_B", "env::A"), mv.NewMap("merge", g.Pick("hash", "deep", "unique", "first")))
		}
		data.Put("lookup_options", lo)
		w.Cfg = &model.Config{Entries: []*model.Entry{{Name: "e", FnKind: "data_hash", FnName: "yaml_data", DataDir: "data", Loc: &model.Loc{Kind: "path", Args: []string{"d.yaml"}}}},
			Files: map[string]*model.File{"data/d.yaml": {Format: "yaml", V: data}}}
	}
	w.Write(dir)
	env := mon.NewEnv(w)
	s := env.Session()
	defer s.KillPlugins()
	plain := session.New(context.Background(), provider.Environment, env.Options(), nil)
	for r := 1 + g.Intn(3); r > 0; r-- {
		w.Env = genEnv(g, false)
		setAll(w.Env)
		for n := 0; n < 8; n++ {
			key, direct := envKey(g, w.Env)
			if direct != "" && g.P(.5) {
				var want interface{}
				switch {
				case direct == "env":
					m := mv.NewMap()
					for k, v := range w.Env {
						m.Put(k, v)
					}
					want = m
				case strings.HasPrefix(direct, "env::"):
					if v, ok := w.Env[direct[5:]]; ok {
						want = v
					}
				}
				got := mon.Try(func() dgo.Value { return provider.Environment(nil, direct) })
				c.Add("direct calls", 1)
				c.Case("direct " + direct + mv.Canon(want))
				if got.Canon != mv.Canon(want) {
					c.Violation(fmt.Sprintf("Environment called with %q gives %s, expected %s", direct, got, mv.Canon(want)), map[string]interface{}{"env": fmt.Sprintf("%q", w.Env)})
					return
				}
			}
			if len(w.Providers) > 1 && g.P(.1) {
				key = g.Pick("other", "all", "all.HV_A", "lookup_options", "env.only")
			}
			merge := g.MergeOpt(.2)
			ev := model.NewEval(w)
			want := ev.Lookup(key, merge)
			if want.Kind == "unsupported" {
				c.Add("lookups without a prediction", 1)
				continue
			}
			ss := s
			if len(w.Providers) == 1 && merge == nil && g.P(.5) {
				ss = plain // without the function that combines providers
			}
			got := env.Lookup(ss, key, merge)
			c.Add("lookups compared", 1)
			c.Add("outcome "+want.Kind, 1)
			c.Case(key + mv.Canon(merge) + want.String())
			if !got.Same(want) {
				c.Violation(fmt.Sprintf("lookup of %q in case %d: expected %s, observed %s", key, i, want, got),
					map[string]interface{}{"env": fmt.Sprintf("%q", w.Env), "world": w.Dump(), "merge": mv.Canon(merge)})
				return
			}
			if want.Kind == "value" {
				c.Sample(map[string]interface{}{"key": key, "value": clip(want.Canon())})
			}
		}
	}
}

// c25list is the environment as a list, in any order
func c25list(g *gen.G, env map[string]string) []string {
	var ks []string
	for k := range env {
		ks = append(ks, k)
	}
	ensureSorted(ks)
	r := make([]string, 0, len(ks))
	for _, i := range g.Perm(len(ks)) {
		r = append(r, ks[i]+"="+env[ks[i]])
	}
	return r
}

// run with exactly the given environment
func runExact(bin, dir string, env []string, args ...string) (*cmdRun, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = env
	if cmd.Env == nil {
		cmd.Env = []string{}
	}
	ob, eb := &strings.Builder{}, &strings.Builder{}
	cmd.Stdout, cmd.Stderr = ob, eb
	err := cmd.Run()
	r := &cmdRun{out: []byte(ob.String()), err: []byte(eb.String())}
	if ctx.Err() != nil {
		return r, false
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		} else {
			panic(err)
		}
	}
	return r, true
}

// c25command runs the command with an environment
func (c *C) c25command(i int) {
	g := c.G("command", i)
	dir := c.Dir()
	defer c.Drop(dir)
	render := g.Pick("json", "json", "s")
	env := genEnv(g, render == "json")
	w := &model.World{Root: dir, Cfg: &model.Config{Absent: true}, AllEnv: true, Providers: []string{"config", "env"}, Env: env}
	for k := 0; k < 3; k++ {
		key, _ := envKey(g, env)
		if strings.Contains(key, "\x00") || render == "s" && (key == "env" || strings.HasPrefix(key, "env.") && !strings.HasPrefix(key, "env.'")) {
			continue
		}
		want := model.NewEval(w).Lookup(key, nil)
		if want.Kind == "unsupported" {
			continue
		}
		got, ended := runExact(filepath.Join(c.Bin, "lookup"), dir, c25list(g, env), "--render-as", render, "--", key)
		if !ended {
			c.Violation(fmt.Sprintf("lookup of %q doesn't end", key), nil)
			return
		}
		c.Add("commands", 1)
		c.Case("command " + key + want.String())
		bad := ""
		switch want.Kind {
		case "error":
			if got.code == 0 {
				bad = "succeeds"
			}
		case "absent":
			if got.code != 0 || len(got.out) != 0 {
				bad = fmt.Sprintf("prints %q, exit status %d", got.out, got.code)
			}
		default:
			c.Add("outputs compared", 1)
			if render == "s" {
				if s, ok := want.V.(string); ok {
					if got.code != 0 || string(got.out) != s+"\n" {
						bad = fmt.Sprintf("prints %q, exit status %d", got.out, got.code)
					}
				}
			} else if v, err := parseJSON(got.out); got.code != 0 || err != nil || mv.Canon(v) != want.Canon() {
				bad = fmt.Sprintf("prints %q, exit status %d", got.out, got.code)
			}
		}
		if bad != "" {
			c.Violation(fmt.Sprintf("the command, when looking up %q rendered as %s, %s, expected %s", key, render, clip(bad), clip(want.String())),
				map[string]interface{}{"env": fmt.Sprintf("%q", env), "stderr": string(got.err), "stdout": string(got.out), "expected": want.String()})
			return
		}
	}
}

// c25server asks a server for its environment
func (c *C) c25server(i int) {
	g := c.G("server", i)
	dir := c.Dir()
	defer c.Drop(dir)
	env := genEnv(g, true)
	w := &model.World{Root: dir, Cfg: &model.Config{Absent: true}, AllEnv: true, Providers: []string{"config", "env"}, Env: env}
	s := startExact(filepath.Join(c.Bin, "server"), c25list(g, env), "--config", filepath.Join(dir, "hiera.yaml"))
	if s == nil || s.exited() {
		c.Inconclusive("cannot start the server")
		return
	}
	defer s.stop()
	client := &http.Client{Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	for k := 0; k < 40; k++ {
		key, _ := envKey(g, env)
		if strings.Contains(key, "/") || key == "" {
			continue
		}
		want := model.NewEval(w).Lookup(key, nil)
		if want.Kind == "unsupported" {
			continue
		}
		resp, err := client.Get("http://" + s.addr + "/lookup/" + url.PathEscape(key))
		if err != nil {
			c.Violation(fmt.Sprintf("request for %q: %v", key, err), map[string]interface{}{"env": fmt.Sprintf("%q", env), "server": s.stderr()})
			return
		}
		body, _ := io.ReadAll(resp.Body)
		_ = resp.Body.Close()
		status := map[string]int{"value": 200, "absent": 404, "error": 500}[want.Kind]
		c.Add("responses compared", 1)
		c.Case("server " + key + want.String())
		bad := resp.StatusCode != status
		if !bad && status == 200 {
			v, err := parseJSON(body)
			bad = err != nil || mv.Canon(v) != want.Canon()
		}
		if bad {
			c.Violation(fmt.Sprintf("the server, asked for %q, responds with %d %s, expected %s", key, resp.StatusCode, clip(string(body)), clip(want.String())),
				map[string]interface{}{"env": fmt.Sprintf("%q", env)})
			return
		}
	}
}
