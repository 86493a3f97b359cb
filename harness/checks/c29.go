package checks

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"hv/gen"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C29", "a lookup of a key that tells where it was found; distinct by settings, files, way of starting and key", c29)
	Modes["c29child"] = c29child
}

// A c29cfg is a configuration file
type c29cfg struct {
	Kind                                     string // absent, bare (no hierarchy), full or bad
	DataDir, DefDataDir, PlugDir, DefPlugDir string
	PlugFile                                 string
	Defaults                                 bool
}

// A c29case is a tree of files and settings
type c29case struct {
	T       string // the root of everything
	Cwd     string
	Configs map[string]*c29cfg // by path
	Dirs    []string           // directories where there is data
	Plugins []string           // paths of plugins
	Env     map[string]string
	Opts    map[string]string // library: session options
	Funcs   bool              // the application has the function
}

var c29keys = []string{"config", "data", "who", "root", "common"}

func (k *c29case) abs(p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	return filepath.Join(k.Cwd, p)
}

func (k *c29case) has(dir string) bool {
	for _, d := range k.Dirs {
		if d == dir {
			return true
		}
	}
	return false
}

func firstOf(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return ""
}

// config tells which configuration file is used
func (k *c29case) config() string {
	if p, ok := k.Opts[api.HieraConfig]; ok {
		return k.abs(p)
	}
	root := k.Cwd
	if r, ok := k.Opts[api.HieraRoot]; ok {
		root = k.abs(r)
	}
	if n, ok := k.Opts[api.HieraConfigFileName]; ok {
		return filepath.Join(root, n)
	}
	if e := k.Env["HIERA_CONFIGFILE"]; e != "" {
		if filepath.IsAbs(e) {
			return filepath.Clean(e)
		}
		return filepath.Join(root, e)
	}
	return filepath.Join(root, "hiera.yaml")
}

// expect tells what each key should give. A missing key is not found and "!" is an error.
func (k *c29case) expect() map[string]string {
	r := map[string]string{}
	path := k.config()
	root := filepath.Dir(path)
	cfg := k.Configs[path]
	if cfg == nil {
		cfg = &c29cfg{Kind: "absent"}
	}
	in := func(d string) string {
		if filepath.IsAbs(d) {
			return filepath.Clean(d)
		}
		return filepath.Join(root, d)
	}
	envData := firstOf(k.Env["HIERA_DATADIR"], "data")
	envPlug := firstOf(k.Env["HIERA_PLUGINDIR"], "plugin")
	switch cfg.Kind {
	case "bad":
		for _, n := range c29keys {
			r[n] = "!"
		}
	case "absent", "bare":
		if k.has(root) {
			r["root"], r["data"] = root, root
		}
		if d := in(firstOf(cfg.DefDataDir, envData)); k.has(d) {
			r["common"] = d
			if r["data"] == "" {
				r["data"] = d
			}
		}
	case "full":
		r["config"] = path
		if d := in(firstOf(cfg.DataDir, cfg.DefDataDir, envData)); k.has(d) {
			r["data"] = d
		}
		if k.Funcs {
			r["who"] = "the application"
			break
		}
		f := firstOf(cfg.PlugFile, "hv_exe")
		if !filepath.IsAbs(f) {
			f = filepath.Join(in(firstOf(cfg.PlugDir, cfg.DefPlugDir, envPlug)), f)
		}
		f = filepath.Clean(f)
		ok := false
		for _, p := range k.Plugins {
			ok = ok || p == f
		}
		if ok {
			r["who"] = f
		} else {
			for _, n := range c29keys {
				r[n] = "!"
			}
		}
	}
	return r
}

func (k *c29case) write(c *C) {
	for p, cfg := range k.Configs {
		m := mv.NewMap("version", 5)
		switch cfg.Kind {
		case "bad":
			m.Put("version", 4)
		case "full":
			e := mv.NewMap("name", "data", "path", "f.yaml")
			if cfg.DataDir != "" {
				e.Put("datadir", cfg.DataDir)
			}
			pl := mv.NewMap("name", "plugin", "lookup_key", "hv_exe")
			if cfg.PlugDir != "" {
				pl.Put("plugindir", cfg.PlugDir)
			}
			if cfg.PlugFile != "" {
				pl.Put("pluginfile", cfg.PlugFile)
			}
			id := "id-" + strings.ReplaceAll(p, "/", "-") + ".yaml"
			write(filepath.Join(filepath.Dir(p), id), mv.YAML(mv.NewMap("config", p)))
			m.Put("hierarchy", mv.L(mv.NewMap("name", "id", "datadir", ".", "path", id), e, pl))
		}
		if cfg.Defaults {
			d := mv.NewMap()
			if cfg.DefDataDir != "" {
				d.Put("datadir", cfg.DefDataDir)
			}
			if cfg.DefPlugDir != "" {
				d.Put("plugindir", cfg.DefPlugDir)
			}
			if d.Len() == 0 {
				d.Put("options", mv.NewMap("o", "v"))
			}
			m.Put("defaults", d)
		}
		if cfg.Kind != "absent" {
			write(p, mv.YAML(m))
		}
	}
	for _, d := range k.Dirs {
		for f, key := range map[string]string{"f.yaml": "f", "data.yaml": "root", "common.yaml": "common"} {
			write(filepath.Join(d, f), mv.YAML(mv.NewMap("data", d, key, d)))
		}
	}
	for _, p := range k.Plugins {
		c.linkPlugin(p)
	}
}

func c29gen(g *gen.G, t string, way string) *c29case {
	k := &c29case{T: t, Configs: map[string]*c29cfg{}, Env: map[string]string{}, Opts: map[string]string{}}
	bases := []string{t + "/a", t + "/a/in", t + "/b b"}
	k.Cwd = bases[g.Intn(3)]
	names := []string{"hiera.yaml", "alt.yaml", "cfg/alt.yaml"}
	odirs := func(what string) string {
		return g.Pick("", "", what, what+"2", "./"+what+"2/", "../"+what, t+"/b b/"+what, "x/"+what)
	}
	seenDirs := map[string]bool{}
	var dirs []string
	addDir := func(d string) {
		if !seenDirs[d] {
			seenDirs[d] = true
			dirs = append(dirs, d)
		}
	}
	for _, b := range bases {
		for _, n := range names {
			p := filepath.Join(b, n)
			cfg := &c29cfg{Kind: g.Pick("full", "full", "full", "full", "bare", "absent", "bad")}
			if g.P(.5) {
				cfg.DataDir = odirs("data")
				cfg.PlugDir = odirs("plugin")
			}
			if g.P(.5) {
				cfg.Defaults = true
				cfg.DefDataDir = odirs("data")
				cfg.DefPlugDir = odirs("plugin")
			}
			if g.P(.4) {
				cfg.PlugFile = g.Pick("other", "sub/other", "../plugin/hv_exe", t+"/b b/plugin/other")
			}
			if cfg.Kind == "absent" {
				cfg = &c29cfg{Kind: "absent"}
			}
			k.Configs[p] = cfg
			r := filepath.Dir(p)
			addDir(r)
			for _, d := range []string{"data", "data2", "../data", "x/data", "edata", "plugin", "plugin2", "../plugin", "x/plugin", "eplugin"} {
				addDir(filepath.Join(r, d))
			}
		}
	}
	for _, d := range dirs {
		if strings.Contains(filepath.Base(d), "plugin") {
			for _, f := range []string{"hv_exe", "other", "sub/other"} {
				if g.P(.93) {
					k.Plugins = append(k.Plugins, filepath.Join(d, f))
				}
			}
		} else if g.P(.9) {
			k.Dirs = append(k.Dirs, d)
		}
	}
	if g.P(.5) {
		k.Env["HIERA_CONFIGFILE"] = g.Pick("hiera.yaml", "alt.yaml", "cfg/alt.yaml", "../alt.yaml", "./cfg/../alt.yaml", "missing.yaml", t+"/a/in/alt.yaml", t+"/b b/cfg/alt.yaml")
	}
	if g.P(.4) {
		k.Env["HIERA_DATADIR"] = g.Pick("edata", "data2", t+"/a/edata", "../data")
	}
	if g.P(.4) {
		k.Env["HIERA_PLUGINDIR"] = g.Pick("eplugin", "plugin2", t+"/a/eplugin", "../plugin")
	}
	path := func() string {
		return g.Pick("hiera.yaml", "alt.yaml", "./cfg/alt.yaml", "../alt.yaml", "missing.yaml", t+"/a/in/alt.yaml", t+"/b b/cfg/alt.yaml", t+"/a/./hiera.yaml")
	}
	switch way {
	case "library":
		if g.P(.35) {
			k.Opts[api.HieraConfig] = path()
		}
		if g.P(.5) {
			k.Opts[api.HieraRoot] = g.Pick(t+"/a", t+"/b b/", "..", ".", t+"/a/../a/in", "in")
		}
		if g.P(.4) {
			k.Opts[api.HieraConfigFileName] = g.Pick("hiera.yaml", "alt.yaml", "cfg/alt.yaml", "missing.yaml")
		}
		k.Funcs = g.P(.15)
	case "lookup":
		if g.P(.5) {
			k.Opts[api.HieraConfig] = path()
		}
	case "server":
		k.Opts[api.HieraConfig] = path()
	}
	return k
}

// c29child creates a session as the case, in the file given as argument, tells and prints the outcome for each key
func c29child(args []string) int {
	var k c29case
	bs, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(bs, &k)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	opts := map[string]interface{}{}
	for n, v := range k.Opts {
		opts[n] = v
	}
	if k.Funcs {
		opts[api.HieraFunctions] = vf.Map("hv_exe", func(_ sdk.ProviderContext, key string) dgo.Value {
			if key == "who" {
				return vf.String("the application")
			}
			return nil
		})
	}
	r := map[string]string{}
	hiera.DoWithParent(nil, nil, opts, func(s api.Session) {
		for _, n := range c29keys {
			o := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, nil), n, nil, nil) })
			switch o.Kind {
			case "value":
				r[n] = o.V.String()
			case "absent":
			default:
				r[n] = "!" + o.String()
			}
		}
	})
	bs, _ = json.Marshal(r)
	fmt.Println(string(bs))
	return 0
}

func serverGet(s *server, path string) (int, string, error) {
	hc := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 60 * time.Second}
	r, err := hc.Get("http://" + s.addr + path)
	if err != nil {
		return 0, "", err
	}
	defer func() { _ = r.Body.Close() }()
	bs, err := io.ReadAll(r.Body)
	return r.StatusCode, string(bs), err
}

// stopAll stops the server and the plugins that it has started
func stopAll(s *server) {
	var pids []int
	ds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/children", s.cmd.Process.Pid))
	for _, d := range ds {
		bs, _ := os.ReadFile(d)
		for _, f := range strings.Fields(string(bs)) {
			if n, err := strconv.Atoi(f); err == nil {
				pids = append(pids, n)
			}
		}
	}
	s.stop()
	for _, n := range pids {
		_ = syscall.Kill(n, syscall.SIGKILL)
	}
}

func c29(c *C) {
	exe, _ := os.Executable()
	lookup, srv := filepath.Join(c.Bin, "lookup"), filepath.Join(c.Bin, "server")
	c.Parallel(c.N(700, 9000), func(i int) {
		if c.Violations() > 5 {
			return
		}
		g := c.G("settings", i)
		way := g.Pick("library", "library", "library", "lookup", "lookup", "server")
		dir := c.Dir()
		defer c.Drop(dir)
		k := c29gen(g, filepath.Join(dir, "t"), way)
		k.write(c)
		if err := os.MkdirAll(k.Cwd, 0755); err != nil {
			panic(err)
		}
		want := k.expect()
		got := map[string]string{}
		env := []string{"TMPDIR=" + dir}
		for n, v := range k.Env {
			env = append(env, n+"="+v)
		}
		errText := ""
		switch way {
		case "library":
			fn := filepath.Join(dir, "case.json")
			bs, _ := json.Marshal(k)
			write(fn, string(bs))
			r, ok := runCommand(exe, k.Cwd, env, "", "c29child", fn)
			if !ok {
				c.Inconclusive("a child did not end")
				return
			}
			if r.code != 0 || json.Unmarshal(r.out, &got) != nil {
				c.Violation(fmt.Sprintf("case %d: no session could be made with the options %v: %s", i, k.Opts, clip(string(r.err))), k)
				return
			}
		case "lookup":
			for _, n := range c29keys {
				args := []string{n, "--render-as", "s"}
				if p, ok := k.Opts[api.HieraConfig]; ok {
					args = append(args, "--config", p)
				}
				r, ok := runCommand(lookup, k.Cwd, env, "", args...)
				if !ok {
					c.Inconclusive("a command did not end")
					return
				}
				switch {
				case r.code != 0:
					got[n] = "!" + string(r.err)
				case len(r.out) > 0:
					got[n] = strings.TrimSuffix(string(r.out), "\n")
				}
			}
		case "server":
			// the server has the directory of this process
			k.Cwd, _ = os.Getwd()
			if !filepath.IsAbs(k.Opts[api.HieraConfig]) {
				k.Opts[api.HieraConfig] = filepath.Join(k.T, "a", k.Opts[api.HieraConfig])
			}
			want = k.expect()
			s := startServer(srv, env, "--config", k.Opts[api.HieraConfig])
			if s == nil {
				c.Inconclusive("the server did not start in time")
				return
			}
			for _, n := range c29keys {
				st, body, err := serverGet(s, "/lookup/"+n)
				if err != nil {
					stopAll(s)
					c.Inconclusive(err.Error())
					return
				}
				switch st {
				case 200:
					var t string
					if json.Unmarshal([]byte(body), &t) != nil {
						t = "?" + body
					}
					got[n] = t
				case 404:
				default:
					got[n] = "!" + body
				}
			}
			errText = s.tail()
			stopAll(s)
		}
		kind := "default"
		if cf := k.Configs[k.config()]; cf != nil {
			kind = cf.Kind
		}
		c.Add("outcomes with configuration "+kind, 1)
		for _, n := range c29keys {
			c.Case(fmt.Sprint(way, strings.ReplaceAll(fmt.Sprint(k.Opts, k.Env, strings.TrimPrefix(k.Cwd, k.T), k.Configs[k.config()]), k.T, "T"), n))
			c.Add("lookups by "+way, 1)
			if _, ok := k.Env["HIERA_CONFIGFILE"]; ok && way != "server" && k.Opts[api.HieraConfig] == "" && k.Opts[api.HieraConfigFileName] == "" {
				c.Add("lookups with a configuration from the environment", 1)
			}
			g, w := got[n], want[n]
			if n == "who" && w != "" && w != "!" {
				c.Add("functions found", 1)
			}
			if w == "!" && strings.HasPrefix(g, "!") {
				c.Add("errors", 1)
				continue
			}
			if g != w {
				show := func(s string) string {
					return clip(firstOf(strings.ReplaceAll(s, k.T, "T"), "not found"))
				}
				c.Violation(fmt.Sprintf("case %d (%s): lookup of %s with the options %v and environment %v in %s: expected %s, observed %s", i, way, n, k.Opts, k.Env, k.Cwd, show(w), show(g)),
					map[string]interface{}{"case": i, "settings": k, "configuration": k.Configs[k.config()], "expected": want, "observed": got, "output": clip(errText)})
				return
			}
		}
	})
	for _, w := range []string{"library", "lookup", "server"} {
		c.Need("lookups by "+w, 300)
	}
	c.Need("errors", 100)
	c.Need("functions found", 150)
	c.Need("lookups with a configuration from the environment", 100)
}
