package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C21", "an execution of the lookup command; distinct by arguments, output and exit status", c21)
}

// A cmdRun is an observed execution of a command
type cmdRun struct {
	out, err []byte
	code     int
}

// runCommand runs a command in a directory. It returns false if it doesn't end
func runCommand(bin, dir string, env []string, stdin string, args ...string) (*cmdRun, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	if stdin != "" {
		cmd.Stdin = strings.NewReader(stdin)
	}
	ob, eb := &bytes.Buffer{}, &bytes.Buffer{}
	cmd.Stdout, cmd.Stderr = ob, eb
	err := cmd.Run()
	r := &cmdRun{out: ob.Bytes(), err: eb.Bytes()}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case ctx.Err() != nil:
		return r, false
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
	default:
		panic(err)
	}
	return r, true
}

var cmdTypes = map[string][]string{
	"dgo":   {"string", "int", "any", "map[string]any", "[]any", "string|int", "bool", "[]string", "float", "1..100", "bogus[", "map[string](string|int)"},
	"pcore": {"String", "Integer", "Any", "Hash[String,Any]", "Array[Any]", "Variant[String,Integer]", "Boolean", "Array[String]", "Float", "Integer[1,100]", "Bogus[", "Hash"},
}

var cmdAllTypes = map[string][]string{
	"dgo":   {`{"alpha"?:any,"beta"?:any,"gamma"?:any,"delta"?:any}`, `{"alpha"?:string,"see v1"?:string}`, "string"},
	"pcore": {"Struct[{Optional['alpha']=>Any,Optional['beta']=>Any}]", "Struct[{Optional['see v1']=>String}]", "String"},
}

func c21(c *C) {
	fixed := map[string]string{"HV_ONE": "first", "HV_EMPTY": "", "HV_EQ": "a=b=c", "HV_SP": " x y "}
	defer mon.SetEnv(fixed)()
	bin := filepath.Join(c.Bin, "lookup")
	c.Parallel(c.N(500, 8000), func(i int) {
		g := c.G("cmd", i)
		p := c20profile(g)
		p.Hash, p.Key, p.Dig = 0, 0, 0
		p.Env = 1
		p.Convert = .1
		p.Malformed = .02
		p.Providers = [][]string{{"config", "env"}}
		w := gen.Build(g, p)
		c20tweak(g, w)
		w.Sess = nil
		for k, v := range fixed {
			w.Env[k] = v
		}
		dir := c.Dir()
		defer c.Drop(dir)
		fn := ""
		root := filepath.Join(dir, "root")
		w.Write(root)
		cwd := root
		var env []string
		if g.P(.3) { // another name for the configuration
			to := g.Pick("other.yaml", "hiera2.yaml")
			if os.Rename(filepath.Join(root, "hiera.yaml"), filepath.Join(root, to)) == nil {
				write(filepath.Join(root, "hiera.yaml"), "version: 3\n")
				if g.P(.3) {
					env = []string{"HIERA_CONFIGFILE=" + to}
				} else {
					fn = filepath.Join(root, to)
					if g.P(.5) {
						cwd = dir
					}
				}
				w.Cfg.FileName = to
			}
		} else if g.P(.3) && !w.Cfg.Absent {
			fn, cwd = filepath.Join(root, "hiera.yaml"), dir
		}
		gw := gen.NewW(g, p, w)
		for k := 0; k < 4; k++ {
			c21run(c, g, gw, i, bin, dir, cwd, fn, env)
		}
	})
	c21usage(c, bin)
	c.Need("outputs compared", int64(c.N(400, 6000)))
	c.Need("failures", 100)
	c.Need("empty outputs", 100)
	c.Need("explanations", 50)
}

func c21run(c *C, g *gen.G, gw *gen.W, i int, bin, dir, cwd, fn string, env []string) {
	w := gw.World
	dialect := g.Pick("dgo", "pcore", "")
	var args []string
	opt := func(n, v string) {
		if g.P(.5) {
			args = append(args, "--"+n+"="+v)
		} else {
			args = append(args, "--"+n, v)
		}
	}
	var flags []func()
	if dialect == "" {
		dialect = "pcore"
	} else {
		d := dialect
		flags = append(flags, func() { opt("dialect", d) })
	}
	cs := genCmdScope(g, filepath.Join(dir, fmt.Sprintf("cmd%d", g.Int63())), dialect, .02)
	stdin := ""
	usedStdin := false
	for _, v := range cs.opts.Variables {
		v := v
		args = append(args, "--var", v)
	}
	for k, v := range cs.opts.VarPaths {
		if !usedStdin && k == 0 && g.P(.3) && cs.files[v] != "" && cs.files[v] != "(missing)" {
			stdin, usedStdin = cs.files[v], true
			v = "-"
		}
		args = append(args, "--vars", v)
	}
	for _, v := range cs.opts.FactPaths {
		args = append(args, "--facts", v)
	}
	var keys []string
	ex, exo := g.P(.12), g.P(.08)
	for k := 1 + g.Weighted(6, 2, 1); k > 0; k-- {
		key := c20key(gw)
		if g.P(.08) {
			key = g.Pick("env::HV_ONE", "env::HV_EMPTY", "env::HV_EQ", "env::HV_SP", "env::HV_NOPE", "env.HV_ONE")
		}
		if g.P(.02) {
			key = g.Pick("a..b", ".a", "'a", "0.a", "lookup_options")
		}
		if key == "env" || (ex || exo) && strings.HasPrefix(key, "env.") {
			key = "env::HV_ONE" // the environment as a whole, also in an explanation, is not that of this process
		}
		keys = append(keys, key)
	}
	merge := ""
	if g.P(.35) {
		merge = g.Pick("unique", "deep", "hash", "first", "unique", "deep", "bogus")
		flags = append(flags, func() { opt("merge", merge) })
	}
	var dv dgo.Value
	var dm interface{}
	if g.P(.35) {
		ls := literals(dialect)
		l := ls[g.Intn(len(ls))]
		if g.P(.2) {
			l = variable{"", "", ""}
		}
		dm = l.value
		dv = mon.ToDgo(dm)
		flags = append(flags, func() { opt("default", l.text) })
	}
	all := g.P(.2)
	if all {
		flags = append(flags, func() { args = append(args, "--all") })
	}
	tp := ""
	if g.P(.25) {
		ts := cmdTypes[dialect]
		if all && g.P(.8) {
			ts = cmdAllTypes[dialect]
		}
		tp = ts[g.Intn(len(ts))]
		flags = append(flags, func() { opt("type", tp) })
	}
	render := ""
	if g.P(.7) {
		render = g.Pick("yaml", "json", "s", "json", "binary", "bogus")
		if g.P(.6) && (render == "binary" || render == "bogus") {
			render = "json"
		}
		flags = append(flags, func() { opt("render-as", render) })
	}
	if ex {
		flags = append(flags, func() { args = append(args, "--explain") })
	}
	if exo {
		flags = append(flags, func() { args = append(args, "--explain-options") })
	}
	if fn != "" {
		flags = append(flags, func() { opt("config", fn) })
	}
	if g.P(.1) {
		flags = append(flags, func() { opt("loglevel", g.Pick("error", "warn", "info", "debug")) })
	}
	for _, k := range g.Perm(len(flags)) {
		flags[k]()
	}
	if g.P(.5) {
		args = append(args, keys...)
	} else if g.P(.5) {
		args = append(append([]string{}, keys...), args...)
	} else {
		args = append(append(args, "--"), keys...)
	}

	// What the library finds
	cfg := fn
	if cfg == "" {
		cfg = filepath.Join(cwd, "hiera.yaml")
		if w.Cfg.FileName != "" {
			cfg = filepath.Join(cwd, w.Cfg.FileName)
		}
	}
	buf := &bytes.Buffer{}
	found := false
	ob := mon.Try(func() dgo.Value {
		if cs.fails {
			panic(errors.New("the variables cannot be loaded"))
		}
		s := session.New(context.Background(), provider.MuxLookupKey, map[string]interface{}{api.HieraDialect: dialect, api.HieraConfig: cfg,
			provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment}}, nil)
		defer s.KillPlugins()
		var t dgo.Type = typ.Any
		if tp != "" {
			if dialect == "dgo" {
				t = streamer.DgoDialect().ParseType(nil, vf.String(tp))
			} else {
				t = pcore.Dialect().ParseType(nil, vf.String(tp))
			}
		}
		var opts dgo.Map
		if merge != "" && merge != "first" {
			opts = vf.Map("merge", merge)
		}
		var x api.Explainer
		if ex || exo {
			x = explain.NewExplainer(exo, exo && !ex)
		}
		iv := s.Invocation(mon.ToDgo(cs.want), x)
		var v dgo.Value
		if all {
			st, ok := t.(dgo.StructMapType)
			if tp != "" && !ok {
				panic(errors.New("not a map type"))
			}
			v = hiera.LookupAll(iv, keys, st, nil, nil, opts)
		} else {
			v = hiera.Lookup2(iv, keys, t, dv, nil, nil, opts, nil)
		}
		found = v != nil
		r := render
		switch {
		case x != nil && r == "":
			r = "s"
		case r == "":
			r = "yaml"
		}
		if x != nil {
			hiera.Render(s, hiera.RenderName(r), x, buf)
		} else if v != nil {
			hiera.Render(s, hiera.RenderName(r), v, buf)
		}
		return v
	})
	if ob.Kind == "error" && strings.Contains(ob.Err, "native value cannot be frozen") {
		c.Add("values that dgo cannot handle", 1) // a string that dgo converted to a map
		return
	}
	got, ended := runCommand(bin, cwd, env, stdin, args...)
	desc := fmt.Sprintf("case %d: lookup %q", i, args)
	detail := map[string]interface{}{"world": w.Dump(), "args": args, "stdout": string(got.out), "stderr": string(got.err), "exit status": got.code,
		"expected": buf.String(), "library": ob.String(), "files": cs.files, "cwd": cwd, "env": env, "stdin": stdin}
	if !ended {
		c.Violation(desc+" doesn't end", detail)
		return
	}
	c.Case(fmt.Sprintf("%q %q %d", args, got.out, got.code))
	for _, a := range args {
		if strings.HasPrefix(a, "--") {
			c.Seen("options", strings.SplitN(a, "=", 2)[0])
		}
	}
	if ob.Kind == "error" {
		c.Add("failures", 1)
		if got.code == 0 || len(got.err) == 0 || !bytes.Equal(got.out, buf.Bytes()) {
			// The beginning of a value that cannot be rendered may have been printed
			c.Violation(fmt.Sprintf("%s should fail with %s: exit status %d, output %q, expected %q, message %q", desc, ob, got.code, got.out, buf, got.err), detail)
		}
		return
	}
	if got.code != 0 || len(got.err) > 0 {
		c.Violation(fmt.Sprintf("%s: exit status %d, %q, expected %q", desc, got.code, got.err, buf), detail)
		return
	}
	if !bytes.Equal(got.out, buf.Bytes()) {
		c.Violation(fmt.Sprintf("%s prints %q, expected %q", desc, got.out, buf), detail)
		return
	}
	switch {
	case ex || exo:
		c.Add("explanations", 1)
	case found:
		c.Add("outputs compared", 1)
		c.Sample(map[string]interface{}{"args": args, "stdout": string(got.out)})
	default:
		c.Add("empty outputs", 1)
	}

	// What the model predicts
	if dialect != "dgo" || all || tp != "" || ex || exo {
		return
	}
	w.Inv = cs.want
	defer func() { w.Inv = nil }()
	want := model.Outcome{Kind: "absent"}
	for _, k := range keys {
		var m interface{}
		if merge != "" && merge != "first" {
			m = merge
		}
		if want = model.NewEval(w).Lookup(k, m); want.Kind != "absent" {
			break
		}
	}
	if want.Kind == "absent" && dm != nil {
		want = model.Outcome{Kind: "value", V: dm}
	}
	if want.Kind == "unsupported" {
		return
	}
	c.Add("outputs predicted by the model", 1)
	switch want.Kind {
	case "error":
		c.Violation(desc+" should have failed", detail)
	case "absent":
		if len(got.out) > 0 {
			c.Violation(fmt.Sprintf("%s prints %q, expected nothing", desc, got.out), detail)
		}
	default:
		if render != "json" || strings.Contains(mv.Canon(want.V), "sensitive(") {
			if len(got.out) == 0 && render != "binary" {
				c.Violation(fmt.Sprintf("%s prints nothing, expected %s", desc, want), detail)
			}
			return
		}
		v, err := parseJSON(got.out)
		if err != nil || mv.CanonJSON(mv.Numeric(v)) != mv.CanonJSON(mv.Numeric(want.V)) {
			c.Violation(fmt.Sprintf("%s prints %q, expected %s", desc, got.out, want), detail)
		}
	}
}

// c21usage gives the command arguments that make no sense, or files that aren't there
func c21usage(c *C, bin string) {
	dir := c.Dir()
	defer c.Drop(dir)
	write(filepath.Join(dir, "data", "common.yaml"), "a: 1\nl: [1, 2]\ns: text\n")
	write(filepath.Join(dir, "vars.yaml"), "v: 1\n")
	write(filepath.Join(dir, "list.yaml"), "[1, 2]\n")
	for _, x := range []struct {
		args []string
		out  string
		fail bool
	}{
		{args: []string{}, fail: true}, {args: []string{"--bogus", "a"}, fail: true}, {args: []string{"--merge"}, fail: true},
		{args: []string{"--config", "/nonexistent/dir/hiera.yaml", "a"}}, {args: []string{"--config", dir, "a"}, fail: true},
		{args: []string{"--dialect", "bogus", "a"}, fail: true}, {args: []string{"--vars", "nofile.yaml", "a"}, fail: true},
		{args: []string{"--facts", "list.yaml", "a"}, fail: true}, {args: []string{"--vars", ".", "a"}, fail: true}, {args: []string{"--var", "nope", "a"}, fail: true},
		{args: []string{"--type", "Bogus[", "a"}, fail: true}, {args: []string{"--type", "Array[Integer]", "a"}, fail: true}, {args: []string{"--render-as", "xml", "a"}, fail: true},
		{args: []string{"--render-as", "binary", "l"}, out: "\x01\x02"}, {args: []string{"--render-as", "binary", "a"}, fail: true},
		{args: []string{"a"}, out: "1\n"}, {args: []string{"--render-as", "s", "s"}, out: "text\n"}, {args: []string{"--render-as", "s", "nope"}}, {args: []string{"nope"}},
		{args: []string{"--default", "", "nope"}, out: "\"\"\n"}, {args: []string{"--default=", "nope"}, out: "\"\"\n"}, {args: []string{"--default", "x", "a"}, out: "1\n"},
		{args: []string{"--default", "x", "nope"}, out: "x\n"}, {args: []string{"--default", "x", "nope", "a"}, out: "1\n"}, {args: []string{"nope", "s", "a"}, out: "text\n"},
		{args: []string{"--all", "nope", "s", "a"}, out: "s: text\na: 1\n"}, {args: []string{"--all", "nope"}, out: "{}\n"}, {args: []string{"--all", "--default", "x", "nope"}, out: "{}\n"},
		{args: []string{"--all", "--type", "String", "a"}, fail: true}, {args: []string{"a..b"}, fail: true}, {args: []string{"lookup_options"}},
		{args: []string{"--merge", "bogus", "a"}, fail: true}, {args: []string{"--render-as", "json", "l"}, out: "[1,2]\n"}, {args: []string{"l.1"}, out: "2\n"}, {args: []string{"l.2"}},
	} {
		got, ended := runCommand(bin, dir, nil, "", x.args...)
		c.Case(fmt.Sprintf("usage %q %q %d", x.args, got.out, got.code))
		c.Add("commands with given outcome", 1)
		bad := ""
		switch {
		case !ended:
			bad = "doesn't end"
		case x.fail && (got.code == 0 || len(got.err) == 0 || len(got.out) > 0):
			bad = "should fail with nothing but a message"
		case !x.fail && (got.code != 0 || string(got.out) != x.out):
			bad = fmt.Sprintf("should print %q", x.out)
		}
		if bad != "" {
			c.Violation(fmt.Sprintf("lookup %q: %s; exit status %d, output %q %q", x.args, bad, got.code, got.out, got.err), nil)
		}
	}

	// What is printed cannot be written
	for _, args := range [][]string{{"a"}, {"--render-as", "json", "l"}, {"--render-as", "s", "s"}, {"--render-as", "binary", "l"}, {"--all", "a", "s"}, {"--default", "x", "nope"}, {"--explain", "a"}} {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			c.Add("tests without /dev/full", 1)
			break
		}
		eb := &bytes.Buffer{}
		cmd := exec.Command(bin, args...)
		cmd.Dir, cmd.Stdout, cmd.Stderr = dir, full, eb
		err = cmd.Run()
		_ = full.Close()
		c.Case(fmt.Sprintf("full %q", args))
		if err == nil || eb.Len() == 0 {
			c.Violation(fmt.Sprintf("lookup %q, with an output that is full: %v, %q", args, err, eb), nil)
		}
	}
}
