package checks

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C07", "a lookup in a world with a generated configuration that found a value or called a backend function; distinct by key, value, locations and options", c07)
}

func c07(c *C) {
	prof := func(g *gen.G) *gen.Profile {
		p := gen.Default()
		p.InterpVal, p.InterpKey, p.InterpCfg = 0, 0, .5
		p.LuOpts = .1
		p.Defaults, p.OptionsP = .5, .7
		p.Sparse, p.Missing = .3, .35
		p.Yaml, p.JSON, p.Hash, p.Key, p.Dig = 4, 2, 4, 6, 4
		p.Glob, p.Globs, p.Mapped, p.URIs = 4, 3, 5, 3
		p.NoLoc = 2
		p.Absent = .08
		p.NoScope = .03
		return p
	}
	each := func(wc *WorldCase) {
		for _, e := range wc.Eval.Trace {
			c.Seen("options received", e.Opts)
			c.Seen("locations", e.Loc)
		}
		if wc.World.Cfg.Absent || wc.World.Cfg.NoHierarchy {
			if wc.Want.Kind == "value" {
				c.Add("values found without a configured hierarchy", 1)
			}
		}
	}
	// All sources are asked when the merge is deep, so use that a lot
	c.RunWorlds(WorldRun{Name: "cfg", Profile: prof, Worlds: c.N(2600, 40000), Keys: 6, MergeP: .6, Each: each})
	c.RunWorlds(WorldRun{Name: "mod", Profile: func(g *gen.G) *gen.Profile {
		p := prof(g)
		p.HasModules = true
		p.Providers = [][]string{{"config", "module"}, {"module"}}
		return p
	}, Worlds: c.N(300, 6000), Keys: 6, MergeP: .6, Each: each})
	c.RunWorlds(WorldRun{Name: "datadir", Profile: func(g *gen.G) *gen.Profile {
		p := prof(g)
		p.DataDirEnv = .8
		p.Absent = .25
		return p
	}, Env: true, Worlds: c.N(250, 3000), Keys: 6, MergeP: .5, Each: each})

	// The different ways to appoint the configuration
	for i := 0; i < c.N(200, 2000) && c.Violations() < 10; i++ {
		g := c.G("appoint", i)
		w := gen.Build(g, prof(g))
		fn := g.Pick("", "hiera.yaml", "other.yaml", "sub/cfg.yaml")
		w.Cfg.FileName = fn
		root := c.Dir()
		sub := root
		if fn == "sub/cfg.yaml" {
			sub = filepath.Join(root, "sub")
			w.Cfg.FileName = "cfg.yaml"
		}
		w.Write(sub)
		gen.Fill(g, prof(g), w)
		if fn == "" {
			fn = "hiera.yaml"
		}
		// decoys in other places
		for _, d := range []string{"hiera.yaml", "other.yaml"} {
			if p := filepath.Join(root, d); d != fn {
				if _, err := os.Stat(p); err != nil {
					_ = os.WriteFile(p, []byte("version: 4\n"), 0644)
				}
			}
		}
		how := g.Intn(4)
		env := mon.NewEnv(w)
		w.Cfg.FileName = ""
		undo := func() {}
		switch how {
		case 0:
			env.Extra = map[string]interface{}{api.HieraConfig: filepath.Join(root, fn)}
		case 1:
			env.Extra = map[string]interface{}{api.HieraRoot: root, api.HieraConfigFileName: fn}
		case 2:
			env.Extra = map[string]interface{}{api.HieraRoot: root}
			undo = mon.SetEnv(map[string]string{"HIERA_CONFIGFILE": fn})
		case 3: // the config wins over everything else
			env.Extra = map[string]interface{}{api.HieraRoot: "/nonexistent", api.HieraConfigFileName: "nope.yaml", api.HieraConfig: filepath.Join(root, fn)}
		}
		s := env.Session()
		undo()
		gw := gen.NewW(g, prof(g), w)
		for j := 0; j < 5; j++ {
			key := gw.Key()
			m := g.MergeOpt(.5)
			want := model.NewEval(w).Lookup(key, m)
			if want.Kind == "unsupported" {
				continue
			}
			got := env.Lookup(s, key, m)
			c.Case(fmt.Sprint(how, fn, key, want))
			c.Add("lookups with an appointed configuration", 1)
			if !got.Same(want) {
				c.Violation(fmt.Sprintf("lookup of %s with the configuration %s appointed by method %d: expected %s, observed %s", key, fn, how, want, got),
					map[string]interface{}{"case": i, "world": w.Dump(), "merge": mv.Canon(m)})
				break
			}
		}
		c.Drop(root)
	}
	c07odd(c)
	c.Need("options received", 500)
	c.Need("values found without a configured hierarchy", 50)
}

// c07odd has roots, data directories and files with names that contain characters that are special in patterns
func c07odd(c *C) {
	names := append([]string{"p", "b\\", "}", "a,b", "p:q", "[^a]", "?", "*"}, OddNames...)
	for i := 0; i < c.N(600, 6000) && c.Violations() < 10; i++ {
		g := c.G("odd", i)
		root, dd, sub := g.Pick(names...), g.Pick(names...), g.Pick("", "", g.Pick(names...))
		// strings in a scope and in a configuration are interpolated
		if strings.Contains(dd, "%{") {
			dd = "plain"
		}
		if strings.Contains(sub, "%{") {
			sub = "[p]"
		}
		top := c.Dir()
		base := filepath.Join(top, root)
		place := g.Intn(3) // relative to the root, absolute, or interpolated
		if strings.Contains(root, "%{") {
			place = 0
		}
		dir := filepath.Join(base, dd)
		if place == 1 {
			dir = filepath.Join(top, "abs", dd)
		}
		in := filepath.Join(dir, sub)
		// The files are in the directory, decoys in directories that the name would match as a pattern
		for n, f := range []string{"a.yaml", "b.yaml", "c.yaml"} {
			write(filepath.Join(in, f), fmt.Sprintf("k: [%d]\n", n+1))
			for _, d := range []string{"p", "q", "b", "a", "plain"} {
				for _, dec := range []string{filepath.Join(top, d, dd, sub), filepath.Join(filepath.Dir(dir), d, sub), filepath.Join(dir, d)} {
					if _, err := os.Stat(filepath.Join(dec, f)); err != nil && (sub != "" || dec != filepath.Join(dir, d)) {
						write(filepath.Join(dec, f), "k: [decoy]\n")
					}
				}
			}
		}
		var loc, pat string
		var want []interface{}
		pre := ""
		if sub != "" {
			pre = sub + "/"
		}
		if strings.ContainsAny(sub, "*?[]{}\\%$") {
			pre = "%{sub}/"
		}
		special := strings.ContainsAny(sub, "*?[{\\")
		switch k := g.Intn(6); {
		case k == 0 || special && k > 2:
			loc, pat, want = "path", pre+"b.yaml", []interface{}{2}
		case k == 1:
			loc, pat, want = "paths", pre+"b.yaml|"+pre+"x.yaml|"+pre+"a.yaml", []interface{}{2, 1}
		case k == 2:
			loc, pat, want = "mapped_paths", pre, []interface{}{3, 1}
		case k == 3:
			loc, pat, want = "glob", pre+"*.yaml", []interface{}{1, 2, 3}
		case k == 4:
			loc, pat, want = "globs", pre+"c.*|"+pre+"{a,b}.yaml", []interface{}{3, 1, 2}
		default:
			loc, pat, want = "glob", pre+"[bc].yaml", []interface{}{2, 3}
		}
		ds := dd
		scope := map[string]interface{}{"sub": sub, "fs": []interface{}{"c", "a"}, "dd": dir}
		switch place {
		case 1:
			ds = dir
		case 2:
			ds = "%{dd}"
		}
		e := map[string]interface{}{"name": "E", "datadir": ds}
		switch loc {
		case "paths", "globs":
			e[loc] = strings.Split(pat, "|")
		case "mapped_paths":
			e[loc] = []string{"fs", "f", pat + "%{f}.yaml"}
		default:
			e[loc] = pat
		}
		write(filepath.Join(base, "hiera.yaml"), "")
		b, err := json.Marshal(map[string]interface{}{"version": 5, "hierarchy": []interface{}{e}})
		if err != nil {
			panic(err)
		}
		write(filepath.Join(base, "hiera.yaml"), string(b))
		got := mon.Try(func() (v dgo.Value) {
			hiera.DoWithParent(context.Background(), provider.ConfigLookupKey, map[string]interface{}{api.HieraRoot: base, api.HieraScope: vf.Value(scope)}, func(s api.Session) {
				v = hiera.Lookup(s.Invocation(nil, nil), "k", nil, map[string]string{"merge": "unique"})
			})
			return
		})
		ws, gs := mv.Canon(want), got.Canon
		c.Case(fmt.Sprint(root, dd, sub, place, loc, pat))
		c.Add("lookups in directories with special names", 1)
		if gs != ws {
			c.Violation(fmt.Sprintf("root %q, data directory %q, %s %q: expected %s, observed %s", root, ds, loc, pat, ws, got),
				map[string]interface{}{"case": i, "sub": sub, "config": string(b)})
		}
		c.Drop(top)
	}
	c.Need("lookups in directories with special names", 200)
}
