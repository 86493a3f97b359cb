package checks

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"hv/gen"
	"hv/mon"
	"hv/mv"
)

// tree generates files, by name, for a configuration and for modules whose names may differ in case only
func c22tree(g *gen.G) map[string]string {
	files := map[string]string{}
	config := func(root, prefix string) {
		globs := []string{"*.yaml", "**/*.yaml", "{a,b,c}*.yaml", "?1.yaml", "d?/*.yaml", "[ab]*/*.yaml", "*/*.yaml", "*1*", "%{v}*.yaml"}
		e := []string{}
		for k := 0; k < 1+g.Intn(3); k++ {
			loc := fmt.Sprintf("glob: %q", globs[g.Intn(len(globs))])
			switch g.Intn(4) {
			case 0:
				loc = fmt.Sprintf("globs: [%q, %q]", globs[g.Intn(len(globs))], globs[g.Intn(len(globs))])
			case 1:
				loc = fmt.Sprintf("path: %q", g.Pick("a1.yaml", "d1/b1.yaml", "A1.yaml"))
			}
			e = append(e, fmt.Sprintf("{name: e%d, %s}", k, loc))
		}
		files[filepath.Join(root, "hiera.yaml")] = "version: 5\nhierarchy: [" + strings.Join(e, ", ") + "]\n"
		for _, fn := range []string{"a1", "a2", "A1", "b1", "B1", "c1", "c10", "c2", "d1/a1", "d1/b1", "d2/a1", "d2/b1", "D1/a1", "b/x1", "a/x1", "a/d1/x"} {
			if g.P(.4) {
				continue
			}
			fn += ".yaml"
			m := mv.NewMap()
			for _, k := range []string{"x", "y", "z"} {
				switch at := root + "/" + fn; g.Intn(4) {
				case 0:
					m.Put(prefix+k, at)
				case 1:
					m.Put(prefix+k, mv.L(at, g.Pick("s", "t", "u")))
				case 2:
					m.Put(prefix+k, mv.NewMap("at", at, fn, true, "l", mv.L(at)))
				}
			}
			if g.P(.3) {
				m.Put("lookup_options", mv.NewMap(prefix+"x", mv.NewMap("merge", g.Pick("first", "deep", "unique", "hash")), prefix+"y", mv.NewMap("merge", g.Pick("first", "deep", "unique", "hash"))))
			}
			files[filepath.Join(root, "data", fn)] = mv.YAML(m)
		}
	}
	config(".", "")
	for _, p := range []string{"m1", "m2"} {
		for _, mn := range []string{"one", "One", "ONE", "oNe", "two", "Two"} {
			switch g.Intn(4) {
			case 0, 1:
				config(filepath.Join(p, mn), strings.ToLower(mn)+"::")
			case 2:
				files[filepath.Join(p, mn, "README")] = "nothing"
			}
		}
	}
	return files
}

// c22order creates the same files in different orders. Many file systems, among them those in memory, list the files of a
// directory in an order that depends on that in which they were created.
func (c *C) c22order() {
	c.Parallel(c.N(400, 8000), func(i int) {
		g := c.G("order", i)
		files := c22tree(g)
		var names []string
		for n := range files {
			names = append(names, n)
		}
		sort.Strings(names)
		type q struct {
			key     string
			merge   interface{}
			explain bool
		}
		var qs []q
		for _, k := range []string{"x", "y", "z", "one::x", "one::y", "one::z", "two::x", "two::y", "ONE::x"} {
			qs = append(qs, q{k, nil, false}, q{k, g.MergeOpt(0), g.P(.3)})
		}
		var first []string
		orders := map[string]bool{}
		for round := 0; round < 3; round++ {
			dir := c.Dir()
			perm := g.Perm(len(names))
			for _, k := range perm {
				write(filepath.Join(dir, names[k]), files[names[k]])
			}
			listed := ""
			for _, d := range []string{"m1", "m2", "data"} { // what this file system makes of it
				if f, err := os.Open(filepath.Join(dir, d)); err == nil {
					ns, _ := f.Readdirnames(-1)
					_ = f.Close()
					listed += strings.Join(ns, " ") + "|"
				}
			}
			orders[listed] = true
			s := session.New(context.Background(), provider.MuxLookupKey, map[string]interface{}{
				api.HieraRoot: dir, api.HieraConfigFileName: "hiera.yaml", api.HieraScope: map[string]interface{}{"v": "a"},
				provider.ModulePath:         filepath.Join(dir, "m1") + string(os.PathListSeparator) + filepath.Join(dir, "m2"),
				provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey}}, nil)
			var got []string
			for _, x := range qs {
				var ex api.Explainer
				if x.explain {
					ex = explain.NewExplainer(false, false)
				}
				o := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(nil, ex), x.key, nil, mon.MergeOption(x.merge)) })
				r := o.String()
				if ex != nil {
					r += "\n" + ex.String()
				}
				got = append(got, fmt.Sprintf("%s (merge %s): %s", x.key, mv.Canon(x.merge), strings.ReplaceAll(r, dir, "ROOT")))
			}
			s.KillPlugins()
			c.Drop(dir)
			if round == 0 {
				first = got
				continue
			}
			for k := range got {
				c.Case("order " + got[k])
				c.Add("lookups in the same files, created in another order", 1)
				if got[k] != first[k] {
					c.Violation(fmt.Sprintf("case order%d: the result depends on the order in which files were created: %s, and %s", i, got[k], first[k]),
						map[string]interface{}{"files": files})
					return
				}
			}
		}
		if len(orders) > 1 {
			c.Add("sets of files that the file system listed in different orders", 1)
		}
	})
	c.Need("lookups in the same files, created in another order", 2000)
}
