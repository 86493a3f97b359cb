package checks

import (
	"context"
	"fmt"
	"os"
	"path/filepath"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"hv/mon"
	"hv/mv"
)

// c08closed has configurations that exist and are valid, but that the user isn't permitted to read, or to find. A lookup
// that uses one of them fails. It never falls back on the default configuration or on the next module of the same name.
func c08closed(c *C) {
	dir := c.Dir()
	defer c.Drop(dir)
	valid := "version: 5\nhierarchy:\n  - {name: a, path: a.yaml}\n"
	place := func(d, prefix, v string, mode os.FileMode) {
		write(filepath.Join(dir, d, "hiera.yaml"), valid)
		write(filepath.Join(dir, d, "data/a.yaml"), prefix+"k: "+v+"\n")
		write(filepath.Join(dir, d, "data.yaml"), prefix+"k: default "+v+"\n")
		if err := os.Chmod(filepath.Join(dir, d, "hiera.yaml"), mode); err != nil {
			panic(err)
		}
	}
	place("open", "", "open", 0644)
	place("sealed", "", "sealed", 0)
	place("closed", "", "closed", 0644)
	place("none", "", "none", 0644)
	_ = os.Remove(filepath.Join(dir, "none/hiera.yaml"))
	place("m1/good", "good::", "good", 0644)
	place("m1/sealed", "sealed::", "sealed", 0)
	place("m1/closed", "closed::", "closed", 0644)
	place("m2/sealed", "sealed::", "other sealed", 0644)
	place("m2/closed", "closed::", "other closed", 0644)
	place("m2/fine", "fine::", "fine", 0644)
	place("m3/good", "good::", "other good", 0644)
	shut := []string{"closed", "m1/closed", "m3"}
	for _, d := range shut {
		if err := os.Chmod(filepath.Join(dir, d), 0); err != nil {
			panic(err)
		}
	}
	defer func() {
		for _, d := range shut {
			_ = os.Chmod(filepath.Join(dir, d), 0755)
		}
	}()
	p := func(n string) string { return filepath.Join(dir, n) }
	type cas struct {
		name string
		opts map[string]interface{}
		key  string
		want string // "" for an error
	}
	var cases []cas
	root := func(name, want string, opts map[string]interface{}) {
		cases = append(cases, cas{name, opts, "k", want}, cas{name, opts, "absent", map[bool]string{true: "<absent>"}[want != ""]})
	}
	root("readable configuration", "open", map[string]interface{}{api.HieraRoot: p("open")})
	root("no configuration", "default none", map[string]interface{}{api.HieraRoot: p("none")})
	root("configuration without read permission in the root", "", map[string]interface{}{api.HieraRoot: p("sealed")})
	root("configuration in a root that may not be entered", "", map[string]interface{}{api.HieraRoot: p("closed")})
	root("configuration without read permission", "", map[string]interface{}{api.HieraRoot: p("open"), api.HieraConfig: p("sealed/hiera.yaml")})
	root("configuration in a directory that may not be entered", "", map[string]interface{}{api.HieraRoot: p("open"), api.HieraConfig: p("closed/hiera.yaml")})
	root("configuration given by a relative name", "", map[string]interface{}{api.HieraRoot: p("."), api.HieraConfigFileName: "sealed/hiera.yaml"})
	root("configuration below a file", "", map[string]interface{}{api.HieraRoot: p("open"), api.HieraConfig: p("open/hiera.yaml/hiera.yaml")})
	mod := func(name, path, key, want string) {
		for _, both := range []bool{false, true} {
			ps := []sdk.LookupKey{provider.ModuleLookupKey}
			if both {
				ps = []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey}
			}
			cases = append(cases, cas{name, map[string]interface{}{api.HieraRoot: p("open"), provider.ModulePath: path, provider.LookupKeyFunctions: ps}, key, want})
		}
	}
	sep := string(filepath.ListSeparator)
	mod("module with a readable configuration", p("m1")+sep+p("m2"), "good::k", "good")
	mod("module of a later directory", p("m1")+sep+p("m2"), "fine::k", "fine")
	mod("configuration of a module without read permission", p("m1"), "sealed::k", "")
	mod("configuration of a module without read permission", p("m1"), "sealed::absent", "")
	mod("configuration of a module without read permission, and another module of that name", p("m1")+sep+p("m2"), "sealed::k", "")
	mod("module that may not be entered", p("m1"), "closed::k", "")
	mod("module that may not be entered, and another module of that name", p("m1")+sep+p("m2"), "closed::k", "")
	mod("directory of modules that may not be read", p("m3"), "good::k", "")
	mod("directory of modules that may not be read, first of two", p("m3")+sep+p("m1"), "good::k", "")
	c.unprivileged(dir, func(func(func())) {
		for _, cs := range cases {
			// with and without a default value, and with a merge, in one session and in one of its own
			s := session.New(context.Background(), provider.MuxLookupKey, cs.opts, nil)
			one := session.New(context.Background(), provider.ConfigLookupKey, cs.opts, nil)
			for _, dv := range []dgo.Value{nil, vf.String("dflt")} {
				for _, merge := range []interface{}{nil, "unique", "first"} {
					se := s
					if _, ok := cs.opts[provider.LookupKeyFunctions]; !ok {
						se = one
					}
					got := mon.Try(func() dgo.Value {
						return hiera.Lookup(se.Invocation(nil, nil), cs.key, dv, mon.MergeOption(merge))
					})
					c.Case(cs.name + cs.key)
					c.Seen("kinds of configuration", cs.name)
					ok := got.Kind == "error"
					switch {
					case cs.want == "<absent>" && dv != nil:
						ok = got.Canon == mv.Canon("dflt")
					case cs.want == "<absent>":
						ok = got.Canon == cs.want
					case cs.want != "" && merge == "unique": // of one value, which isn't the subject here
						ok = got.Kind == "value"
					case cs.want != "":
						ok = got.Canon == mv.Canon(cs.want)
					default:
						c.Add("lookups that need a configuration that may not be read", 1)
					}
					if !ok {
						want := cs.want
						if want == "" {
							want = "an error"
						}
						c.Violation(fmt.Sprintf("%s: lookup of %s (default %v, merge %v) should be %s, but it is %s", cs.name, cs.key, dv, merge, want, got), nil)
					}
				}
			}
		}
	})
}
