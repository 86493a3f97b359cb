package checks

import "hv/gen"

func init() {
	register("C01", "a lookup that found a value, or during which at least one backend function was called; distinct by key, value and sequence of calls",
		func(c *C) {
			plain := func(g *gen.G) *gen.Profile {
				p := gen.Default()
				p.LuOpts, p.InterpVal, p.InterpKey, p.InterpCfg = .1, 0, 0, .05
				p.Strategy, p.Convert = 0, 0
				p.Null, p.Sparse = .15, .6
				p.Entries = 6
				p.Key, p.Dig = 6, 4
				return p
			}
			c.RunWorlds(WorldRun{Name: "first", Profile: plain, Worlds: c.N(1500, 20000), Keys: 8})
			c.RunWorlds(WorldRun{Name: "mux", Profile: func(g *gen.G) *gen.Profile {
				p := plain(g)
				p.HasModules = true
				p.Providers = [][]string{{"config"}, {"config", "module"}, {"custom1", "config", "custom2"}, {"custom1", "module", "config"}, {"yaml", "config"}, {"config", "scope", "yaml"}}
				return p
			}, Worlds: c.N(700, 10000), Keys: 8})
			c.RunWorlds(WorldRun{Name: "any", Profile: func(g *gen.G) *gen.Profile { return gen.Default() }, Worlds: c.N(500, 8000), Keys: 8})
			c.Need("backend calls observed", 5000)
			c.Need("outcome value", 3000)
		})
}
