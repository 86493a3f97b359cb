// Package model is the reference model of hiera: given a world (configurations, data files, modules, scopes and backend
// data) it predicts the outcome of every lookup and the calls that backend functions receive. It shares no code with the
// implementation that it judges.
package model

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	"hv/mv"
)

// Loc is the location part of an entry
type Loc struct {
	Kind string // path, paths, glob, globs, uri, uris, mapped_paths
	Args []string
}

// Entry is an entry in a hierarchy, or the defaults
type Entry struct {
	Name       string
	FnKind     string // data_hash, lookup_key, data_dig, or empty
	FnName     string
	DataDir    string
	PluginDir  string
	PluginFile string
	Options    *mv.Map
	Loc        *Loc
}

// File is a data file
type File struct {
	Format string // yaml, flow or json
	V      *mv.Map
	Raw    string // used when V is nil
}

// Text returns the content of the file
func (f *File) Text() string {
	switch {
	case f.V == nil:
		return f.Raw
	case f.Format == "yaml":
		return mv.YAML(f.V)
	default:
		return mv.JSON(f.V)
	}
}

// Config is a hiera.yaml and the data files next to it
type Config struct {
	Absent      bool // no hiera.yaml
	NoHierarchy bool
	FileName    string // default hiera.yaml
	Defaults    *Entry
	Entries     []*Entry
	Files       map[string]*File // paths relative to the directory of the config
	Raw         string           // overrides everything above except Files
}

// Mod is a directory in a module path
type Mod struct {
	Dir   string
	Cfg   *Config // nil when the directory has no configuration
	Plain bool    // not a directory but a plain file
	Link  bool    // a symbolic link to a directory with another name, or to nothing when there's no configuration
}

// ModPath is one element of the module path
type ModPath struct {
	Dir     string // relative to the root
	Missing bool
	Mods    []*Mod
}

// World is everything that determines the outcome of lookups
type World struct {
	Root      string
	Cfg       *Config
	ModPaths  []*ModPath
	Sess      *mv.Map
	Inv       *mv.Map
	Env       map[string]string             // HIERA_DATADIR and variables for the environment provider
	AllEnv    bool                          // Env is the complete environment
	Providers []string                      // nil means that the configuration provider is the top provider
	Tables    map[string]map[string]*mv.Map // data of backend functions: id -> location -> data
}

func entryMap(e *Entry, named bool) *mv.Map {
	m := mv.NewMap()
	if named {
		m.Put("name", e.Name)
	}
	if e.FnKind != "" {
		m.Put(e.FnKind, e.FnName)
	}
	if e.DataDir != "" {
		m.Put("datadir", e.DataDir)
	}
	if e.PluginDir != "" {
		m.Put("plugindir", e.PluginDir)
	}
	if e.PluginFile != "" {
		m.Put("pluginfile", e.PluginFile)
	}
	if e.Options != nil {
		m.Put("options", e.Options)
	}
	if e.Loc != nil {
		switch e.Loc.Kind {
		case "path", "glob", "uri":
			m.Put(e.Loc.Kind, e.Loc.Args[0])
		default:
			l := make([]interface{}, len(e.Loc.Args))
			for i, a := range e.Loc.Args {
				l[i] = a
			}
			m.Put(e.Loc.Kind, l)
		}
	}
	return m
}

// Text returns the content of the hiera.yaml
func (c *Config) Text() string {
	if c.Raw != "" {
		return c.Raw
	}
	return mv.YAML(c.Map())
}

// Map returns the content of the hiera.yaml as a map
func (c *Config) Map() *mv.Map {
	m := mv.NewMap("version", 5)
	if c.Defaults != nil {
		m.Put("defaults", entryMap(c.Defaults, false))
	}
	if !c.NoHierarchy {
		h := make([]interface{}, len(c.Entries))
		for i, e := range c.Entries {
			h[i] = entryMap(e, true)
		}
		m.Put("hierarchy", h)
	}
	return m
}

func write(fn, text string) {
	if err := os.MkdirAll(filepath.Dir(fn), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(fn, []byte(text), 0644); err != nil {
		panic(err)
	}
}

// Write writes the configuration and its data files in the given directory
func (c *Config) Write(dir string) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	if !c.Absent {
		fn := c.FileName
		if fn == "" {
			fn = "hiera.yaml"
		}
		write(filepath.Join(dir, fn), c.Text())
	}
	ps := make([]string, 0, len(c.Files))
	for p := range c.Files {
		ps = append(ps, p)
	}
	// Written in reverse alphabetical order since the order in which a file system lists files often depends on
	// the order of their creation.
	sort.Sort(sort.Reverse(sort.StringSlice(ps)))
	for i := 0; i+2 < len(ps); i += 3 {
		ps[i], ps[i+2] = ps[i+2], ps[i]
	}
	for _, p := range ps {
		write(filepath.Join(dir, p), c.Files[p].Text())
	}
}

// ModulePath returns the value for the module path option
func (w *World) ModulePath() string {
	ps := make([]string, len(w.ModPaths))
	for i, p := range w.ModPaths {
		ps[i] = filepath.Join(w.Root, p.Dir)
	}
	return strings.Join(ps, string(filepath.ListSeparator))
}

// Write writes the world in the given directory which then becomes its root
func (w *World) Write(root string) {
	w.Root = root
	w.Cfg.Write(root)
	for _, p := range w.Providers {
		if p == "yaml" {
			write(w.YamlPath(), (&File{Format: "yaml", V: w.Tables[p][""]}).Text())
		}
	}
	for _, p := range w.ModPaths {
		if p.Missing {
			continue
		}
		pd := filepath.Join(root, p.Dir)
		if err := os.MkdirAll(pd, 0755); err != nil {
			panic(err)
		}
		for _, m := range p.Mods {
			md := filepath.Join(pd, m.Dir)
			switch {
			case m.Plain:
				write(md, "plain")
			case m.Link:
				target := filepath.Join(root, "links", p.Dir, m.Dir+".git")
				if err := os.Symlink(target, md); err != nil {
					panic(err)
				}
				if m.Cfg != nil {
					if err := os.MkdirAll(target, 0755); err != nil {
						panic(err)
					}
					m.Cfg.Write(md)
				}
			case m.Cfg == nil:
				write(filepath.Join(md, "README"), "nothing")
			default:
				m.Cfg.Write(md)
			}
		}
	}
}

// YamlPath is the path of the file that the yaml provider uses
func (w *World) YamlPath() string { return filepath.Join(w.Root, "all data.yaml") }

// Dump describes the world for a replay file
func (w *World) Dump() interface{} {
	files := map[string]string{}
	_ = filepath.Walk(w.Root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && fi.Size() < 100000 {
			bs, _ := os.ReadFile(p)
			rp, _ := filepath.Rel(w.Root, p)
			files[rp] = string(bs)
		}
		return nil
	})
	tables := map[string]string{}
	for id, t := range w.Tables {
		for l, m := range t {
			tables[id+" @ "+l] = mv.JSON(m)
		}
	}
	d := map[string]interface{}{"files": files, "providers": w.Providers, "backend data": tables, "env": w.Env}
	if w.Sess != nil {
		d["session scope"] = mv.JSON(w.Sess)
	}
	if w.Inv != nil {
		d["invocation scope"] = mv.JSON(w.Inv)
	}
	return d
}
