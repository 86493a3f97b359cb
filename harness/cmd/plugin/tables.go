package main

import (
	"encoding/json"
	"os"
	"path/filepath"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hierasdk/hiera"

	"hv/model"
	"hv/mon"
	"hv/mv"
)

// tables are the data of a generated world. They are read from the file hv-tables.json in a directory above the plugin.
type tables struct {
	Root   string
	Tables map[string]map[string]string
	log    string
}

// findTables returns nil if there are no tables
func findTables() *tables {
	d, err := filepath.Abs(filepath.Dir(os.Args[0]))
	if err != nil {
		return nil
	}
	for n := 0; n < 6; n++ {
		if bs, err := os.ReadFile(filepath.Join(d, "hv-tables.json")); err == nil {
			t := &tables{}
			if err = json.Unmarshal(bs, t); err != nil {
				panic(err)
			}
			t.log = filepath.Join(d, "hv-calls.log")
			return t
		}
		d = filepath.Dir(d)
	}
	return nil
}

func text(v dgo.Value) string {
	if s, ok := v.(dgo.String); ok {
		return s.GoString()
	}
	return ""
}

func (t *tables) lookup(pc hiera.ProviderContext, fn, key string) *mv.Map {
	opts := pc.OptionsMap()
	if opts == nil {
		opts = vf.Map()
	}
	id := text(opts.Get("id"))
	loc := model.RelLoc(t.Root, text(opts.Get("path")))
	b, _ := json.Marshal(model.Event{Fn: fn, ID: id, Loc: loc, Key: key, Opts: mv.CanonDgo(opts)})
	lock.Lock()
	defer lock.Unlock()
	if f, err := os.OpenFile(t.log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
		_, _ = f.Write(append(b, '\n'))
		_ = f.Close()
	}
	if s := t.Tables[id][loc]; s != "" {
		return mv.Decode(s).(*mv.Map)
	}
	return mv.NewMap()
}

func (t *tables) hash(pc hiera.ProviderContext) dgo.Map {
	return mon.ToDgo(t.lookup(pc, "hv_hash", "")).(dgo.Map)
}

func (t *tables) key(pc hiera.ProviderContext, key string) dgo.Value {
	return mon.ToDgo(t.lookup(pc, "hv_key", key).Get(key))
}

func (t *tables) dig(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
	return mon.ToDgo(t.lookup(pc, "hv_dig", mv.CanonDgo(key)).Get(text(key.Get(0))))
}
