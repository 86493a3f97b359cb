// Package mon runs the code under test in the worlds of the reference model and records what it does: the outcome of
// each lookup and every call that a backend function receives.
package mon

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"hv/model"
	"hv/mv"
)

// ToDgo converts a model value
func ToDgo(v interface{}) dgo.Value {
	switch v := v.(type) {
	case nil:
		return nil
	case mv.Null:
		return vf.Nil
	case mv.Sensitive:
		return vf.Sensitive(ToDgo(v.V))
	case mv.Binary:
		return vf.Binary([]byte(v), true)
	case []interface{}:
		vs := make([]dgo.Value, len(v))
		for i, e := range v {
			vs[i] = ToDgo(e)
		}
		return vf.Array(vs)
	case *mv.Map:
		if v == nil {
			return vf.Map()
		}
		m := vf.MapWithCapacity(v.Len())
		for _, k := range v.Keys {
			m.Put(ToDgo(k), ToDgo(v.Get(k)))
		}
		return m
	}
	return vf.Value(mv.Norm(v))
}

// Obs is the observed outcome of a lookup
type Obs struct {
	Kind  string // value, absent, error or crash
	Canon string
	Err   string
	V     dgo.Value
}

// String is the outcome in a form that compares to that of the model
func (o Obs) String() string {
	if o.Kind == "error" {
		return "<error: " + o.Err + ">"
	}
	return o.Canon
}

// Same is true when the outcomes are the same, where all errors are considered to be the same
func (o Obs) Same(m model.Outcome) bool { return o.Canon == m.Canon() }

// Try calls the function and observes the outcome
func Try(f func() dgo.Value) (o Obs) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case runtime.Error:
			o = Obs{Kind: "error", Canon: "<error>", Err: "runtime error: " + e.Error()}
		case error:
			o = Obs{Kind: "error", Canon: "<error>", Err: e.Error()}
		case string:
			o = Obs{Kind: "error", Canon: "<error>", Err: e}
		default:
			o = Obs{Kind: "crash", Canon: "<crash>", Err: fmt.Sprint(e)}
		}
	}()
	v := f()
	if v == nil {
		return Obs{Kind: "absent", Canon: "<absent>"}
	}
	return Obs{Kind: "value", Canon: mv.CanonDgo(v), V: v}
}

// Env is a world that sessions can be started in
type Env struct {
	W      *model.World
	lock   sync.Mutex
	events []model.Event
	// Hook, when set, is called by every backend function before it returns
	Hook func(fn, id, loc, key string)
	// Extra is added to the session options
	Extra map[string]interface{}
	// NoTrace disables the recording of events
	NoTrace bool
	// Explain makes the functions explain each call
	Explain bool
	// Parent is the parent of the loader of the session
	Parent dgo.Loader
	// Plugins means that all functions are provided by plugins
	Plugins bool
	// Log is the file where plugins record the calls that they receive
	Log    string
	logPos int64
}

// NewEnv creates the environment. The world must have been written
func NewEnv(w *model.World) *Env { return &Env{W: w} }

// Take returns and forgets the recorded events
func (e *Env) Take() []model.Event {
	e.lock.Lock()
	defer e.lock.Unlock()
	if e.Log != "" {
		e.readLog()
	}
	r := e.events
	e.events = nil
	return r
}

// readLog adds the calls that plugins have recorded since last time
func (e *Env) readLog() {
	f, err := os.Open(e.Log)
	if err != nil {
		return
	}
	defer f.Close()
	_, _ = f.Seek(e.logPos, io.SeekStart)
	bs, err := io.ReadAll(f)
	if err != nil {
		panic(err)
	}
	e.logPos += int64(len(bs))
	for _, l := range bytes.Split(bs, []byte{'\n'}) {
		if len(l) > 0 {
			var ev model.Event
			if err = json.Unmarshal(l, &ev); err != nil {
				panic(err)
			}
			e.events = append(e.events, ev)
		}
	}
}

func str(v dgo.Value) string {
	if s, ok := v.(dgo.String); ok {
		return s.GoString()
	}
	return ""
}

func (e *Env) record(pc sdk.ProviderContext, fn, key string) (string, string) {
	id := str(pc.Option("id"))
	loc := model.RelLoc(e.W.Root, str(pc.Option("path")))
	if !e.NoTrace {
		e.lock.Lock()
		e.events = append(e.events, model.Event{Fn: fn, ID: id, Loc: loc, Key: key, Opts: mv.CanonDgo(pc.OptionsMap())})
		e.lock.Unlock()
	}
	if e.Explain {
		if sc, ok := pc.(api.ServerContext); ok {
			sc.Explain(func() string { return "asked " + model.Event{Fn: fn, ID: id, Loc: loc, Key: key}.String() })
		}
	}
	if e.Hook != nil {
		e.Hook(fn, id, loc, key)
	}
	return id, loc
}

// Functions returns the backend functions
func (e *Env) Functions() dgo.Map {
	return vf.Map(
		"hv_hash", func(pc sdk.ProviderContext) dgo.Map {
			id, loc := e.record(pc, "hv_hash", "")
			return ToDgo(e.W.Tables[id][loc]).(dgo.Map)
		},
		"hv_key", func(pc sdk.ProviderContext, key string) dgo.Value {
			id, loc := e.record(pc, "hv_key", key)
			return ToDgo(e.W.Tables[id][loc].Get(key))
		},
		"hv_dig", func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			id, loc := e.record(pc, "hv_dig", mv.CanonDgo(key))
			return ToDgo(e.W.Tables[id][loc].Get(str(key.Get(0))))
		})
}

// Options returns the session options
func (e *Env) Options() map[string]interface{} {
	opts := map[string]interface{}{api.HieraRoot: e.W.Root}
	if !e.Plugins {
		opts[api.HieraFunctions] = e.Functions()
	}
	if fn := e.W.Cfg.FileName; fn != "" {
		opts[api.HieraConfigFileName] = fn
	}
	if e.W.Sess != nil {
		opts[api.HieraScope] = ToDgo(e.W.Sess)
	}
	if len(e.W.ModPaths) > 0 {
		opts[provider.ModulePath] = e.W.ModulePath()
	}
	if e.W.Providers != nil {
		fs := make([]sdk.LookupKey, len(e.W.Providers))
		for i, p := range e.W.Providers {
			fs[i] = e.provider(p)
			if p == "yaml" {
				opts["path"] = e.W.YamlPath()
			}
		}
		opts[provider.LookupKeyFunctions] = fs
	}
	for k, v := range e.Extra {
		opts[k] = v
	}
	return opts
}

func (e *Env) provider(p string) sdk.LookupKey {
	switch p {
	case "config":
		return provider.ConfigLookupKey
	case "module":
		return provider.ModuleLookupKey
	case "env":
		return provider.Environment
	case "yaml":
		return provider.YamlLookupKey
	case "scope":
		return provider.ScopeLookupKey
	}
	return func(pc sdk.ProviderContext, key string) dgo.Value {
		if pc.(api.ServerContext).Invocation().LookupOptionsMode() {
			return nil
		}
		if !e.NoTrace {
			e.lock.Lock()
			e.events = append(e.events, model.Event{Fn: "custom", ID: p, Key: key})
			e.lock.Unlock()
		}
		if e.Hook != nil {
			e.Hook("custom", p, "", key)
		}
		return ToDgo(e.W.Tables[p][""].Get(key))
	}
}

// Top returns the top provider
func (e *Env) Top() sdk.LookupKey {
	if e.W.Providers == nil {
		return provider.ConfigLookupKey
	}
	return provider.MuxLookupKey
}

// Session creates a session
func (e *Env) Session() api.Session {
	return session.New(context.Background(), e.Top(), e.Options(), e.Parent)
}

// Inv creates an invocation with the invocation scope of the world
func (e *Env) Inv(s api.Session, ex api.Explainer) api.Invocation {
	if e.W.Inv == nil {
		return s.Invocation(nil, ex)
	}
	return s.Invocation(ToDgo(e.W.Inv), ex)
}

// MergeOption creates the options argument for a lookup
func MergeOption(merge interface{}) interface{} {
	if merge == nil {
		return nil
	}
	return vf.Map("merge", ToDgo(merge))
}

// Lookup performs a lookup in a new invocation of the session
func (e *Env) Lookup(s api.Session, key string, merge interface{}) Obs {
	return Try(func() dgo.Value { return hiera.Lookup(e.Inv(s, nil), key, nil, MergeOption(merge)) })
}

// SetEnv sets the environment variables of the world, and returns a function that restores them
func SetEnv(env map[string]string) func() {
	old := map[string]*string{}
	for k, v := range env {
		if o, ok := os.LookupEnv(k); ok {
			oc := o
			old[k] = &oc
		} else {
			old[k] = nil
		}
		_ = os.Setenv(k, v)
	}
	return func() {
		for k, o := range old {
			if o == nil {
				_ = os.Unsetenv(k)
			} else {
				_ = os.Setenv(k, *o)
			}
		}
	}
}
