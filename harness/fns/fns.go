// Package fns contains backend functions that are used both in-process and in plugins
package fns

import (
	"errors"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hierasdk/hiera"

	"hv/mon"
	"hv/mv"
)

func opts(pc hiera.ProviderContext) dgo.Map { return pc.OptionsMap() }

func fail(pc hiera.ProviderContext) {
	if s, ok := pc.StringOption("panic"); ok {
		panic(s)
	}
	if s, ok := pc.StringOption("error"); ok {
		panic(errors.New(s))
	}
}

// value tells what was received, and returns the value asked for
func value(pc hiera.ProviderContext, key string) dgo.Value {
	o := opts(pc)
	if s, ok := o.Get("return").(dgo.String); ok {
		return mon.ToDgo(mv.Decode(s.GoString()))
	}
	return vf.Map("key", key, "options", mv.CanonDgo(o), "value", o.Get("value"))
}

// Hash is a data_hash function
func Hash(pc hiera.ProviderContext) dgo.Map {
	fail(pc)
	m := vf.MutableMap()
	if ks, ok := opts(pc).Get("keys").(dgo.Array); ok {
		ks.Each(func(k dgo.Value) { m.Put(k, value(pc, "")) })
	}
	return m
}

func present(pc hiera.ProviderContext, key string) bool {
	yes := false
	if ks, ok := opts(pc).Get("keys").(dgo.Array); ok {
		ks.Each(func(k dgo.Value) { yes = yes || k.Equals(key) })
	}
	return yes
}

// Key is a lookup_key function
func Key(pc hiera.ProviderContext, key string) dgo.Value {
	if key == "lookup_options" {
		return nil
	}
	fail(pc)
	if !present(pc, key) {
		return nil
	}
	return value(pc, key)
}

// Dig is a data_dig function
func Dig(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
	if key.Get(0).Equals("lookup_options") {
		return nil
	}
	fail(pc)
	if !present(pc, key.Get(0).(dgo.String).GoString()) {
		return nil
	}
	return value(pc, mv.CanonDgo(key))
}
