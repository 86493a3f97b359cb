package model

import "hv/mv"

// XNode is a node in the explanation of a lookup
type XNode struct {
	Kind     string // explainer, lookup, provider, location, merge, mergeSource, module, interpolate, subLookup, segment, invalidKey
	Name     string // name of the provider, strategy, source, module or expression
	URI      bool
	Original string // location
	Resolved string // location
	Exists   bool
	Segment  interface{}
	Options  *mv.Map // of a merge
	Event    string
	Key      string
	V        interface{}
	Texts    []string
	Branches []*XNode
}

const (
	topMode = iota
	luMode
	dataMode
)

// Explain makes the evaluator record explanations, in the way that an explainer created with the given options does
func (ev *Eval) Explain(options, onlyOptions bool) *XNode {
	ev.xOptions, ev.xOnly = options, onlyOptions
	ev.X = &XNode{Kind: "explainer"}
	return ev.X
}

// with evaluates the function in the context of the given new node
func (ev *Eval) with(n *XNode, f func() interface{}) interface{} {
	if ev.X == nil {
		return f()
	}
	up := ev.X
	up.Branches = append(up.Branches, n)
	ev.X = n
	v := f()
	ev.X = up
	return v
}

func (ev *Eval) report(event, key string, v interface{}) {
	if ev.X != nil {
		ev.X.Event, ev.X.Key = event, key
		if event == "found" {
			ev.X.V = v
		}
	}
}

// noExplain evaluates the function without explanation
func (ev *Eval) noExplain(f func()) {
	x := ev.X
	ev.X = nil
	f()
	ev.X = x
}

func (ev *Eval) forOptions(f func() interface{}) interface{} {
	if ev.mode == luMode {
		return f()
	}
	x, m := ev.X, ev.mode
	if !ev.xOptions && !ev.xOnly {
		ev.X = nil
	}
	ev.mode = luMode
	v := f()
	ev.X, ev.mode = x, m
	return v
}

func (ev *Eval) forData(f func() interface{}) interface{} {
	if ev.mode == dataMode {
		return f()
	}
	x, m := ev.X, ev.mode
	if ev.xOnly {
		ev.X = nil
	}
	ev.mode = dataMode
	v := f()
	ev.X, ev.mode = x, m
	return v
}

// merged merges the values of n sources and records the result
func (ev *Eval) merged(s strat, n int, get func(i int) interface{}) interface{} {
	if n < 2 {
		return MergeList(s.name, n, get)
	}
	result := func() interface{} {
		v := MergeList(s.name, n, get)
		if v != nil && ev.X != nil {
			ev.X.Event, ev.X.V = "result", v
		}
		return v
	}
	if s.name == "first" {
		return result()
	}
	return ev.with(&XNode{Kind: "merge", Name: s.name, Options: s.opts}, result)
}

func (ev *Eval) mergeSource(merge interface{}, lo interface{ Get(interface{}) interface{} }) {
	if ev.X == nil {
		return
	}
	if merge != nil {
		ev.X.Branches = append(ev.X.Branches, &XNode{Kind: "mergeSource", Name: "CLI option"})
	} else if lo.Get("merge") != nil {
		ev.X.Branches = append(ev.X.Branches, &XNode{Kind: "mergeSource", Name: `"lookup_options" hash`})
	}
}

func (ev *Eval) dig(key string, ps []interface{}, v interface{}) interface{} {
	if ev.X == nil || len(ps) == 1 {
		return Dig(ps, v)
	}
	return ev.with(&XNode{Kind: "subLookup", Name: key}, func() interface{} {
		for _, p := range ps[1:] {
			v = ev.with(&XNode{Kind: "segment", Segment: p}, func() interface{} {
				k := Text(p)
				f := Dig([]interface{}{"", p}, v)
				if f == nil {
					ev.report("not_found", k, nil)
				} else {
					ev.report("found", k, f)
				}
				return f
			})
			if v == nil {
				break
			}
		}
		return v
	})
}

func (re *rentry) fullName() string { return re.fnKind + " function '" + re.fnName + "'" }
