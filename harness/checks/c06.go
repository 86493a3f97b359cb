package checks

import (
	"bufio"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"

	"hv/gen"
	"hv/model"
	"hv/mon"
	"hv/mv"
)

func init() {
	register("C06", "a lookup in a graph of references; distinct by the graph and the key", c06)
	Modes["c06child"] = c06child
}

// A graph of references. Each node is a root key in the data or a variable
type refNode struct {
	name  string
	kind  string // yaml, key, sess, inv
	refs  []int
	leaf  string
	shape int
}

type refGraph struct {
	nodes  []*refNode
	cyclic bool
	long   bool
	world  *model.World
	desc   string
}

// expr creates an expression in node n that refers to node m
func (rg *refGraph) expr(g *gen.G, n, m *refNode) string {
	q := g.Pick("'", `"`)
	if m.kind == "sess" || m.kind == "inv" {
		if g.P(.3) {
			return "%{scope(" + q + m.name + q + ")}"
		}
		return "%{" + m.name + "}"
	}
	return "%{" + g.Pick("lookup", "hiera", "alias", "strict_alias", "lookup") + "(" + q + m.name + q + ")}"
}

// value creates the value of a node: its references occur in strings at different places in the value
func (rg *refGraph) value(g *gen.G, n *refNode) interface{} {
	if rg.long {
		// The text of a collection in the text of a collection is quoted twice, so nested structures can't be used in
		// a long chain: their size doubles for each link.
		if len(n.refs) == 0 {
			return n.leaf
		}
		return rg.plain(g, n)
	}
	if len(n.refs) == 0 {
		if g.P(.3) {
			return mv.L(n.leaf, mv.NewMap("k", n.leaf))
		}
		return n.leaf
	}
	l := []interface{}{}
	for i, r := range n.refs {
		e := rg.expr(g, n, rg.nodes[r])
		if !strings.Contains(e, "alias(") && g.P(.4) {
			e = "<" + e + ">"
		}
		var v interface{} = e
		switch g.Intn(5) {
		case 0:
			v = mv.NewMap(fmt.Sprintf("k%d", i), e)
		case 1:
			v = mv.L("x", e)
		case 2:
			if !strings.Contains(e, "alias(") {
				v = mv.NewMap(e, fmt.Sprintf("v%d", i))
			}
		case 3:
			v = mv.NewMap("a", mv.L(mv.NewMap("b", e)))
		}
		l = append(l, v)
	}
	// Text is required when the value is used in a string, so most nodes are plain strings
	if len(l) == 1 && g.P(.7) {
		return rg.plain(g, n)
	}
	return l
}

func (rg *refGraph) plain(g *gen.G, n *refNode) string {
	b := ""
	for _, r := range n.refs {
		e := rg.expr(g, n, rg.nodes[r])
		if strings.Contains(e, "alias(") && len(n.refs) > 1 {
			e = strings.Replace(strings.Replace(e, "strict_alias(", "lookup(", 1), "alias(", "lookup(", 1)
		}
		b += e
	}
	return b
}

func genGraph(g *gen.G) *refGraph {
	rg := &refGraph{}
	n := 2 + g.Intn(8)
	kinds := []string{"yaml", "key", "sess", "inv"}
	switch g.Intn(4) {
	case 0:
		kinds = []string{"yaml", "key"}
	case 1:
		kinds = []string{"sess", "inv"}
	}
	long := g.P(.15)
	rg.long = long
	if long { // a long chain
		n = 30 + g.Intn(120)
	}
	for i := 0; i < n; i++ {
		nd := &refNode{name: fmt.Sprintf("n%d", i), kind: kinds[g.Intn(len(kinds))], leaf: fmt.Sprintf("leaf%d", i)}
		rg.nodes = append(rg.nodes, nd)
	}
	if n > 3 && g.P(.3) { // a variable with the same name as a key is something else
		a, b := rg.nodes[0], rg.nodes[n-1]
		if (a.kind == "yaml" || a.kind == "key") != (b.kind == "yaml" || b.kind == "key") {
			b.name = a.name
		}
	}
	for i := range rg.nodes {
		if long {
			if i+1 < n {
				rg.nodes[i].refs = []int{i + 1}
			}
			continue
		}
		for k := g.Weighted(2, 4, 2); k > 0 && i+1 < n; k-- {
			rg.nodes[i].refs = append(rg.nodes[i].refs, i+1+g.Intn(n-i-1))
		}
	}
	if g.P(.65) { // close a cycle
		rg.cyclic = true
		from := g.Intn(n)
		to := g.Intn(from + 1)
		rg.nodes[from].refs = append(rg.nodes[from].refs, to)
		// make sure that to reaches from
		for i := to; i < from; {
			j := i + 1 + g.Intn(from-i)
			if long {
				j = i + 1
			}
			found := false
			for _, r := range rg.nodes[i].refs {
				found = found || r == j
			}
			if !found {
				rg.nodes[i].refs = append(rg.nodes[i].refs, j)
			}
			i = j
		}
	}
	rg.build(g)
	return rg
}

func (rg *refGraph) build(g *gen.G) {
	w := &model.World{Env: map[string]string{}, Sess: mv.NewMap("safevar", "sv"), Inv: mv.NewMap(), Tables: map[string]map[string]*mv.Map{}}
	yd, kd := mv.NewMap(), mv.NewMap()
	for _, n := range rg.nodes {
		v := rg.value(g, n)
		switch n.kind {
		case "yaml":
			yd.Put(n.name, v)
		case "key":
			kd.Put(n.name, v)
		case "sess":
			w.Sess.Put(n.name, v)
		default:
			w.Inv.Put(n.name, v)
		}
	}
	yd.Put("safe", "ok %{safevar} %{lookup('safe2')}")
	kd.Put("safe2", "ok2")
	w.Cfg = &model.Config{
		Entries: []*model.Entry{
			{Name: "y", Loc: &model.Loc{Kind: "path", Args: []string{"y.yaml"}}},
			{Name: "k", FnKind: "lookup_key", FnName: "hv_key", Options: mv.NewMap("id", "k")}},
		Files: map[string]*model.File{"data/y.yaml": {Format: "yaml", V: yd}}}
	w.Tables["k"] = map[string]*mv.Map{"": kd}
	if g.P(.3) {
		w.Providers = []string{"config", "env"}
	}
	rg.desc = mv.Canon(yd) + mv.Canon(kd) + mv.Canon(w.Sess) + mv.Canon(w.Inv)
	rg.world = w
}

// special builds worlds where the cycle goes through the configuration
func specialGraph(g *gen.G, which int) *refGraph {
	rg := &refGraph{cyclic: true}
	w := &model.World{Env: map[string]string{}, Tables: map[string]map[string]*mv.Map{}, Sess: mv.NewMap("safevar", "sv")}
	cyc := mv.NewMap("ca", "%{cb}", "cb", g.Pick("%{cc.x}", "x%{cc}"), "cc", mv.NewMap("x", "%{ca}", "y", "plain"))
	if g.P(.5) {
		cyc = mv.NewMap("ca", g.Pick("%{ca}", "a%{scope('ca')}", "%{ca.x}"))
	}
	w.Inv = cyc
	yd := mv.NewMap("n0", "v", "safe", "fine")
	e := &model.Entry{Name: "y", Loc: &model.Loc{Kind: "path", Args: []string{"y.yaml"}}}
	switch which {
	case 0:
		e.Loc.Args[0] = "%{ca}.yaml"
	case 1:
		e.Loc = &model.Loc{Kind: "mapped_paths", Args: []string{"ca", "it", "%{it}.yaml"}}
	case 2:
		e.Options = mv.NewMap("o", mv.L("%{ca}"))
	case 3:
		e.DataDir = "%{ca}"
	case 4:
		e.Loc = &model.Loc{Kind: g.Pick("glob", "uri"), Args: []string{"%{ca}*"}}
		if e.Loc.Kind == "uri" {
			e.FnKind, e.FnName, e.Options = "lookup_key", "hv_key", mv.NewMap("id", "k")
		}
	case 5:
		e.FnKind, e.FnName = "lookup_key", "hv_%{ca}"
	case 6: // a variable that looks up a key that uses the variable
		w.Inv = mv.NewMap("va", "%{lookup('n0')}")
		yd.Put("n0", "<%{va}>")
	case 7: // lookup options
		w.Inv = mv.NewMap()
		yd.Put("lookup_options", mv.NewMap("n0", mv.NewMap("merge", "%{lookup('n0')}")))
	case 8: // the variable of mapped paths is used in the template, and refers to itself
		w.Inv = mv.NewMap("els", mv.L("a", "%{it}"))
		e.Loc = &model.Loc{Kind: "mapped_paths", Args: []string{"els", "it", "%{it}.yaml"}}
	case 9: // a key that refers to itself by means of a dug path
		w.Inv = mv.NewMap()
		yd.Put("n0", mv.NewMap("a", g.Pick("%{alias('n0')}", "%{lookup('n0.a')}", "x%{lookup('n0.b')}"), "b", "%{lookup('n0.a')}"))
	}
	w.Cfg = &model.Config{Entries: []*model.Entry{e}, Files: map[string]*model.File{"data/y.yaml": {Format: "yaml", V: yd}}}
	w.Tables["k"] = map[string]*mv.Map{}
	rg.world = w
	rg.nodes = []*refNode{{name: "n0", kind: "yaml"}}
	rg.desc = fmt.Sprintf("special %d %s %s", which, mv.Canon(w.Inv), mv.Canon(yd))
	return rg
}

const specials = 10

func c06graph(seed int64, i int) (*gen.G, *refGraph) {
	g := gen.New(seed, "C06", i)
	if i%5 == 4 {
		return g, specialGraph(g, (i/5)%specials)
	}
	return g, genGraph(g)
}

// c06child runs the cases from..to and reports on stdout. It dies if the code under test overflows the stack or blocks
// (the Go runtime detects that all go routines are asleep).
func c06child(args []string) int {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	from, _ := strconv.Atoi(args[1])
	to, _ := strconv.Atoi(args[2])
	tmp := args[3]
	debug.SetMaxStack(48 << 20)
	debug.SetMemoryLimit(2 << 30)
	out := bufio.NewWriter(os.Stdout)
	say := func(f string, a ...interface{}) {
		fmt.Fprintf(out, f+"\n", a...)
		_ = out.Flush()
	}
	for i := from; i < to; i++ {
		g, rg := c06graph(seed, i)
		dir := filepath.Join(tmp, strconv.Itoa(i))
		w := rg.world
		w.Write(dir)
		env := mon.NewEnv(w)
		s := env.Session()
		say("case %d", i)
		bad := func(what, key string, want model.Outcome, got mon.Obs) {
			say("bad %d %s key=%s expected=%s observed=%s", i, what, key, strconv.Quote(want.String()), strconv.Quote(got.String()))
		}
		keys := []string{"n0"}
		for _, n := range rg.nodes {
			if len(rg.nodes) < 12 && (n.kind == "yaml" || n.kind == "key") {
				keys = append(keys, n.name)
			}
		}
		for _, key := range keys {
			ev := model.NewEval(w)
			want := ev.Lookup(key, nil)
			var ex api.Explainer
			if g.P(.2) {
				ex = explain.NewExplainer(true, false)
			}
			got := mon.Try(func() dgo.Value { return hiera.Lookup(env.Inv(s, ex), key, nil, nil) })
			k := "acyclic"
			if want.Kind == "error" {
				k = "cyclic"
			}
			say("lookup %s %s %d %s", k, want.Kind, ev.Depth, key)
			if want.Kind == "unsupported" {
				if got.Kind == "crash" {
					bad("crash", key, want, got)
				}
				continue
			}
			if !got.Same(want) {
				bad("lookup", key, want, got)
			}
			// the session still works
			if want.Kind == "error" {
				sc := vf.Map("safevar", "sv")
				o := mon.Try(func() dgo.Value { return hiera.Lookup(s.Invocation(sc, nil), "safe", nil, nil) })
				sw := *w
				sw.Inv = mv.NewMap("safevar", "sv")
				so := model.NewEval(&sw).Lookup("safe", nil)
				say("after %s", so.Kind)
				if so.Kind != "unsupported" && !o.Same(so) {
					bad("lookup after a cyclic one", "safe", so, o)
				}
			}
		}
		say("done %d %s", i, strconv.Quote(rg.desc))
		_ = os.RemoveAll(dir)
	}
	say("end")
	return 0
}

func cpuTime(pid int) time.Duration {
	bs, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(bs)
	fs := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	u, _ := strconv.Atoi(fs[11])
	k, _ := strconv.Atoi(fs[12])
	return time.Duration(u+k) * 10 * time.Millisecond
}

func c06(c *C) {
	n := c.N(2400, 40000)
	chunk := 100
	exe, _ := os.Executable()
	c.Parallel(n/chunk, func(ci int) {
		from, to := ci*chunk, (ci+1)*chunk
		for from < to && c.Violations() < 5 {
			tmp := c.Dir()
			cmd := exec.Command(exe, "c06child", fmt.Sprint(c.Seed), fmt.Sprint(from), fmt.Sprint(to), tmp)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
			errBuf := &headBuffer{max: 4000}
			cmd.Stderr = errBuf
			pipe, err := cmd.StdoutPipe()
			if err != nil {
				panic(err)
			}
			if err = cmd.Start(); err != nil {
				panic(err)
			}
			lines := make(chan string)
			go func() {
				sc := bufio.NewScanner(pipe)
				sc.Buffer(make([]byte, 1<<20), 1<<24)
				for sc.Scan() {
					lines <- sc.Text()
				}
				close(lines)
			}()
			cur, ended, hung, last := from, false, false, ""
			tick := time.NewTicker(500 * time.Millisecond)
			base := time.Duration(0)
			quiet := 0
		loop:
			for {
				select {
				case l, ok := <-lines:
					if !ok {
						break loop
					}
					quiet = 0
					base = cpuTime(cmd.Process.Pid)
					f := strings.SplitN(l, " ", 3)
					switch f[0] {
					case "case":
						cur, _ = strconv.Atoi(f[1])
						last = l
					case "lookup":
						c.Add("lookups "+f[1], 1)
						p := strings.Split(l, " ")
						c.Add("outcome "+p[2], 1)
						c.Seen("depths of nesting", p[3])
					case "after":
						c.Add("lookups after a failed one", 1)
					case "bad":
						_, rg := c06graph(c.Seed, cur)
						c.Violation(l, map[string]interface{}{"case": cur, "graph": rg.desc})
					case "done":
						c.Case(f[2])
						if cur%97 == 0 {
							c.Sample(f[2])
						}
					case "end":
						ended = true
					}
				case <-tick.C:
					// Time is only measured as the CPU time used by the lookup
					quiet++
					if cpuTime(cmd.Process.Pid)-base > 60*time.Second {
						hung = true
						_ = cmd.Process.Kill()
						break loop
					}
					if quiet > 600 {
						_ = cmd.Process.Kill()
						_ = cmd.Wait()
						c.Inconclusive("no progress for five minutes in case %d", cur)
					}
				}
			}
			tick.Stop()
			for range lines {
			}
			err = cmd.Wait()
			c.Drop(tmp)
			if ended && err == nil {
				return
			}
			_, rg := c06graph(c.Seed, cur)
			what := "the process crashed"
			if hung {
				what = "the lookup did not end"
			}
			c.Violation(fmt.Sprintf("%s in case %d (%s): %v: %s", what, cur, last, err, errBuf.line()),
				map[string]interface{}{"case": cur, "graph": rg.desc, "stderr": errBuf.String()})
			from = cur + 1
		}
	})
	c.Need("lookups cyclic", 500)
	c.Need("lookups acyclic", 500)
	c.Need("lookups after a failed one", 500)
}

type headBuffer struct {
	b   []byte
	max int
}

func (h *headBuffer) Write(p []byte) (int, error) {
	if n := h.max - len(h.b); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		h.b = append(h.b, p[:n]...)
	}
	return len(p), nil
}

func (h *headBuffer) String() string { return string(h.b) }

func (h *headBuffer) line() string { return strings.SplitN(string(h.b)+"\n", "\n", 2)[0] }
