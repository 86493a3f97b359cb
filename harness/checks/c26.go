package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf8"

	"hv/mv"
)

func init() {
	register("C26", "a document that was given to the yaml2json command; distinct by document", c26)
}

// convert runs the command. The input is written in parts when the parts are more than one.
func convert(c *C, stdout *os.File, parts ...string) (out, errs []byte, code int, ok bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(c.Bin, "yaml2json"))
	cmd.Dir = "/"
	ob, eb := &bytes.Buffer{}, &bytes.Buffer{}
	cmd.Stdout, cmd.Stderr = ob, eb
	if stdout != nil {
		cmd.Stdout = stdout
	}
	if len(parts) == 1 {
		cmd.Stdin = strings.NewReader(parts[0])
	} else {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		defer func() { _ = r.Close() }()
		cmd.Stdin = r
		go func() {
			defer func() { _ = w.Close() }()
			for i, p := range parts {
				if i > 0 {
					time.Sleep(10 * time.Millisecond)
				}
				if _, err := io.WriteString(w, p); err != nil {
					return
				}
			}
		}()
	}
	err := cmd.Run()
	if ctx.Err() != nil {
		return ob.Bytes(), eb.Bytes(), -1, false
	}
	if err != nil {
		ee, is := err.(*exec.ExitError)
		if !is {
			panic(err)
		}
		return ob.Bytes(), eb.Bytes(), ee.ExitCode(), true
	}
	return ob.Bytes(), eb.Bytes(), 0, true
}

// jsonDiff compares what was decoded from JSON, with numbers as they were written, with the value that is expected. It
// returns the empty string when they are the same.
func jsonDiff(got, want interface{}, path string) string {
	diff := func() string {
		return fmt.Sprintf("%s: expected %s, got %s", path, clip(fmt.Sprintf("%#v", want)), clip(fmt.Sprintf("%#v", got)))
	}
	switch w := want.(type) {
	case mv.Null:
		if got != nil {
			return diff()
		}
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return diff()
		}
		for i := range w {
			if d := jsonDiff(g[i], w[i], fmt.Sprintf("%s.%d", path, i)); d != "" {
				return d
			}
		}
	case *mv.Map:
		g, ok := got.(map[string]interface{})
		if !ok || len(g) != w.Len() {
			return diff()
		}
		for _, k := range w.Keys {
			e, ok := g[k.(string)]
			if !ok {
				return fmt.Sprintf("%s: no entry %q", path, k)
			}
			if d := jsonDiff(e, w.Get(k), path+"."+k.(string)); d != "" {
				return d
			}
		}
	case int64:
		g, ok := got.(json.Number)
		if !ok {
			return diff()
		}
		n, ok := new(big.Int).SetString(string(g), 10)
		if !ok || !n.IsInt64() || n.Int64() != w {
			return diff()
		}
	case uint64:
		if g, ok := got.(json.Number); !ok || string(g) != fmt.Sprint(w) {
			return diff()
		}
	case float64:
		g, ok := got.(json.Number)
		if !ok {
			return diff()
		}
		if f, err := g.Float64(); err != nil || f != w {
			return diff()
		}
	default:
		if got != want {
			return diff()
		}
	}
	return ""
}

// decodeJSON decodes the one JSON value that the text must consist of. Entries that occur twice in an object are errors.
func decodeJSON(bs []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(bs))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if rest := bytes.TrimSpace(bs[d.InputOffset():]); len(rest) > 0 {
		return nil, fmt.Errorf("the JSON value is followed by %q", clip(string(rest)))
	}
	// count the names, duplicates of which are lost above
	t := json.NewDecoder(bytes.NewReader(bs))
	var walk func() error
	walk = func() error {
		tok, err := t.Token()
		if err != nil {
			return err
		}
		switch tok {
		case json.Delim('{'):
			seen := map[string]bool{}
			for t.More() {
				k, err := t.Token()
				if err != nil {
					return err
				}
				if seen[k.(string)] {
					return fmt.Errorf("the name %q occurs twice", k)
				}
				seen[k.(string)] = true
				if err = walk(); err != nil {
					return err
				}
			}
			_, err = t.Token()
		case json.Delim('['):
			for t.More() {
				if err = walk(); err != nil {
					return err
				}
			}
			_, err = t.Token()
		}
		return err
	}
	if !utf8.Valid(bs) {
		return nil, fmt.Errorf("not UTF-8")
	}
	return v, walk()
}

// c26document writes any value as a YAML document and returns what the document has
func c26document(y *yw, v interface{}) (string, interface{}) {
	switch v := v.(type) {
	case *mv.Map:
		if v.Len() > 0 && y.P(.3) {
			return c26merge(y, v)
		}
		return y.document(v), v // aliases are added to the map
	case []interface{}:
		if len(v) == 0 || y.P(.2) {
			return y.flow(v) + "\n", v
		}
		b := &strings.Builder{}
		if y.P(.4) {
			b.WriteString("---\n")
		}
		for _, e := range v {
			b.WriteString("-")
			y.block(b, e, 0)
		}
		return b.String(), v
	}
	b := &strings.Builder{}
	b.WriteString("---")
	y.block(b, v, 0)
	return b.String(), v
}

// c26merge writes a map with entries that are maps that others are merged into
func c26merge(y *yw, v *mv.Map) (string, interface{}) {
	y.mark("merge key")
	base := mv.NewMap()
	for k := 1 + y.Intn(4); k > 0; k-- {
		base.Put(y.Pick("a", "b", "c", "d", "e f"), fileValue(y.G, 2, false))
	}
	other := mv.NewMap("a", 100, "q", mv.L("q"))
	own := mv.NewMap()
	for k := y.Intn(4); k > 0; k-- {
		own.Put(y.Pick("a", "b", "x", "y"), fileValue(y.G, 2, false))
	}
	merged := func(ms ...*mv.Map) *mv.Map {
		r := mv.NewMap()
		for _, m := range ms {
			for _, k := range m.Keys {
				r.Put(k, m.Get(k))
			}
		}
		return r
	}
	v.Put("base", base)
	v.Put("other", other)
	b := &strings.Builder{}
	body := mv.NewMap()
	for _, k := range v.Keys {
		if k != "base" && k != "other" {
			body.Put(k, v.Get(k))
		}
	}
	if y.P(.5) {
		b.WriteString("<<: " + y.flow(base) + "\n")
		for _, k := range base.Keys {
			if v.Get(k) == nil {
				v.Put(k, base.Get(k))
			}
		}
	}
	y.entries(b, body, 0)
	b.WriteString("base: &base " + y.flow(base) + "\nother: &other " + y.flow(other) + "\n")
	// the merge key comes first, see the known findings
	flow := y.flow(own)
	if own.Len() == 0 {
		flow = "{<<: *base}"
	} else {
		flow = "{<<: *base, " + flow[1:]
	}
	b.WriteString("m1: " + flow + "\n")
	v.Put("m1", merged(base, own))
	b.WriteString("m2:\n  - deep:\n      <<: [*other, *base]\n")
	y.entries(b, own, 6)
	v.Put("m2", mv.L(mv.NewMap("deep", merged(base, other, own))))
	b.WriteString("m3:\n  k:\n    <<: {in: " + flow + "}\n    l: [" + flow + "]\n")
	v.Put("m3", mv.NewMap("k", mv.NewMap("in", merged(base, own), "l", mv.L(merged(base, own)))))
	return b.String(), v
}

func c26(c *C) {
	check := func(name, text string, want interface{}, parts ...string) bool {
		if len(parts) == 0 {
			parts = []string{text}
		}
		out, errs, code, ok := convert(c, nil, parts...)
		if !ok {
			c.Inconclusive("the command didn't end in time")
			return false
		}
		c.Case(text)
		c.Add("documents converted", 1)
		report := func(msg string) bool {
			c.Violation(fmt.Sprintf("case %s: yaml2json %s. The document is %s", name, msg, clip(fmt.Sprintf("%q", text))), map[string]interface{}{"document": text, "stdout": clip(string(out)), "stderr": clip(string(errs)), "exit": code})
			return false
		}
		if code != 0 {
			return report(fmt.Sprintf("failed with exit status %d (%s)", code, clip(strings.TrimSpace(string(errs)))))
		}
		got, err := decodeJSON(out)
		if err != nil {
			return report(fmt.Sprintf("wrote %s: %v", clip(string(out)), err))
		}
		if d := jsonDiff(got, want, ""); d != "" {
			return report("wrote another value: " + d)
		}
		return true
	}
	c.Parallel(c.N(2500, 60000), func(i int) {
		g := c.G("doc", i)
		y := &yw{G: g, marks: map[string]bool{}}
		v := fileValue(g, 1+g.Intn(6), false)
		if g.P(.5) {
			m := mv.NewMap()
			for k := g.Intn(6); k > 0; k-- {
				key := strings.ReplaceAll(anyString(g), "%{", "%")
				if key == "<<" || len(key) > 100 || strings.HasPrefix(key, "a") || key == "base" || key == "other" {
					key = fmt.Sprint("k", k)
				}
				m.Put(key, fileValue(g, 4, false))
			}
			v = m
		}
		text, v := c26document(y, v)
		for m := range y.marks {
			c.Add("documents with "+m, 1)
		}
		if len(text) > 100 && g.P(.05) {
			k := g.Intn(len(text))
			c.Add("documents written in parts", 1)
			check(fmt.Sprint("doc", i), text, v, text[:k], text[k:])
			return
		}
		if check(fmt.Sprint("doc", i), text, v) && i%10 == 0 {
			// what was written can be read again
			out, _, _, _ := convert(c, nil, text)
			if printable(string(out)) { // otherwise it isn't YAML
				c.Add("documents converted twice", 1)
				check(fmt.Sprint("again", i), string(out), v)
			}
		}
	})
	// what is written in other ways
	for _, k := range []struct {
		text string
		want interface{}
	}{
		{"", mv.Null{}}, {"\n", mv.Null{}}, {"# text\n", mv.Null{}}, {"---\n", mv.Null{}}, {"---\n...\n", mv.Null{}}, {"a:", mv.NewMap("a", mv.Null{})}, {"? a\n", mv.NewMap("a", mv.Null{})},
		{"a: 18446744073709551615\n", mv.NewMap("a", uint64(18446744073709551615))}, {"a: 0b101\nb: 0o17\nc: 1_000\nd: 0xff\n", mv.NewMap("a", 5, "b", 15, "c", 1000, "d", 255)},
		{"%YAML 1.1\n---\na: 1\n", mv.NewMap("a", 1)}, {"%TAG ! tag:yaml.org,2002:\n---\na: !str 1\n", mv.NewMap("a", "1")}, {"a: 1\n...\n# end\n", mv.NewMap("a", 1)},
		{"a: yes\nb: 'true'\nc: \"1\"\nd: !!str 1.5\n", mv.NewMap("a", "yes", "b", "true", "c", "1", "d", "1.5")}, {"a: >\n x\n y\n\n z\n", mv.NewMap("a", "x y\nz\n")}, {"a: |2\n   x\n  y\n", mv.NewMap("a", " x\ny\n")},
		{"a: one\n  two\n\n  three\n", mv.NewMap("a", "one two\nthree")}, {"a: \"one\n  two \\\n  three\"\n", mv.NewMap("a", "one two three")}, {"[a: 1, b: [c, {d: e}]]\n", mv.L(mv.NewMap("a", 1), mv.NewMap("b", mv.L("c", mv.NewMap("d", "e"))))},
		{"- - 1\n  - - 2\n- a: 1\n  b:\n  - 2\n", mv.L(mv.L(1, mv.L(2)), mv.NewMap("a", 1, "b", mv.L(2)))}, {"a: <&>\n'<k>': \"\\u2028\"\n", mv.NewMap("a", "<&>", "<k>", "\u2028")}, {"a: !!binary aGVq\n", mv.NewMap("a", "hej")},
		{"a: &x [1, {b: &y c}]\nd: *y\ne: [*x, *x]\n", mv.NewMap("a", mv.L(1, mv.NewMap("b", "c")), "d", "c", "e", mv.L(mv.L(1, mv.NewMap("b", "c")), mv.L(1, mv.NewMap("b", "c"))))},
		{"a: &k key\nb: {*k : 1}\n", mv.NewMap("a", "key", "b", mv.NewMap("key", 1))}, {"\ufeffa: 1\r\nb: 2\r\n", mv.NewMap("a", 1, "b", 2)}, {`{"a":{"b":[1,2.5,"x",null,true]}}`, mv.NewMap("a", mv.NewMap("b", mv.L(1, 2.5, "x", mv.Null{}, true)))},
	} {
		check("other", k.text, k.want)
	}
	for i := 0; i < 8; i++ {
		g := c.G("big", i)
		m := bigData(g, i)
		t := (&yw{G: g, marks: map[string]bool{}, noAlias: true}).document(m)
		parts := []string{t}
		if i >= 4 {
			parts = nil
			for len(t) > 9000 {
				parts, t = append(parts, t[:9000]), t[9000:]
			}
			parts = append(parts, t)
		}
		check(fmt.Sprint("big", i), strings.Join(parts, ""), m, parts...)
	}
	c26bad(c)
	for _, n := range []string{"merge key", "literal", "folded", "double quoted", "single quoted", "plain", "anchor", "alias", "comment", "explicit key", "empty value", "hexadecimal", "carriage returns", "byte order mark"} {
		c.Need("documents with "+n, 10)
	}
	c.Need("inputs refused", 200)
}

func c26bad(c *C) {
	refused := func(name, text string) {
		out, errs, code, ok := convert(c, nil, text)
		if !ok {
			c.Inconclusive("the command didn't end in time")
			return
		}
		c.Case(text)
		c.Add("inputs refused", 1)
		if code == 0 || len(out) > 0 {
			c.Violation(fmt.Sprintf("case %s: yaml2json should refuse %s, but its exit status is %d and it wrote %s", name, clip(fmt.Sprintf("%q", text)), code, clip(fmt.Sprintf("%q", out))), map[string]interface{}{"document": text, "stderr": clip(string(errs))})
		}
	}
	for _, t := range []string{"a: b: c\n", "\ta: 1\n", "a:\n\t- 1\n", "a: [1, 2\n", "a: {b: 1\n", "a: \"unclosed\n", "a: 'unclosed\n", "a: *undefined\n", "a: @x\n", "a: `x`\n", "a: %x\n", "- a\nb: 1\n", "a: 1\n- b\n", "a: 1\n]\n", "a\nb: 1\n", "a: \"\\q\"\n", "a: \xff\xfe\n",
		"\x00", "a: \x01\n", "a: |\n x\ny\n", "? a\n? [\n", "key: &a [*b]\n", "<<<<<<< HEAD\na: 1\n=======\na: 2\n>>>>>>> x\n", "{", "[", "]", "}", "{\"a\":1}}", "[1]]", "{\"a\":1} x", "\"a\" b", "[1] [2]", "{a: 1}\n{b: 2}\n", "a: &x [*x]\n", "a: &x {b: *x}\n",
		// more than one document can't be one JSON value
		"a: 1\n---\nb: 2\n", "---\na: 1\n---\nb: {\n", "--- 1\n--- 2\n", "a: 1\n...\n---\nb: 2\n", "- 1\n---\n- 2\n---\n- 3\n", "a: 1\n--- }\n",
		// not JSON
		"a: .inf\n", "- [-.inf]\n", "a: {b: .nan}\n", "a: {? [1] : 2}\n", "? {a: 1}\n: 2\n"} {
		refused("bad", t)
	}
	g := c.G("bad", 0)
	type in struct{ text string }
	var ins []in
	for k := c.N(300, 6000); k > 0; k-- { // truncated, or followed by something
		y := &yw{G: g, marks: map[string]bool{}}
		v := mv.NewMap("a", fileValue(g, 3, false), "c", fileValue(g, 3, false))
		t := y.flow(v)
		if strings.ContainsAny(t, "\t\r") {
			continue
		}
		if g.P(.5) {
			t += g.Pick("}", "]", " }", "\n}", "\n---\n"+t, "\n--- x", ", a", " x", "\n]")
		} else {
			cut := 1 + g.Intn(len(t)-1)
			for cut > 0 && !utf8.ValidString(t[:cut]) {
				cut--
			}
			if cut == 0 {
				continue
			}
			t = t[:cut]
		}
		ins = append(ins, in{t})
	}
	c.Parallel(len(ins), func(i int) { refused("cut", ins[i].text) })

	// Input and output that can't be used
	long := "a: [" + strings.Repeat("1234567890, ", 20000) + "1]\n"
	for _, t := range []string{"a: 1\n", long} {
		if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
			_, _, code, ok := convert(c, f, t)
			_ = f.Close()
			c.Add("outputs that can't be written", 1)
			if ok && code == 0 {
				c.Violation("case full: yaml2json succeeds although its output cannot be written", nil)
			}
		}
		if r, w, err := os.Pipe(); err == nil { // nobody reads
			_ = r.Close()
			_, _, code, ok := convert(c, w, t)
			_ = w.Close()
			c.Add("outputs that can't be written", 1)
			if ok && code == 0 {
				c.Violation("case pipe: yaml2json succeeds although nobody can read its output", nil)
			}
		}
		for _, sh := range []string{`exec "$1" < /`, `exec "$1" > /dev/full`} {
			r, ok := runCommand("/bin/sh", c.Tmp, nil, t, "-c", sh, "sh", filepath.Join(c.Bin, "yaml2json"))
			if !ok {
				c.Inconclusive("the command didn't end in time")
				continue
			}
			c.Add("outputs that can't be written", 1)
			if r.code == 0 || len(r.out) > 0 {
				c.Violation(fmt.Sprintf("case %s: yaml2json succeeds although its input or output cannot be used; it wrote %s", sh, clip(string(r.out))), nil)
			}
		}
	}
	// Known findings
	for _, k := range []struct {
		id, text string
		want     interface{}
	}{{"yaml2json-merge-key-last", "a: {a: 1, <<: {a: 2}}\n", mv.NewMap("a", mv.NewMap("a", 1))}} {
		out, _, code, _ := convert(c, nil, k.text)
		got, err := decodeJSON(out)
		if code != 0 || err != nil || jsonDiff(got, k.want, "") != "" {
			c.Known(k.id, fmt.Sprintf("yaml2json of %q gives %s", k.text, strings.Join(strings.Fields(string(out)), "")), nil)
		}
	}
}
