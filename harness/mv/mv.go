// Package mv contains the harness' own representation of hiera data. It deliberately has no dependency on the code
// under test: the expected values computed by the reference model are built from these types, and values observed in
// the code under test are only ever compared to them by means of a canonical text form.
package mv

import (
	"encoding/base64"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
)

// Null is the null value. The absence of a value is represented by a nil interface{}
type Null struct{}

// Sensitive is a value that must not be shown in clear text
type Sensitive struct{ V interface{} }

// Binary is a sequence of bytes
type Binary string

// Map is an ordered map. The keys are string or int64
type Map struct {
	Keys []interface{}
	m    map[interface{}]interface{}
}

// NewMap creates a map from alternating keys and values
func NewMap(kvs ...interface{}) *Map {
	m := &Map{m: map[interface{}]interface{}{}}
	for i := 0; i < len(kvs); i += 2 {
		m.Put(kvs[i], kvs[i+1])
	}
	return m
}

// Put adds or replaces an association
func (m *Map) Put(k, v interface{}) {
	if i, ok := k.(int); ok {
		k = int64(i)
	}
	if _, ok := m.m[k]; !ok {
		m.Keys = append(m.Keys, k)
	}
	m.m[k] = Norm(v)
}

// Norm normalizes Go ints into int64
func Norm(v interface{}) interface{} {
	if i, ok := v.(int); ok {
		return int64(i)
	}
	return v
}

// Get returns the value of the key or nil
func (m *Map) Get(k interface{}) interface{} {
	if m == nil {
		return nil
	}
	return m.m[Norm(k)]
}

// Len returns the number of associations
func (m *Map) Len() int {
	if m == nil {
		return 0
	}
	return len(m.Keys)
}

// Copy returns a shallow copy
func (m *Map) Copy() *Map {
	c := NewMap()
	if m != nil {
		for _, k := range m.Keys {
			c.Put(k, m.m[k])
		}
	}
	return c
}

// Delete removes the key
func (m *Map) Delete(k interface{}) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, e := range m.Keys {
			if e == k {
				m.Keys = append(append([]interface{}{}, m.Keys[:i]...), m.Keys[i+1:]...)
				break
			}
		}
	}
}

// L creates a list
func L(vs ...interface{}) []interface{} {
	r := make([]interface{}, len(vs))
	for i, v := range vs {
		r[i] = Norm(v)
	}
	return r
}

func canonFloat(f float64) string {
	if f == 0 {
		f = 0 // -0.0 and 0.0 are the same
	}
	return "f" + strconv.FormatFloat(f, 'g', -1, 64)
}

// Canon returns the canonical text form of a model value. The order of the entries of a map is of no significance
func Canon(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "<absent>"
	case Null:
		return "null"
	case bool:
		return fmt.Sprintf("b%v", v)
	case int:
		return fmt.Sprintf("i%d", v)
	case int64:
		return fmt.Sprintf("i%d", v)
	case float64:
		return canonFloat(v)
	case string:
		return strconv.Quote(v)
	case Binary:
		return "bin" + strconv.Quote(string(v))
	case Sensitive:
		return "sensitive(" + Canon(v.V) + ")"
	case []interface{}:
		ss := make([]string, len(v))
		for i, e := range v {
			ss[i] = Canon(e)
		}
		return "[" + strings.Join(ss, ",") + "]"
	case *Map:
		ss := make([]string, len(v.Keys))
		for i, k := range v.Keys {
			ss[i] = Canon(k) + ":" + Canon(v.m[k])
		}
		sort.Strings(ss)
		return "{" + strings.Join(ss, ",") + "}"
	}
	return fmt.Sprintf("?%T", v)
}

// CanonDgo returns the canonical text form of a value observed in the code under test
func CanonDgo(v dgo.Value) string {
	switch v := v.(type) {
	case nil:
		return "<absent>"
	case dgo.Nil:
		return "null"
	case dgo.Boolean:
		return fmt.Sprintf("b%v", v.GoBool())
	case dgo.Integer:
		return fmt.Sprintf("i%d", v.GoInt())
	case dgo.Float:
		return canonFloat(v.GoFloat())
	case dgo.Sensitive:
		return "sensitive(" + CanonDgo(v.Unwrap()) + ")"
	case dgo.Binary:
		return "bin" + strconv.Quote(string(v.GoBytes()))
	case dgo.String:
		return strconv.Quote(v.GoString())
	case dgo.Array:
		ss := make([]string, v.Len())
		for i := range ss {
			ss[i] = CanonDgo(v.Get(i))
		}
		return "[" + strings.Join(ss, ",") + "]"
	case dgo.Map:
		ss := make([]string, 0, v.Len())
		v.EachEntry(func(e dgo.MapEntry) {
			ss = append(ss, CanonDgo(e.Key())+":"+CanonDgo(e.Value()))
		})
		sort.Strings(ss)
		return "{" + strings.Join(ss, ",") + "}"
	case dgo.Time:
		return "time" + v.GoTime().UTC().String()
	}
	return fmt.Sprintf("?%T(%v)", v, v)
}

// CanonJSON returns the canonical text form of something unmarshalled with encoding/json using json.Number
func CanonJSON(v interface{}) string {
	return Canon(FromGo(v))
}

// FromGo converts the output of encoding/json (with UseNumber) into a model value
func FromGo(v interface{}) interface{} {
	type number interface {
		Int64() (int64, error)
		Float64() (float64, error)
		String() string
	}
	switch v := v.(type) {
	case nil:
		return Null{}
	case number:
		if !strings.ContainsAny(v.String(), ".eE") {
			if i, err := v.Int64(); err == nil {
				return i
			}
		}
		f, _ := v.Float64()
		return f
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = FromGo(e)
		}
		return r
	case map[string]interface{}:
		m := NewMap()
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m.Put(k, FromGo(v[k]))
		}
		return m
	case map[interface{}]interface{}:
		m := NewMap()
		for k, e := range v {
			m.Put(FromGo(k), FromGo(e))
		}
		return m
	}
	return Norm(v)
}

// ToGo converts the model value into plain Go values. It can only be used when all keys are strings.
func ToGo(v interface{}) interface{} {
	switch v := v.(type) {
	case Null:
		return nil
	case Sensitive:
		return ToGo(v.V)
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = ToGo(e)
		}
		return r
	case *Map:
		m := map[string]interface{}{}
		for _, k := range v.Keys {
			m[fmt.Sprint(k)] = ToGo(v.m[k])
		}
		return m
	}
	return v
}

func quote(s string) string {
	// A quoted form that is valid both in JSON and in YAML
	b := strings.Builder{}
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c < 0x20 || c == 0x7f || (c >= 0x80 && c < 0xa0) || c == 0x2028 || c == 0x2029 || c == 0xfeff:
			fmt.Fprintf(&b, `\u%04x`, c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func scalar(v interface{}) string {
	switch v := v.(type) {
	case Null:
		return "null"
	case bool:
		return strconv.FormatBool(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case float64:
		s := strconv.FormatFloat(v, 'f', -1, 64)
		if v == math.Trunc(v) && !strings.Contains(s, ".") {
			s += ".0"
		}
		return s
	case string:
		return quote(v)
	case Binary:
		return `!!binary "` + base64.StdEncoding.EncodeToString([]byte(v)) + `"`
	}
	panic(fmt.Sprintf("not a scalar %T", v))
}

// JSON returns the value as JSON text (or, when there are integer keys, as a YAML flow collection)
func JSON(v interface{}) string {
	switch v := v.(type) {
	case []interface{}:
		ss := make([]string, len(v))
		for i, e := range v {
			ss[i] = JSON(e)
		}
		return "[" + strings.Join(ss, ", ") + "]"
	case *Map:
		ss := make([]string, len(v.Keys))
		for i, k := range v.Keys {
			ss[i] = scalar(k) + ": " + JSON(v.m[k])
		}
		return "{" + strings.Join(ss, ", ") + "}"
	}
	return scalar(v)
}

// YAML returns the value as block style YAML text
func YAML(v interface{}) string {
	b := &strings.Builder{}
	switch v := v.(type) {
	case *Map, []interface{}:
		yamlBlock(b, v, 0)
	default:
		b.WriteString(scalar(v))
		b.WriteByte('\n')
	}
	return b.String()
}

func yamlBlock(b *strings.Builder, v interface{}, ind int) {
	pad := strings.Repeat("  ", ind)
	nested := func(v interface{}) {
		switch e := v.(type) {
		case *Map:
			if e.Len() == 0 {
				b.WriteString(" {}\n")
			} else {
				b.WriteByte('\n')
				yamlBlock(b, e, ind+1)
			}
		case []interface{}:
			if len(e) == 0 {
				b.WriteString(" []\n")
			} else {
				b.WriteByte('\n')
				yamlBlock(b, e, ind+1)
			}
		default:
			b.WriteString(" " + scalar(e) + "\n")
		}
	}
	switch v := v.(type) {
	case *Map:
		if v.Len() == 0 {
			b.WriteString(pad + "{}\n")
		}
		for _, k := range v.Keys {
			b.WriteString(pad + scalar(k) + ":")
			nested(v.m[k])
		}
	case []interface{}:
		if len(v) == 0 {
			b.WriteString(pad + "[]\n")
		}
		for _, e := range v {
			b.WriteString(pad + "-")
			nested(e)
		}
	}
}

// Numeric replaces floats that have an integer value with that integer, since JSON has only one kind of number
func Numeric(v interface{}) interface{} {
	switch v := v.(type) {
	case float64:
		if i := int64(v); float64(i) == v && i > -(1<<62) && i < 1<<62 {
			return i
		}
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = Numeric(e)
		}
		return r
	case *Map:
		r := NewMap()
		for _, k := range v.Keys {
			r.Put(k, Numeric(v.Get(k)))
		}
		return r
	case Sensitive:
		return Sensitive{Numeric(v.V)}
	}
	return v
}
