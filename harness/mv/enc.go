package mv

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strconv"
)

type tagged struct {
	T string    `json:"t"`
	S string    `json:"s,omitempty"`
	L []*tagged `json:"l,omitempty"`
}

func enc(v interface{}) *tagged {
	switch v := Norm(v).(type) {
	case nil:
		return nil
	case Null:
		return &tagged{T: "n"}
	case bool:
		return &tagged{T: "b", S: strconv.FormatBool(v)}
	case int64:
		return &tagged{T: "i", S: strconv.FormatInt(v, 10)}
	case float64:
		return &tagged{T: "f", S: strconv.FormatFloat(v, 'g', -1, 64)}
	case string:
		return &tagged{T: "s", S: base64.StdEncoding.EncodeToString([]byte(v))}
	case Binary:
		return &tagged{T: "y", S: base64.StdEncoding.EncodeToString([]byte(v))}
	case Sensitive:
		return &tagged{T: "x", L: []*tagged{enc(v.V)}}
	case []interface{}:
		t := &tagged{T: "l"}
		for _, e := range v {
			t.L = append(t.L, enc(e))
		}
		return t
	case *Map:
		t := &tagged{T: "m"}
		if v != nil {
			for _, k := range v.Keys {
				t.L = append(t.L, enc(k), enc(v.Get(k)))
			}
		}
		return t
	}
	panic(fmt.Errorf("cannot encode a %T", v))
}

func dec(t *tagged) interface{} {
	if t == nil {
		return nil
	}
	raw := func() []byte {
		bs, err := base64.StdEncoding.DecodeString(t.S)
		if err != nil {
			panic(err)
		}
		return bs
	}
	switch t.T {
	case "n":
		return Null{}
	case "b":
		return t.S == "true"
	case "i":
		i, _ := strconv.ParseInt(t.S, 10, 64)
		return i
	case "f":
		f, _ := strconv.ParseFloat(t.S, 64)
		return f
	case "s":
		return string(raw())
	case "y":
		return Binary(raw())
	case "x":
		return Sensitive{dec(t.L[0])}
	case "l":
		l := make([]interface{}, len(t.L))
		for i, e := range t.L {
			l[i] = dec(e)
		}
		return l
	case "m":
		m := NewMap()
		for i := 0; i < len(t.L); i += 2 {
			m.Put(dec(t.L[i]), dec(t.L[i+1]))
		}
		return m
	}
	panic(fmt.Errorf("unknown tag %s", t.T))
}

// Encode returns a text that Decode makes the same value of
func Encode(v interface{}) string {
	bs, err := json.Marshal(enc(v))
	if err != nil {
		panic(err)
	}
	return string(bs)
}

// Decode decodes a text created by Encode
func Decode(s string) interface{} {
	var t *tagged
	if err := json.Unmarshal([]byte(s), &t); err != nil {
		panic(err)
	}
	return dec(t)
}
