package verifkit

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

var hostileValues = []func(r *rand.Rand) any{
	func(*rand.Rand) any { return nil },
	func(*rand.Rand) any { return "" },
	func(*rand.Rand) any { return []any{} },
	func(*rand.Rand) any { return map[string]any{} },
	func(*rand.Rand) any { return []any{nil} },
	func(*rand.Rand) any { return []any{[]any{nil, nil}, nil} },
	func(*rand.Rand) any { return []any{map[string]any{}} },
	func(*rand.Rand) any { return map[string]any{"": nil} },
	func(*rand.Rand) any { return true },
	func(*rand.Rand) any { return false },
	func(*rand.Rand) any { return 0 },
	func(*rand.Rand) any { return -1 },
	func(*rand.Rand) any { return json.Number("1e400") },
	func(*rand.Rand) any { return json.Number("9223372036854775807") },
	func(*rand.Rand) any { return json.Number("-9223372036854775808") },
	func(*rand.Rand) any { return json.Number("18446744073709551616") },
	func(*rand.Rand) any { return 1.5 },
	func(*rand.Rand) any { return "null" },
	func(*rand.Rand) any { return "\x00\x7f\ufffd" },
	func(*rand.Rand) any { return "/" },
	func(*rand.Rand) any { return "//" },
	func(*rand.Rand) any { return "/(/" },
	func(*rand.Rand) any { return "=" },
	func(*rand.Rand) any { return "%d%s%!" },
	func(*rand.Rand) any { return "../../../etc" },
	func(*rand.Rand) any { return "{\"a\":" },
	func(r *rand.Rand) any { return strings.Repeat("a", 1<<uint(r.Intn(17))) },
	func(r *rand.Rand) any { return nested(r.Intn(300), r.Intn(2) == 0) },
}

func nested(n int, obj bool) any {
	var v any
	for i := 0; i < n; i++ {
		if obj {
			v = map[string]any{"a": v}
		} else {
			v = []any{v}
		}
	}
	return v
}

// HostileValue is a value nobody expects
func HostileValue(r *rand.Rand) any { return Pick(r, hostileValues)(r) }

type slot struct {
	path string
	get  any
	set  func(v any)
	del  func()
	dup  func()
}

func slots(path string, v any, out *[]slot) {
	switch x := v.(type) {
	case map[string]any:
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			*out = append(*out, slot{path + "." + k, x[k], func(v any) { x[k] = v }, func() { delete(x, k) }, func() {
				x[k+" "] = x[k]
				x[strings.ToUpper(k)] = nil
			}})
			slots(path+"."+k, x[k], out)
		}
	case []any:
		for i := range x {
			*out = append(*out, slot{fmt.Sprintf("%s[%d]", path, i), x[i], func(v any) { x[i] = v }, func() { x[i] = nil }, func() {}})
			slots(fmt.Sprintf("%s[%d]", path, i), x[i], out)
		}
	}
}

// MutateJSON changes the structure of a JSON document in one to three places, returning the new document and what was done
func MutateJSON(r *rand.Rand, doc []byte) ([]byte, string) {
	var v any
	d := json.NewDecoder(strings.NewReader(string(doc)))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return MutateBytes(r, doc)
	}
	what := []string{}
	if r.Intn(25) == 0 {
		v = HostileValue(r)
		what = append(what, "whole document")
	}
	for n := 1 + r.Intn(3)*r.Intn(2); n > 0; n-- {
		var s []slot
		slots("", v, &s)
		if len(s) == 0 {
			break
		}
		t := Pick(r, s)
		switch op := r.Intn(10); {
		case op < 2:
			t.del()
			what = append(what, "without "+t.path)
		case op < 5:
			t.set(nil)
			what = append(what, "null "+t.path)
		case op < 9:
			h := HostileValue(r)
			t.set(h)
			js, _ := json.Marshal(h)
			if len(js) > 60 {
				js = append(js[:60:60], "..."...)
			}
			what = append(what, fmt.Sprintf("%s is %s", t.path, js))
		default:
			t.dup()
			what = append(what, "repeated "+t.path)
		}
	}
	out, err := json.Marshal(v)
	if err != nil {
		return MutateBytes(r, doc)
	}
	return out, strings.Join(what, ", ")
}

// MutateBytes damages bytes
func MutateBytes(r *rand.Rand, in []byte) ([]byte, string) {
	b := append([]byte{}, in...)
	switch r.Intn(7) {
	case 0:
		if len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
		return b, "truncated"
	case 1:
		for n := 1 + r.Intn(4); n > 0 && len(b) > 0; n-- {
			b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
		}
		return b, "bits flipped"
	case 2:
		p := r.Intn(len(b) + 1)
		ins := []byte(Pick(r, []string{"\x00", "{", "}", "[", "]", "null", "\"", ",", ":", "\\u0000", "\xff\xfe", "1e999", "[[[[[["}))
		return append(append(append([]byte{}, b[:p]...), ins...), b[p:]...), "bytes inserted"
	case 3:
		if len(b) > 2 {
			p := r.Intn(len(b) - 1)
			q := p + 1 + r.Intn(min(40, len(b)-p-1))
			b = append(b[:p], b[q:]...)
		}
		return b, "bytes removed"
	case 4:
		n := r.Intn(200)
		b = make([]byte, n)
		r.Read(b)
		return b, "random"
	case 5:
		return []byte(strings.Repeat(Pick(r, []string{"[", "{\"a\":", "\"", "1", " "}), 1+r.Intn(20000))), "deep"
	}
	return append(b, b...), "doubled"
}

// HostileValues is one of each kind of value nobody expects
func HostileValues(r *rand.Rand) (res []any) {
	for _, f := range hostileValues {
		res = append(res, f(r))
	}
	return res
}
