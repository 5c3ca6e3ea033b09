package ddl

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent"
)

type item struct {
	Name       string
	Type       string
	Optional   bool
	Validation string
	MaxLength  int
	Enum       []string
	Default    any
}

func (i item) json() map[string]any {
	m := map[string]any{"prompt": i.Name, "description": i.Name, "type": i.Type, "optional": i.Optional}
	if i.Validation != "" {
		m["validation"] = i.Validation
	}
	if i.MaxLength != 0 {
		m["maxlength"] = i.MaxLength
	}
	if i.Enum != nil {
		m["list"] = i.Enum
	}
	if i.Default != nil {
		m["default"] = i.Default
	}
	return m
}

// accepts is the reference reading of the declaration of one input
func (i item) accepts(v any) bool {
	switch strings.ToLower(i.Type) {
	case "integer", "int":
		return isWhole(v)
	case "number":
		return isNum(v)
	case "float":
		_, ok := v.(float64)
		return ok
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "hash":
		_, ok := v.(map[string]any)
		return ok
	case "array":
		_, ok := v.([]any)
		return ok
	case "list":
		s, ok := v.(string)
		if !ok {
			return false
		}
		for _, e := range i.Enum {
			if e == s {
				return true
			}
		}
		return false
	case "string":
		s, ok := v.(string)
		if !ok {
			return false
		}
		if i.MaxLength > 0 && len(s) > i.MaxLength {
			return false
		}
		switch i.Validation {
		case "":
			return true
		case "shellsafe":
			return refShellsafe(s)
		case "ipv4address":
			return refIP4(s)
		case "ipv6address":
			return refIP6(s)
		case "ipaddress":
			return refIP4(s) || refIP6(s)
		}
		if i.Validation[0] >= 'a' && i.Validation[0] <= 'z' {
			return true // unknown named validators only warn
		}
		re, err := regexp.Compile(i.Validation)
		return err == nil && re.MatchString(s)
	}
	return false
}

func isWhole(v any) bool {
	switch n := v.(type) {
	case int, int8, int16, int32, int64:
		return true
	case float64:
		return n == math.Trunc(n) && math.Abs(n) < 1<<53
	}
	return false
}

func isNum(v any) bool {
	switch v.(type) {
	case int, int8, int16, int32, int64, float32, float64:
		return true
	}
	return false
}

var ddlTypes = []string{"integer", "int", "Integer", "number", "float", "string", "string", "string", "String", "boolean", "list", "Hash", "hash", "Array", "array", "", "weird"}

func genItem(r *rand.Rand, name string) item {
	it := item{Name: name, Type: verifkit.Pick(r, ddlTypes), Optional: r.Intn(2) == 0}
	switch strings.ToLower(it.Type) {
	case "string":
		if r.Intn(2) == 0 {
			it.MaxLength = 1 + r.Intn(20)
		}
		it.Validation = verifkit.Pick(r, []string{"", "shellsafe", "ipv4address", "ipv6address", "ipaddress", "^[a-z]+$", "[0-9]", "^(one|two)$", "(", ".", "unknownnamed"})
	case "list":
		if r.Intn(8) > 0 {
			it.Enum = verifkit.Subset(r, []string{"one", "two", "three", "four"})
		}
	}
	if r.Intn(3) == 0 {
		v := genValue(r, it, true)
		if v != nil {
			// what a default is once it went through json
			j, _ := json.Marshal(v)
			json.Unmarshal(j, &it.Default)
		}
	}
	return it
}

func anyValue(r *rand.Rand) any {
	switch r.Intn(13) {
	case 0:
		return r.Intn(2000) - 1000
	case 1:
		return float64(r.Intn(2000) - 1000)
	case 2:
		return r.Float64()*100 - 50
	case 3:
		return r.Intn(2) == 0
	case 4:
		return nil
	case 5:
		return []any{1, "x"}
	case 6:
		return []any{}
	case 7:
		return map[string]any{}
	case 8:
		return map[string]any{"a": 1}
	case 9:
		return fmt.Sprint(r.Intn(100))
	case 10:
		return verifkit.Pick(r, []string{"true", "false", "1", "", "one", "two", "{}", "[]", "null"})
	case 11:
		return randIP(r)
	default:
		return randString(r)
	}
}

// genValue generates a value, often one the item accepts
func genValue(r *rand.Rand, it item, good bool) any {
	for try := 0; try < 30; try++ {
		var v any
		switch strings.ToLower(it.Type) {
		case "integer", "int":
			v = any(float64(r.Intn(100000) - 50000))
			if r.Intn(2) == 0 {
				v = r.Intn(1000)
			}
		case "number", "float":
			v = r.Float64() * 1000
		case "boolean":
			v = r.Intn(2) == 0
		case "list":
			v = verifkit.Pick(r, []string{"one", "two", "three", "four"})
		case "hash":
			v = map[string]any{"k": float64(r.Intn(9))}
		case "array":
			v = []any{float64(r.Intn(9))}
		case "string":
			switch r.Intn(3) {
			case 0:
				v = randIP(r)
			case 1:
				v = verifkit.Pick(r, []string{"one", "two", "abc", "9", "a"})
			default:
				v = randString(r)
			}
		default:
			v = anyValue(r)
		}
		if s, ok := v.(string); ok && ambiguousIP(s) {
			continue
		}
		if !good || it.accepts(v) {
			return v
		}
	}
	return nil
}

type spec struct {
	items   []item
	outputs map[string]any // name -> default or nil
}

func genSpec(r *rand.Rand) spec {
	s := spec{outputs: map[string]any{}}
	names := verifkit.Subset(r, []string{"alpha", "beta", "gamma", "delta"})
	if r.Intn(8) == 0 {
		names = nil
	}
	for _, n := range names {
		s.items = append(s.items, genItem(r, n))
	}
	for _, n := range verifkit.Subset(r, []string{"o1", "o2", "o3"}) {
		s.outputs[n] = nil
		if r.Intn(2) == 0 {
			s.outputs[n] = verifkit.Pick(r, []any{"def", float64(5), false, "", float64(0), []any{"a"}})
		}
	}
	return s
}

func (s spec) load(dir string, n int) (*agent.Action, error) {
	in := map[string]any{}
	for _, i := range s.items {
		in[i.Name] = i.json()
	}
	out := map[string]any{}
	for k, d := range s.outputs {
		o := map[string]any{"description": k, "display_as": k, "type": "string"}
		if d != nil {
			o["default"] = d
		}
		out[k] = o
	}
	other := map[string]any{"action": "other", "input": map[string]any{"zeta": map[string]any{"type": "string", "optional": false}}, "output": map[string]any{}}
	doc := map[string]any{
		"$schema":  "https://choria.io/schemas/mcorpc/ddl/v1/agent.json",
		"metadata": map[string]any{"name": "probe", "version": "1.0.0", "timeout": 5},
		"actions":  []any{other, map[string]any{"action": "act", "input": in, "output": out, "display": "always"}},
	}
	j, _ := json.Marshal(doc)
	var d *agent.DDL
	var err error
	if n%10 == 0 {
		f := filepath.Join(dir, "probe.json")
		os.WriteFile(f, j, 0600)
		d, err = agent.New(f)
	} else {
		d, err = agent.NewFromBytes(j)
	}
	if err != nil {
		return nil, err
	}
	return d.ActionInterface("act")
}

// TestC10Requests validates request data against generated DDLs
func TestC10Requests(t *testing.T) {
	rec := verifkit.New(t, "C10", "for generated DDLs and inputs, native and through JSON, acceptance equals the declaration: all required present, none undeclared, every value of its type and satisfying its validation")
	rnd := verifkit.Rand("c10-requests")
	rec.Require("accepted", 1000)
	rec.Require("rejected", 1000)
	rec.Require("single fault", 1000)
	dir := t.TempDir()

	for n := 0; n < verifkit.N(6000, 100000); n++ {
		s := genSpec(rnd)
		act, err := s.load(dir, n)
		if err != nil {
			rec.Violation("load", "could not load DDL %v: %v", s, err)
			continue
		}

		for k := 0; k < 8; k++ {
			data := map[string]any{}
			for _, it := range s.items {
				if it.Optional && rnd.Intn(2) == 0 {
					continue
				}
				data[it.Name] = genValue(rnd, it, true)
			}
			// at most one fault in most cases
			if len(s.items) > 0 && k > 1 {
				it := verifkit.Pick(rnd, s.items)
				switch rnd.Intn(4) {
				case 0:
					delete(data, it.Name)
				case 1:
					data[verifkit.Pick(rnd, []string{"extra", strings.ToUpper(it.Name), it.Name + " ", ""})] = genValue(rnd, it, true)
				case 2:
					data[it.Name] = anyValue(rnd)
				case 3:
					data[it.Name] = genValue(rnd, it, false)
				}
			} else if len(s.items) == 0 && k > 3 {
				data["extra"] = 1
			}
			skip := false
			for _, v := range data {
				if sv, ok := v.(string); ok && ambiguousIP(sv) {
					skip = true
				}
			}
			if skip {
				continue
			}

			want := true
			faults := 0
			reason := ""
			known := map[string]bool{}
			for _, it := range s.items {
				known[it.Name] = true
				v, ok := data[it.Name]
				if !ok {
					if !it.Optional {
						want = false
						faults++
						reason = "missing " + it.Name
					}
					continue
				}
				if !it.accepts(v) {
					want = false
					faults++
					reason = fmt.Sprintf("%s does not accept %#v", it.Name, v)
				}
			}
			for kname := range data {
				if !known[kname] {
					want = false
					faults++
					reason = "undeclared " + kname
				}
			}
			id := verifkit.J(s.items) + verifkit.J(data)
			rec.Case(len(s.items) > 0, id)
			if want {
				rec.Count("accepted", 1)
			} else {
				rec.Count("rejected", 1)
				if faults == 1 {
					rec.Count("single fault", 1)
				}
			}

			before := verifkit.J(data)
			rec.NoPanic("request", id, func() {
				if rnd.Intn(6) == 0 {
					data["process_results"] = true
				}
				j, _ := json.Marshal(data)
				_, err := act.ValidateRequestData(data)
				delete(data, "process_results")
				if (err == nil) != want {
					rec.Violation("request", "inputs %s data %s: error %v, declaration accepts: %v (%s)", verifkit.J(s.items), before, err, want, reason)
				}
				if verifkit.J(data) != before {
					rec.Violation("request-altered", "validation changed the inputs from %s to %s", before, verifkit.J(data))
				}
				// every number is a float once it was JSON
				jwant := want
				jdata := map[string]any{}
				json.Unmarshal([]byte(before), &jdata)
				if faults == 1 {
					jwant = true
					for _, it := range s.items {
						v, ok := jdata[it.Name]
						jwant = jwant && ((ok && it.accepts(v)) || (!ok && it.Optional))
					}
					jwant = jwant && len(known) >= len(jdata)
					for kname := range jdata {
						jwant = jwant && known[kname]
					}
				} else if faults > 1 {
					jwant = (err == nil)
				}
				_, err = act.ValidateRequestJSON(j)
				if (err == nil) != jwant {
					rec.Violation("request-json", "inputs %s data %s: error %v, declaration accepts: %v (%s)", verifkit.J(s.items), before, err, want, reason)
				}
				for _, it := range s.items {
					if v, ok := data[it.Name]; ok {
						_, err := act.ValidateInputValue(it.Name, v)
						if (err == nil) != it.accepts(v) {
							rec.Violation("input", "input %s value %#v: %v", verifkit.J(it), v, err)
						}
					}
					if act.RequiresInput(it.Name) == it.Optional {
						rec.Violation("requires", "RequiresInput wrong for %s", verifkit.J(it))
					}
				}
			})

			// defaults
			rec.NoPanic("defaults", id, func() {
				in := map[string]any{}
				for kk, v := range data {
					in[kk] = v
				}
				act.SetDefaults(in)
				exp := map[string]any{}
				for kk, v := range data {
					exp[kk] = v
				}
				for _, it := range s.items {
					if _, ok := exp[it.Name]; !ok && it.Default != nil {
						exp[it.Name] = it.Default
						rec.Count("input default used", 1)
					}
				}
				if !reflect.DeepEqual(in, exp) {
					rec.Violation("defaults", "SetDefaults on %s of %s gives %s", before, verifkit.J(s.items), verifkit.J(in))
				}

				res := map[string]any{}
				for _, o := range verifkit.Subset(rnd, []string{"o1", "o2", "o3", "other"}) {
					res[o] = verifkit.Pick(rnd, []any{"set", "", nil, float64(0), false})
				}
				exp = map[string]any{}
				for kk, v := range res {
					exp[kk] = v
				}
				for o, d := range s.outputs {
					if _, ok := exp[o]; !ok && d != nil {
						exp[o] = d
						rec.Count("output default used", 1)
					}
				}
				was := verifkit.J(res)
				act.SetOutputDefaults(res)
				if !reflect.DeepEqual(res, exp) {
					rec.Violation("output-defaults", "SetOutputDefaults on %s with %s gives %s", was, verifkit.J(s.outputs), verifkit.J(res))
				}
			})
		}
	}
}

// convert is the reference conversion of text to the declared type, the result is compared as JSON
func (i item) convert(s string) (any, bool) {
	switch strings.ToLower(i.Type) {
	case "integer":
		n, err := strconv.ParseInt(s, 10, 64)
		return n, err == nil
	case "float", "number":
		f, err := strconv.ParseFloat(s, 64)
		return f, err == nil
	case "string", "list":
		return s, true
	case "boolean":
		switch s {
		case "1", "t", "T", "true", "TRUE", "True":
			return true, true
		case "0", "f", "F", "false", "FALSE", "False":
			return false, true
		}
		return nil, false
	case "hash":
		var v any
		if json.Unmarshal([]byte(s), &v) != nil {
			return nil, false
		}
		m, ok := v.(map[string]any)
		return m, ok
	case "array":
		var v any
		if json.Unmarshal([]byte(s), &v) != nil {
			return nil, false
		}
		m, ok := v.([]any)
		return m, ok
	}
	return nil, false
}

// TestC10Conversion converts what a user typed into typed inputs
func TestC10Conversion(t *testing.T) {
	rec := verifkit.New(t, "C10", "textual inputs convert to exactly the value of the declared type, or are refused, and defaults fill only what was not given")
	rnd := verifkit.Rand("c10-conversion")
	rec.Require("converted", 1000)
	rec.Require("refused", 1000)
	dir := t.TempDir()

	texts := func(it item) string {
		switch strings.ToLower(it.Type) {
		case "integer":
			return verifkit.Pick(rnd, []string{"1", "-5", "0", "+7", "007", "9223372036854775807", "9223372036854775808", "1.0", "1e3", "", " 1", "0x10", "1_000", "abc"})
		case "float", "number":
			return verifkit.Pick(rnd, []string{"1", "-5.5", "0", "1e3", ".5", "1.", "", " 1", "abc", "1,5", "3.14159"})
		case "boolean":
			return verifkit.Pick(rnd, []string{"true", "false", "1", "0", "t", "F", "TRUE", "False", "yes", "no", "", "2", "tRue", "on"})
		case "hash":
			return verifkit.Pick(rnd, []string{"{}", `{"a":1}`, `{"a":{"b":[1,2]}}`, "[]", "", "x", `{"a":1`, `"x"`, `{"a":1}x`})
		case "array":
			return verifkit.Pick(rnd, []string{"[]", `[1,"a",null]`, `[[1],{}]`, "{}", "", "x", "[1", `"x"`, "1,2"})
		case "list":
			return verifkit.Pick(rnd, []string{"one", "two", "three", "four", "five", "One", ""})
		default:
			v := genValue(rnd, it, rnd.Intn(4) > 0)
			if s, ok := v.(string); ok {
				return s
			}
			return randString(rnd)
		}
	}

	for n := 0; n < verifkit.N(8000, 120000); n++ {
		s := genSpec(rnd)
		act, err := s.load(dir, n)
		if err != nil {
			rec.Violation("load", "could not load DDL %v: %v", s, err)
			continue
		}
		for k := 0; k < 5; k++ {
			args := map[string]string{}
			want := true
			exp := map[string]any{}
			for _, it := range s.items {
				if rnd.Intn(4) == 0 {
					if it.Default != nil {
						exp[it.Name] = it.Default
						rec.Count("default used", 1)
					} else if !it.Optional {
						want = false
					}
					continue
				}
				txt := texts(it)
				if ambiguousIP(txt) {
					txt = "x"
				}
				name := it.Name
				if rnd.Intn(5) == 0 {
					name = strings.ToUpper(name)
				}
				args[name] = txt
				v, ok := it.convert(txt)
				if !ok || !it.accepts(v) {
					want = false
					rec.Count("refused", 1)
				} else {
					exp[it.Name] = v
					rec.Count("converted", 1)
				}

				rec.NoPanic("convert", txt, func() {
					_, err := act.ValidateInputString(it.Name, txt)
					if (err == nil) != (ok && it.accepts(v)) {
						rec.Violation("convert-input", "input %s text %q: %v", verifkit.J(it), txt, err)
					}
					inp, _ := act.GetInput(it.Name)
					cv, err := inp.ConvertStringValue(txt)
					if (err == nil) != ok {
						rec.Violation("convert-value", "converting %q to %s: %v, %v", txt, it.Type, cv, err)
					} else if ok && !reflect.DeepEqual(norm(cv), norm(v)) {
						rec.Violation("convert-value", "converting %q to %s gives %#v not %#v", txt, it.Type, cv, v)
					}
				})
			}
			if rnd.Intn(10) == 0 {
				args["undeclared"] = "1"
				want = false
			}
			id := verifkit.J(s.items) + verifkit.J(args)
			rec.Case(len(args) > 0, id)
			rec.NoPanic("convert", id, func() {
				got, _, err := act.ValidateAndConvertToDDLTypes(args)
				if (err == nil) != want {
					rec.Violation("convert", "inputs %s args %s: %v, declaration accepts: %v", verifkit.J(s.items), verifkit.J(args), err, want)
					return
				}
				if err == nil && !reflect.DeepEqual(norm(got), norm(exp)) {
					rec.Violation("convert-result", "inputs %s args %s: got %#v want %#v", verifkit.J(s.items), verifkit.J(args), got, exp)
				}
			})
		}
	}
}

// norm keeps the distinction between types that a request would show and drops the rest
func norm(v any) string {
	switch t := v.(type) {
	case int:
		return fmt.Sprintf("i:%d", t)
	case int64:
		return fmt.Sprintf("i:%d", t)
	case map[string]any:
		m := map[string]string{}
		for k, x := range t {
			m[k] = norm(x)
		}
		return verifkit.J(m)
	case []any:
		m := []string{}
		for _, x := range t {
			m = append(m, norm(x))
		}
		return verifkit.J(m)
	default:
		return fmt.Sprintf("%T:%v", v, v)
	}
}
