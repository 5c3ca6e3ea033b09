package filters

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"strings"

	"github.com/choria-io/go-choria/internal/verifkit"
)

type verdict int

const (
	no verdict = iota
	yes
	skip
)

func b2v(b bool) verdict {
	if b {
		return yes
	}
	return no
}

var intRe = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)
var floatRe = regexp.MustCompile(`^-?[0-9]+\.[0-9]+$`)

func lookup(doc map[string]any, path []string) (any, bool) {
	var cur any = doc
	for _, p := range path {
		m, ok := cur.(map[string]any)
		if !ok {
			return nil, false
		}
		cur, ok = m[p]
		if !ok {
			return nil, false
		}
	}
	return cur, true
}

func numRat(v any) *big.Rat {
	r := new(big.Rat)
	switch n := v.(type) {
	case int:
		r.SetInt64(int64(n))
	case int64:
		r.SetInt64(n)
	case float64:
		j, _ := json.Marshal(n)
		r.SetString(string(j))
	}
	return r
}

func truthy(v string) bool {
	switch v {
	case "1", "t", "T", "true", "TRUE", "True":
		return true
	}
	return false
}

func cmpOp(op string, c int) bool {
	switch op {
	case "==":
		return c == 0
	case "!=":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	}
	panic(op)
}

// refFact is the documented fact comparison, written from the documentation on plain Go values
func refFact(doc map[string]any, path []string, op string, val string) verdict {
	v, ok := lookup(doc, path)
	if !ok || v == nil {
		return no
	}
	switch f := v.(type) {
	case string:
		if op == "=~" {
			p := strings.TrimSuffix(strings.TrimPrefix(val, "/"), "/")
			re, err := regexp.Compile("(?i)" + p)
			if err != nil {
				return no
			}
			return b2v(re.MatchString(f))
		}
		return b2v(cmpOp(op, strings.Compare(strings.ToLower(f), strings.ToLower(val))))
	case int, int64, float64:
		if op == "=~" {
			p := strings.TrimSuffix(strings.TrimPrefix(val, "/"), "/")
			switch f.(type) {
			case float64:
				return skip
			}
			if strings.Contains(p, ".") {
				return skip
			}
			re, err := regexp.Compile("(?i)" + p)
			if err != nil {
				return no
			}
			return b2v(re.MatchString(fmt.Sprint(f)))
		}
		if !intRe.MatchString(val) && !floatRe.MatchString(val) {
			switch op {
			case "==":
				return no
			case "!=":
				if strings.Contains(val, ".") {
					return skip
				}
				if _, isf := f.(float64); isf {
					return skip
				}
				return yes
			}
			return no
		}
		o := new(big.Rat)
		o.SetString(val)
		return b2v(cmpOp(op, numRat(v).Cmp(o)))
	case bool:
		switch op {
		case "==":
			return b2v(truthy(val) == f)
		case "!=":
			return b2v(truthy(val) != f)
		case "=~":
			if regexp.MustCompile(`[A-Z]|/`).MatchString(val) {
				return skip
			}
			return b2v(truthy(val) == f)
		}
		return no
	default:
		return no
	}
}

var words = []string{"hello", "Hello", "web", "web1", "web10", "prod", "PROD", "a", "B", "", "1", "1.5", "true", "x y", "z-1", "åke", "/lead", "10", "9"}
var ints = []int64{0, 1, -1, 2, 9, 10, 11, 99, 100, 1000, -10, 1 << 31, 1 << 40, 1<<52 + 1}
var floats = []float64{0.5, 1.5, 1.2, -1.5, 2.25, 10.5, 9.75, 99.125, 1000.001, -0.25, 2.999}

func genScalar(r *rand.Rand) any {
	switch r.Intn(8) {
	case 0, 1, 2:
		return verifkit.Pick(r, words)
	case 3, 4:
		return verifkit.Pick(r, ints)
	case 5:
		return verifkit.Pick(r, floats)
	case 6:
		return r.Intn(2) == 0
	default:
		return nil
	}
}

var keys = []string{"os", "net", "load", "role", "up", "nil", "list", "deep", "k_1"}

func genFacts(r *rand.Rand) map[string]any {
	doc := map[string]any{}
	for _, k := range keys {
		switch r.Intn(5) {
		case 0:
			sub := map[string]any{}
			for _, s := range []string{"name", "version", "sub"} {
				switch r.Intn(3) {
				case 0:
					sub[s] = genScalar(r)
				case 1:
					sub[s] = map[string]any{"leaf": genScalar(r)}
				}
			}
			doc[k] = sub
		case 1:
			doc[k] = []any{genScalar(r), genScalar(r)}
		case 2:
		default:
			doc[k] = genScalar(r)
		}
	}
	doc["always"] = "yes"
	return doc
}

func genPath(r *rand.Rand) []string {
	p := []string{verifkit.Pick(r, append(keys, "missing", "always"))}
	if r.Intn(3) == 0 {
		p = append(p, verifkit.Pick(r, []string{"name", "version", "sub"}))
		if r.Intn(3) == 0 {
			p = append(p, "leaf")
		}
	}
	return p
}

var ops = []string{"==", "!=", "<", "<=", ">", ">=", "=~"}

// genOperand is biased towards values near the fact's
func genOperand(r *rand.Rand, v any, op string) string {
	if op == "=~" {
		return verifkit.Pick(r, []string{"/web/", "/^web\\d+$/", "web", "/HELLO/", "/^h.llo$/", "/[/", "/^1/", "/^\\d+$/", "true", "t", "/(a|b)/", "/o$/", "/^$/", "0"})
	}
	switch n := v.(type) {
	case int64:
		switch r.Intn(8) {
		case 0:
			return fmt.Sprint(n)
		case 1:
			return fmt.Sprint(n + 1)
		case 2:
			return fmt.Sprint(n - 1)
		case 3:
			if n < 1<<50 {
				return fmt.Sprintf("%d.0", n)
			}
		case 4:
			if n < 1<<50 {
				return fmt.Sprintf("%d.5", n)
			}
		case 5:
			return verifkit.Pick(r, []string{"abc", "x.y", "1,0", "0x10"})
		}
	case float64:
		switch r.Intn(6) {
		case 0:
			j, _ := json.Marshal(n)
			return string(j)
		case 1:
			return fmt.Sprint(int64(n))
		case 2:
			return fmt.Sprint(int64(n) + 1)
		case 3:
			return fmt.Sprint(int64(n) - 1)
		case 4:
			return fmt.Sprintf("%.3f", n+0.001)
		}
	case string:
		switch r.Intn(4) {
		case 0:
			return n
		case 1:
			return strings.ToUpper(n)
		case 2:
			return n + "a"
		}
	case bool:
		return verifkit.Pick(r, []string{"true", "false", "t", "f", "T", "F", "1", "0", "True", "TRUE", "bob", "yes"})
	}
	if r.Intn(2) == 0 {
		return verifkit.Pick(r, words)
	}
	return fmt.Sprint(verifkit.Pick(r, ints))
}
