package ddl

import (
	"fmt"
	"math/rand"
	"net/netip"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/validator"
	"github.com/choria-io/go-choria/validator/duration"
	"github.com/choria-io/go-choria/validator/enum"
	"github.com/choria-io/go-choria/validator/ipaddress"
	"github.com/choria-io/go-choria/validator/ipv4"
	"github.com/choria-io/go-choria/validator/ipv6"
	"github.com/choria-io/go-choria/validator/maxlength"
	"github.com/choria-io/go-choria/validator/regex"
	"github.com/choria-io/go-choria/validator/shellsafe"
)

// the independent oracles

func refShellsafe(s string) bool {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '`', '$', ';', '|', '>', '<':
			return false
		case '&':
			if i+1 < len(s) && s[i+1] == '&' {
				return false
			}
		}
	}
	return true
}

func refIP4(s string) bool {
	a, err := netip.ParseAddr(s)
	return err == nil && a.Is4()
}

func refIP6(s string) bool {
	a, err := netip.ParseAddr(s)
	return err == nil && a.Is6() && a.Zone() == ""
}

func refDuration(s string) bool {
	_, err := time.ParseDuration(s)
	return err == nil
}

// textual ipv4 mapped addresses belong to both families depending on who you ask
func ambiguousIP(s string) bool {
	a, err := netip.ParseAddr(s)
	return err == nil && a.Is4In6()
}

func randString(r *rand.Rand) string {
	pieces := []string{"a", "b", "Z", "0", "9", " ", "-", "_", ".", "/", "\\", "'", "\"", "(", ")", "{", "}", "!", "*", "?", "#", "~", "%", "=", ",", "\n", "\t", "&", "`", "$", ";", "|", "&&", ">", "<", "$(x)", "`id`", "& &", ">>"}
	n := r.Intn(9)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if r.Intn(3) > 0 {
			b.WriteString(pieces[r.Intn(14)])
		} else {
			b.WriteString(verifkit.Pick(r, pieces))
		}
	}
	return b.String()
}

func randIP(r *rand.Rand) string {
	var s string
	if r.Intn(2) == 0 {
		oct := func() string {
			switch r.Intn(10) {
			case 0:
				return fmt.Sprint(250 + r.Intn(12))
			case 1:
				return fmt.Sprintf("0%d", r.Intn(9))
			case 2:
				return verifkit.Pick(r, []string{"", "-1", "+1", "a", "1e1", " 1", "0x1", "1000"})
			default:
				return fmt.Sprint(r.Intn(256))
			}
		}
		n := 4
		if r.Intn(6) == 0 {
			n = 3 + r.Intn(3)
		}
		var o []string
		for i := 0; i < n; i++ {
			o = append(o, oct())
		}
		s = strings.Join(o, ".")
	} else {
		grp := func() string {
			switch r.Intn(14) {
			case 0:
				return "g"
			case 1:
				return "12345"
			default:
				return fmt.Sprintf("%x", r.Intn(65536))
			}
		}
		n := 8
		switch r.Intn(5) {
		case 0:
			n = 7 + r.Intn(3)
		}
		var o []string
		for i := 0; i < n; i++ {
			o = append(o, grp())
		}
		if r.Intn(2) == 0 {
			k := r.Intn(n - 1)
			l := 1 + r.Intn(n-k-1)
			s = strings.Join(o[:k], ":") + "::" + strings.Join(o[k+l:], ":")
		} else {
			s = strings.Join(o, ":")
		}
		switch r.Intn(14) {
		case 0:
			s = "[" + s + "]"
		case 1:
			s += "%eth0"
		case 2:
			s += "/64"
		case 3:
			s = strings.ToUpper(s)
		}
	}
	switch r.Intn(16) {
	case 0:
		s = " " + s
	case 1:
		s += "\n"
	case 2:
		s += "x"
	case 3:
		s = ""
	}
	return s
}

func randDuration(r *rand.Rand) string {
	var b strings.Builder
	if r.Intn(5) == 0 {
		b.WriteString(verifkit.Pick(r, []string{"-", "+", " "}))
	}
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		b.WriteString(verifkit.Pick(r, []string{"1", "10", "0", "1.5", ".5", "5.", "x", "1e3"}))
		b.WriteString(verifkit.Pick(r, []string{"s", "m", "h", "ms", "us", "ns", "µs", "d", "", "S", "w"}))
	}
	return b.String()
}

var regexPool = []string{"world$", "^a", "[0-9]+", "^[a-z]+$", "^(one|two)$", "a{2}", "^$", "(?i)abc", "a|b=c", "x=1,2", "^.{0,3}$"}
var badRegex = []string{"(", "[a", "a{2,1}", "*"}
var reInputs = []string{"", "hello world", "world", "abc", "ABC", "one", "two", "three", "aab", "a", "b=c", "x=1,2", "123", "abc\n", "worlds"}

func randFor(r *rand.Rand, kind string) string {
	switch kind {
	case "ipv4", "ipv6", "ipaddress":
		return randIP(r)
	case "duration":
		return randDuration(r)
	case "regex":
		return verifkit.Pick(r, reInputs)
	case "enum":
		return verifkit.Pick(r, []string{"one", "two", "three", "on", "onee", "One", "", " one", "one,two", "four"})
	default:
		return randString(r)
	}
}

// TestC11Validators drives every exported validator with generated values next to its oracle
func TestC11Validators(t *testing.T) {
	rec := verifkit.New(t, "C11", "every standalone validator accepts exactly the values its documented language holds; verdicts and errors agree")
	rnd := verifkit.Rand("c11-validators")
	rec.Require("accepted", 500)
	rec.Require("rejected", 500)

	check := func(kind, arg, val string, want bool, got bool, err error) {
		rec.Case(true, kind+"\x00"+arg+"\x00"+val)
		if want {
			rec.Count("accepted", 1)
		} else {
			rec.Count("rejected", 1)
		}
		rec.Count("kind "+kind, 1)
		if got != want || (err == nil) != want {
			rec.Violation(kind, "%s(%q) %q: accepted=%v err=%v, documented language accepts it: %v", kind, arg, val, got, err, want)
		}
	}

	for i := 0; i < verifkit.N(60000, 1500000); i++ {
		rec.NoPanic("validators", i, func() {
			s := randString(rnd)
			ok, err := shellsafe.Validate(s)
			check("shellsafe", "", s, refShellsafe(s), ok, err)

			ip := randIP(rnd)
			if !ambiguousIP(ip) {
				ok, err = ipv4.ValidateString(ip)
				check("ipv4", "", ip, refIP4(ip), ok, err)
				ok, err = ipv6.ValidateString(ip)
				check("ipv6", "", ip, refIP6(ip), ok, err)
				ok, err = ipaddress.ValidateString(ip)
				check("ipaddress", "", ip, refIP4(ip) || refIP6(ip), ok, err)
			}

			d := randDuration(rnd)
			ok, err = duration.ValidateString(d)
			check("duration", "", d, refDuration(d), ok, err)

			max := rnd.Intn(10)
			ok, err = maxlength.ValidateString(s, max)
			check("maxlength", fmt.Sprint(max), s, len(s) <= max, ok, err)

			val := verifkit.Pick(rnd, reInputs)
			re := verifkit.Pick(rnd, regexPool)
			ok, err = regex.ValidateString(val, re)
			check("regex", re, val, regexp.MustCompile(re).MatchString(val), ok, err)
			re = verifkit.Pick(rnd, badRegex)
			ok, err = regex.ValidateString(val, re)
			check("regex", re, val, false, ok, err)

			valid := verifkit.Subset(rnd, []string{"one", "two", "three", "four", "", "one,two"})
			target := []string{}
			want := true
			for j := rnd.Intn(4); j > 0; j-- {
				e := randFor(rnd, "enum")
				target = append(target, e)
				in := false
				for _, v := range valid {
					in = in || v == e
				}
				want = want && in
			}
			ok, err = enum.ValidateSlice(target, valid)
			check("enumslice", verifkit.J(valid), verifkit.J(target), want, ok, err)
			if len(target) == 1 {
				ok, err = enum.ValidateString(target[0], valid)
				check("enum", verifkit.J(valid), target[0], want, ok, err)
			}
		})
	}

	// every byte and every pair of the interesting ones around harmless text
	for a := 0; a < 256; a++ {
		for _, s := range []string{string([]byte{byte(a)}), "x" + string([]byte{byte(a)}) + "y", string([]byte{byte(a), byte(a)})} {
			ok, err := shellsafe.Validate(s)
			check("shellsafe", "", s, refShellsafe(s), ok, err)
		}
	}
}

type fieldSpec struct {
	name  string
	tag   string
	kind  string
	value any // string, []string, int, map as nested
	valid bool
	sub   []fieldSpec
}

func genField(r *rand.Rand, n int, depth int) fieldSpec {
	f := fieldSpec{name: fmt.Sprintf("F%d", n)}
	if depth > 0 && r.Intn(6) == 0 {
		f.kind = "struct"
		f.valid = true
		for i := 0; i < 1+r.Intn(3); i++ {
			s := genField(r, i, depth-1)
			f.sub = append(f.sub, s)
			f.valid = f.valid && s.valid
		}
		return f
	}

	kinds := []string{"none", "shellsafe", "ipv4", "ipv6", "ipaddress", "duration", "maxlength", "regex", "enum", "enumslice", "maxslice", "wrongtype", "badtag"}
	f.kind = verifkit.Pick(r, kinds)
	switch f.kind {
	case "none":
		f.value = randString(r)
		f.valid = true
	case "shellsafe", "ipv4", "ipv6", "ipaddress", "duration":
		f.tag = f.kind
		if r.Intn(5) == 0 {
			f.tag = " " + f.tag + " "
		}
		s := randFor(r, f.kind)
		// mostly valid values so that a single violation matters
		for try := 0; try < 8 && !refFor(f.kind, s); try++ {
			s = randFor(r, f.kind)
		}
		for ambiguousIP(s) {
			s = "10.1.1.1"
		}
		f.value = s
		f.valid = refFor(f.kind, s)
	case "maxlength":
		max := r.Intn(12)
		s := randString(r)
		f.tag = fmt.Sprintf("maxlength=%d", max)
		f.value = s
		f.valid = len(s) <= max
	case "maxslice":
		max := r.Intn(4)
		s := make([]string, r.Intn(5))
		f.tag = fmt.Sprintf("maxlength=%d", max)
		f.value = s
		f.valid = len(s) <= max
	case "regex":
		re := verifkit.Pick(r, regexPool)
		s := verifkit.Pick(r, reInputs)
		for try := 0; try < 6 && !regexp.MustCompile(re).MatchString(s); try++ {
			s = verifkit.Pick(r, reInputs)
		}
		f.tag = "regex=" + re
		f.value = s
		f.valid = regexp.MustCompile(re).MatchString(s)
	case "enum", "enumslice":
		members := []string{"one", "two", "three"}[:1+r.Intn(3)]
		f.tag = "enum=" + strings.Join(members, ",")
		in := func(s string) bool {
			for _, m := range members {
				if m == s {
					return true
				}
			}
			return false
		}
		if f.kind == "enum" {
			s := randFor(r, "enum")
			for try := 0; try < 6 && !in(s); try++ {
				s = randFor(r, "enum")
			}
			f.value = s
			f.valid = in(s)
		} else {
			v := []string{}
			f.valid = true
			for i := r.Intn(4); i > 0; i-- {
				s := verifkit.Pick(r, members)
				if r.Intn(8) == 0 {
					s = randFor(r, "enum")
				}
				v = append(v, s)
				f.valid = f.valid && in(s)
			}
			f.value = v
		}
	case "wrongtype":
		if r.Intn(3) > 0 {
			f.value = 5
			f.valid = true
		} else {
			f.tag = verifkit.Pick(r, []string{"shellsafe", "ipv4", "ipv6", "ipaddress", "duration", "maxlength=5", "regex=.", "enum=5"})
			f.value = 5
		}
	case "badtag":
		if r.Intn(3) > 0 {
			f.value = true
			f.valid = true
		} else {
			f.tag = verifkit.Pick(r, []string{"maxlength=x", "maxlength", "maxlength=", "enum", "enum=", "regex", "regex=", "maxlength=-1"})
			f.value = ""
		}
	}
	return f
}

func refFor(kind, s string) bool {
	switch kind {
	case "shellsafe":
		return refShellsafe(s)
	case "ipv4":
		return refIP4(s)
	case "ipv6":
		return refIP6(s)
	case "ipaddress":
		return refIP4(s) || refIP6(s)
	case "duration":
		return refDuration(s)
	}
	panic(kind)
}

func buildType(fs []fieldSpec) reflect.Type {
	var sf []reflect.StructField
	for _, f := range fs {
		s := reflect.StructField{Name: f.name}
		if f.kind == "struct" {
			s.Type = buildType(f.sub)
		} else {
			s.Type = reflect.TypeOf(f.value)
		}
		if f.tag != "" {
			s.Tag = reflect.StructTag(fmt.Sprintf("json:%q validate:%q", f.name, f.tag))
		}
		sf = append(sf, s)
	}
	return reflect.StructOf(sf)
}

func fill(v reflect.Value, fs []fieldSpec) {
	for i, f := range fs {
		if f.kind == "struct" {
			fill(v.Field(i), f.sub)
			continue
		}
		v.Field(i).Set(reflect.ValueOf(f.value))
	}
}

func desc(fs []fieldSpec) string {
	var o []string
	for _, f := range fs {
		if f.kind == "struct" {
			o = append(o, f.name+"{"+desc(f.sub)+"}")
		} else {
			o = append(o, fmt.Sprintf("%s[%s]=%q(%v)", f.name, f.tag, f.value, f.valid))
		}
	}
	return strings.Join(o, " ")
}

// TestC11Structs validates generated structures as a whole and field by field
func TestC11Structs(t *testing.T) {
	rec := verifkit.New(t, "C11", "a generated tagged structure validates exactly when all of its fields do, also one field at a time")
	rnd := verifkit.Rand("c11-structs")
	rec.Require("valid structs", 200)
	rec.Require("invalid structs", 200)

	for i := 0; i < verifkit.N(12000, 200000); i++ {
		var fs []fieldSpec
		want := true
		bad := []string{}
		for j := 0; j < 1+rnd.Intn(5); j++ {
			f := genField(rnd, j, 2)
			// keep about half of the structures fully valid
			for !f.valid && rnd.Intn(4) > 0 {
				f = genField(rnd, j, 2)
			}
			fs = append(fs, f)
			want = want && f.valid
			if !f.valid {
				bad = append(bad, f.name)
			}
		}
		d := desc(fs)
		rec.Case(true, d)
		if want {
			rec.Count("valid structs", 1)
		} else {
			rec.Count("invalid structs", 1)
		}
		val := reflect.New(buildType(fs))
		fill(val.Elem(), fs)

		rec.NoPanic("struct", d, func() {
			ok, err := validator.ValidateStruct(val.Interface())
			if ok != want || (err == nil) != want {
				rec.Violation("struct", "ValidateStruct(%s) = %v, %v; violating fields %v", d, ok, err, bad)
			}
			ok, err = validator.ValidateStruct(val.Elem().Interface())
			if ok != want || (err == nil) != want {
				rec.Violation("struct", "ValidateStruct by value(%s) = %v, %v; violating fields %v", d, ok, err, bad)
			}
			for _, f := range fs {
				ok, err := validator.ValidateStructField(val.Interface(), f.name)
				if ok != f.valid || (err == nil) != f.valid {
					rec.Violation("struct-field", "ValidateStructField(%s) of %s = %v, %v", f.name, d, ok, err)
				}
			}
			ok, err = validator.ValidateStructField(val.Interface(), "Missing")
			if ok || err == nil {
				rec.Violation("struct-field-missing", "unknown field accepted")
			}
		})
	}
}
