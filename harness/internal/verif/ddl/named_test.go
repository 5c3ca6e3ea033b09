package ddl

import (
	"testing"

	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/validator"
)

type shared struct {
	A string
	B int
}

// TestC11Named validates structures of types that have the same name, or the same fields, and differ in what they declare
func TestC11Named(t *testing.T) {
	rec := verifkit.New(t, "C11", "each of several types of one name is validated as it declares, in any order")
	rec.Require("accepted", 200)
	rec.Require("refused", 200)
	kinds := []func(a string) (any, string){
		func(a string) (any, string) {
			type probe struct {
				A string `validate:"shellsafe"`
				B int
			}
			return &probe{A: a}, "shellsafe"
		},
		func(a string) (any, string) {
			type probe struct {
				A string `validate:"ipv4"`
				B int
			}
			return probe{A: a}, "ipv4"
		},
		func(a string) (any, string) {
			type probe struct {
				A string
				B int
			}
			return &probe{A: a}, ""
		},
		func(a string) (any, string) {
			type probe struct {
				A string `validate:"maxlength=4"`
				B int
			}
			return &probe{A: a}, "maxlength"
		},
		func(a string) (any, string) {
			type probe struct {
				B int
				A string `validate:"enum=up,down"`
			}
			return &probe{A: a}, "enum"
		},
		func(a string) (any, string) {
			type probe struct {
				A string `validate:"regex=^[a-z]+$"`
				B int
			}
			return probe{A: a}, "regex"
		},
		func(a string) (any, string) {
			type probe struct {
				A string `validate:"duration"`
			}
			return &probe{A: a}, "duration"
		},
		func(a string) (any, string) {
			type probe struct {
				A string `json:"validate" other:"shellsafe"`
			}
			return &probe{A: a}, ""
		},
		func(a string) (any, string) { return shared{A: a}, "" },
		func(a string) (any, string) { // with what differs one level down
			type inner struct {
				A string `validate:"ipv4"`
			}
			type probe struct{ A inner }
			return &probe{inner{a}}, "ipv4"
		},
		func(a string) (any, string) {
			type inner struct {
				A string `validate:"enum=up,down"`
			}
			type probe struct{ A inner }
			return &probe{inner{a}}, "enum"
		},
		func(a string) (any, string) { // converted from the same fields without tags
			type probe struct {
				A string `validate:"ipv4"`
				B int
			}
			return probe(shared{A: a}), "ipv4"
		},
	}
	good := map[string][]string{"shellsafe": {"1.2.3.4", "up", "1h", "long one"}, "ipv4": {"1.2.3.4"}, "": {"1.2.3.4", "up", "1h", "a|b", "long one"}, "maxlength": {"up", "1h", "a|b"}, "enum": {"up"}, "regex": {"up"}, "duration": {"1h"}}
	r := verifkit.Rand("c11-named")
	for range verifkit.N(2000, 20000) {
		k := r.Intn(len(kinds))
		a := verifkit.Pick(r, []string{"1.2.3.4", "up", "1h", "a|b", "long one"})
		v, rule := kinds[k](a)
		want := false
		for _, g := range good[rule] {
			want = want || g == a
		}
		rec.Case(true, rule+a)
		rec.Count(map[bool]string{true: "accepted", false: "refused"}[want], 1)
		rec.NoPanic("named", a, func() {
			ok, err := validator.ValidateStruct(v)
			rec.Check(ok == want && (err == nil) == want, "named-struct", "type %d %T, declared %q, holding %q gave %v %v", k, v, rule, a, ok, err)
			if k < 9 || k == 11 {
				ok, err = validator.ValidateStructField(v, "A")
				rec.Check(ok == want && (err == nil) == want, "named-field", "field of type %d %T, declared %q, holding %q gave %v %v", k, v, rule, a, ok, err)
			}
		})
	}
}
