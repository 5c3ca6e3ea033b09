package filters

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/filter"
	"github.com/choria-io/go-choria/filter/facts"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/protocol"
)

func logger() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return logrus.NewEntry(l)
}

// TestC07Operators compares every operator's verdict with a reference written on plain values
func TestC07Operators(t *testing.T) {
	rec := verifkit.New(t, "C07", "random fact documents, paths, operators and boundary operands; non-trivial when the fact exists")
	r := verifkit.Rand("c07ops")
	log := logger()
	for i := 0; i < verifkit.N(40000, 400000); i++ {
		doc := genFacts(r)
		j, _ := json.Marshal(doc)
		for k := 0; k < 4; k++ {
			path := genPath(r)
			op := verifkit.Pick(r, ops)
			v, exists := lookup(doc, path)
			val := genOperand(r, v, op)
			want := refFact(doc, path, op, val)
			if want == skip {
				rec.Count("undocumented", 1)
				continue
			}
			fp := strings.Join(path, ".")
			rec.Case(exists, fmt.Sprintf("%#v %s %q", v, op, val))
			rec.NoPanic("HasFactJSON", fmt.Sprintf("%s %s %s on %s", fp, op, val, j), func() {
				got, err := facts.HasFactJSON(fp, op, val, j, log)
				if err != nil && got {
					rec.Violation("error-and-match", "%s %s %q on %s: match with error %v", fp, op, val, j, err)
				}
				if got != (want == yes) {
					key := fmt.Sprintf("operator %s on %T", op, v)
					if v == false && op == "!=" {
						key = "false-not-equal"
					}
					rec.Violation(strings.ReplaceAll(key, " ", "-"), "%s %s %q on %s: got %v", fp, op, val, j, got)
				}
				mf := facts.MatchFacts([][3]string{{fp, op, val}}, j, log)
				if mf != got {
					rec.Violation("MatchFacts-differs", "%s %s %q on %s: MatchFacts %v HasFact %v", fp, op, val, j, mf, got)
				}
			})
			rec.Count("verdict-"+fmt.Sprint(want == yes)+"-"+op, 1)
		}
	}
	for _, op := range ops {
		rec.Require("verdict-true-"+op, 50)
		rec.Require("verdict-false-"+op, 50)
	}
	// unknown operators never match
	for _, op := range []string{"", "===", "~=", "<>", "=", "in", "=<"} {
		got, err := facts.HasFactJSON("a", op, "1", json.RawMessage(`{"a":1}`), log)
		rec.Case(true, "operator "+op)
		if got || err == nil {
			rec.Violation("unknown-operator", "operator %q gave %v %v", op, got, err)
		}
	}
	f := protocol.NewFilter()
	if f.AddFactFilter("a", "===", "1") == nil || len(f.FactFilters()) != 0 {
		rec.Violation("unknown-operator", "AddFactFilter accepted an invalid operator")
	}
}

// TestC07Parse checks the textual form of fact filters
func TestC07Parse(t *testing.T) {
	rec := verifkit.New(t, "C07", "fact filter strings built from parts, with every operator spelling and spacing, and malformed ones")
	r := verifkit.Rand("c07parse")
	spell := map[string]string{"=": "==", "==": "==", "!=": "!=", "<": "<", "<=": "<=", "=<": "<=", ">": ">", ">=": ">=", "=>": ">=", "=~": "=~"}
	var sps []string
	for _, k := range []string{"=", "==", "!=", "<", "<=", "=<", ">", ">=", "=>", "=~"} {
		sps = append(sps, k)
	}
	names := []string{"os", "os.name", "a_b.c-d", "net.eth0.ip", "x::y", "list.#", "with space", "åke", "1"}
	vals := []string{"linux", "1", "1.5", "-3", "a b", "x/y", "/web/", "/^a.b$/", "10.0.0.1/8", "true", "ü", "!", "a!b", "~x", "/x", "/a b/"}
	spaces := []string{"", " ", "  ", "\t"}
	for i := 0; i < verifkit.N(20000, 100000); i++ {
		n, o, v := verifkit.Pick(r, names), verifkit.Pick(r, sps), verifkit.Pick(r, vals)
		if strings.HasPrefix(v, "~") && strings.HasSuffix(o, "=") {
			continue
		}
		prefix := ""
		if r.Intn(6) == 0 {
			prefix = verifkit.Pick(r, []string{"a=b", "x>=1", "y!=z"}) + "."
		}
		s := verifkit.Pick(r, spaces) + prefix + n + verifkit.Pick(r, spaces) + o + verifkit.Pick(r, spaces) + v + verifkit.Pick(r, spaces)
		wantOp := spell[o]
		if strings.HasPrefix(v, "/") && strings.HasSuffix(v, "/") {
			wantOp = "=~"
		}
		rec.Case(true, s)
		rec.NoPanic("parse", s, func() {
			ff, err := filter.ParseFactFilterString(s)
			if err != nil {
				rec.Violation("parse-rejected", "%q: %v", s, err)
				return
			}
			if ff.Fact != prefix+n || ff.Operator != wantOp || ff.Value != v {
				rec.Violation("parse-wrong", "%q gave %#v, want %q %q %q", s, ff, prefix+n, wantOp, v)
			}
			pf, err := filter.NewFilter(filter.FactFilter(s))
			if err != nil {
				rec.Violation("parse-rejected", "FactFilter(%q): %v", s, err)
				return
			}
			l := pf.FactFilters()
			if len(l) != 1 || l[0] != [3]string{prefix + n, wantOp, v} {
				rec.Violation("parse-wrong", "FactFilter(%q): %v", s, l)
			}
		})
	}
	for _, n := range []string{"", " ", "a", "a b", "foo bar", "/a/", "a.b", "no operator here"} {
		for _, o := range append(sps, "") {
			for _, v := range []string{"", " "} {
				s := n + o + v
				rec.Case(true, "malformed "+s)
				rec.NoPanic("parse", s, func() {
					if ff, err := filter.ParseFactFilterString(s); err == nil {
						rec.Violation("parse-accepted", "malformed %q gave %#v", s, ff)
					}
					if _, err := filter.NewFilter(filter.FactFilter(s)); err == nil && s != "" {
						rec.Violation("parse-accepted", "FactFilter accepted malformed %q", s)
					}
				})
			}
			if o != "" {
				s := o + "value"
				rec.Case(true, "malformed "+s)
				if ff, err := filter.ParseFactFilterString(s); err == nil {
					rec.Violation("parse-accepted", "malformed %q gave %#v", s, ff)
				}
			}
		}
	}
	// any bytes at all
	for i := 0; i < verifkit.N(20000, 200000); i++ {
		b := make([]byte, r.Intn(12))
		for k := range b {
			b[k] = "=<>!~/ ab.\x00\xff"[r.Intn(12)]
		}
		rec.Case(true, string(b))
		rec.NoPanic("parse", fmt.Sprintf("%q", b), func() { filter.ParseFactFilterString(string(b)) })
	}
}

// TestC07Files checks facts read from files: merged with later files winning, unusable ones skipped
func TestC07Files(t *testing.T) {
	rec := verifkit.New(t, "C07", "facts from several yaml and json files, some missing or broken; non-trivial with two or more usable files")
	r := verifkit.Rand("c07files")
	log := logger()
	dir := t.TempDir()
	for i := 0; i < verifkit.N(600, 5000); i++ {
		merged := map[string]any{}
		var list []string
		usable := 0
		for n := 0; n < 1+r.Intn(4); n++ {
			path := filepath.Join(dir, fmt.Sprintf("f%d-%d.%s", i%3, n, verifkit.Pick(r, []string{"json", "yaml"})))
			doc := genFacts(r)
			delete(doc, "nil")
			j, _ := json.Marshal(doc)
			switch r.Intn(6) {
			case 0:
				path += ".missing"
			case 1:
				os.WriteFile(path, []byte("{broken: [json"), 0600)
			default:
				os.WriteFile(path, j, 0600)
				usable++
				json.Unmarshal(j, &map[string]any{})
				for k, v := range doc {
					merged[k] = v
				}
			}
			list = append(list, path)
		}
		src := strings.Join(list, ":")
		rec.Case(usable > 1, src+fmt.Sprint(merged))
		out, err := facts.JSON(src, log)
		if usable == 0 {
			rec.Check(err != nil, "no-facts-accepted", "no error for %s", src)
			rec.Check(!facts.MatchFile([][3]string{{"always", "==", "yes"}}, src, log), "no-facts-match", "%s", src)
		} else {
			rec.Check(err == nil, "facts-lost", "%s: %v", src, err)
			want, _ := json.Marshal(merged)
			var a, b any
			json.Unmarshal(want, &a)
			json.Unmarshal(out, &b)
			wa, _ := json.Marshal(a)
			wb, _ := json.Marshal(b)
			if string(wa) != string(wb) {
				rec.Violation("facts-merge", "files %s merged to %s want %s", src, wb, wa)
			}
			for k := 0; k < 5; k++ {
				path, op := genPath(r), verifkit.Pick(r, ops)
				v, _ := lookup(merged, path)
				if n, ok := v.(int64); ok && (n > 1<<50 || n < -(1<<50)) {
					continue
				}
				if v == false && op == "!=" {
					continue
				}
				val := genOperand(r, v, op)
				want := refFact(merged, path, op, val)
				if want == skip {
					continue
				}
				got := facts.MatchFile([][3]string{{"always", "==", "yes"}, {strings.Join(path, "."), op, val}}, src, log)
				if got != (want == yes) {
					rec.Violation("match-file", "%v %s %q over %s: got %v", path, op, val, wa, got)
				}
				rec.Count("file-matches", 1)
			}
			// files that change are read again, also when they look alike
			for k := len(list) - 1; k >= 0; k-- {
				j, err := os.ReadFile(list[k])
				if err != nil || !json.Valid(j) || !strings.Contains(string(j), `"always":"yes"`) {
					continue
				}
				for _, v := range []string{"nay", "yes"} {
					os.WriteFile(list[k], []byte(strings.Replace(string(j), `"always":"yes"`, `"always":"`+v+`"`, 1)), 0600)
					got := facts.MatchFile([][3]string{{"always", "==", "yes"}}, src, log)
					rec.Check(got == (v == "yes"), "changed-file", "always is %s in the last file of %s, got %v", v, src, got)
					rec.Count("files changed", 1)
				}
				break
			}
		}
		for _, f := range list {
			os.Remove(f)
		}
	}
	rec.Require("file-matches", 100)
	rec.Require("files changed", 100)
}
