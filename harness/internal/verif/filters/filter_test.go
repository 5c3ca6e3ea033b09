package filters

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/filter"
	"github.com/choria-io/go-choria/filter/identity"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/protocol"
	v1 "github.com/choria-io/go-choria/protocol/v1"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/providers/data/ddl"
	"github.com/choria-io/go-choria/server/discovery"
)

type node struct {
	identity string
	classes  []string
	agents   []string
	doc      map[string]any
	dataErr  bool
	data     bool
}

func (n *node) Classes() []string { return n.classes }
func (n *node) Facts() json.RawMessage {
	j, _ := json.Marshal(n.doc)
	return j
}
func (n *node) Identity() string      { return n.identity }
func (n *node) KnownAgents() []string { return n.agents }
func (n *node) DataFuncMap() (ddl.FuncMap, error) {
	if n.dataErr {
		return nil, fmt.Errorf("simulated")
	}
	if !n.data {
		return ddl.FuncMap{}, nil
	}
	return ddl.FuncMap{"probe": {F: func(q string) any { return map[string]any{"q": q, "n": 2} }, Name: "probe", DDL: &ddl.DDL{Metadata: ddl.Metadata{Name: "probe", Timeout: 1}}}}, nil
}

var idents = []string{"n1.example.net", "n2.example.net", "web1.prod.example.net", "DB1.example.net", "n1"}
var classNames = []string{"apache", "Custom::Node", "role::web", "role::db", "common", "profile::mail"}
var agentNames = []string{"rpcutil", "package", "choria_util", "service", "scout"}

func genNode(r *rand.Rand) *node {
	return &node{identity: verifkit.Pick(r, idents), classes: verifkit.Subset(r, classNames), agents: verifkit.Subset(r, agentNames), doc: genFacts(r), data: r.Intn(2) == 0, dataErr: r.Intn(10) == 0}
}

func isRe(s string) (string, bool) {
	if len(s) > 1 && strings.HasPrefix(s, "/") && strings.HasSuffix(s, "/") {
		return s[1 : len(s)-1], true
	}
	return "", false
}

func one(f string, v string, fold bool) bool {
	if p, ok := isRe(f); ok {
		if fold {
			p = "(?i)" + p
		}
		re, err := regexp.Compile(p)
		return err == nil && re.MatchString(v)
	}
	if fold {
		return strings.EqualFold(f, v)
	}
	return f == v
}

func anyOf(f string, vs []string, fold bool) bool {
	for _, v := range vs {
		if one(f, v, fold) {
			return true
		}
	}
	return false
}

// cexpr is a compound expression with its expected outcome on a node
type cexpr struct {
	src string
	ev  func(n *node) verdict // skip here means evaluation fails, so no match
}

func genCompound(r *rand.Rand, depth int) cexpr {
	if depth > 0 && r.Intn(2) == 0 {
		a, b := genCompound(r, depth-1), genCompound(r, depth-1)
		switch r.Intn(3) {
		case 0:
			return cexpr{"(" + a.src + " && " + b.src + ")", func(n *node) verdict {
				x := a.ev(n)
				if x != yes {
					return x
				}
				return b.ev(n)
			}}
		case 1:
			return cexpr{"(" + a.src + " || " + b.src + ")", func(n *node) verdict {
				x := a.ev(n)
				if x != no {
					return x
				}
				return b.ev(n)
			}}
		default:
			return cexpr{"!(" + a.src + ")", func(n *node) verdict {
				switch a.ev(n) {
				case yes:
					return no
				case no:
					return yes
				}
				return skip
			}}
		}
	}
	switch r.Intn(10) {
	case 0, 1:
		f := verifkit.Pick(r, append([]string{"/web/", "/^choria/", "/role/"}, append(classNames, agentNames...)...))
		return cexpr{fmt.Sprintf("with(%q)", f), func(n *node) verdict {
			return b2v(anyOf(f, n.classes, true) || anyOf(f, n.agents, false))
		}}
	case 2, 3:
		path, op := genPath(r), verifkit.Pick(r, []string{"==", "<", "<=", ">", ">="})
		val := verifkit.Pick(r, []string{"hello", "1", "10", "1.5", "true", "web1"})
		return cexpr{fmt.Sprintf("with(%q)", strings.Join(path, ".")+op+val), func(n *node) verdict {
			return refFact(n.doc, path, op, val)
		}}
	case 4:
		c := verifkit.Pick(r, classNames)
		return cexpr{fmt.Sprintf("%q in classes", c), func(n *node) verdict {
			for _, i := range n.classes {
				if i == c {
					return yes
				}
			}
			return no
		}}
	case 5:
		a := verifkit.Pick(r, agentNames)
		return cexpr{fmt.Sprintf("%q in agents", a), func(n *node) verdict {
			for _, i := range n.agents {
				if i == a {
					return yes
				}
			}
			return no
		}}
	case 6:
		p := verifkit.Pick(r, keys)
		w := verifkit.Pick(r, words)
		return cexpr{fmt.Sprintf("fact(%q) == %q", p, w), func(n *node) verdict {
			s, ok := n.doc[p].(string)
			return b2v(ok && s == w)
		}}
	case 7:
		w := verifkit.Pick(r, words)
		i := verifkit.Pick(r, []string{"list", "role"})
		return cexpr{fmt.Sprintf("(fact(%q) != nil && type(fact(%q)) == 'array' && include(fact(%q), %q))", i, i, i, w), func(n *node) verdict {
			l, ok := n.doc[i].([]any)
			if !ok {
				return no
			}
			for _, x := range l {
				if x == w {
					return yes
				}
			}
			return no
		}}
	case 8:
		return cexpr{`probe("x").n == 2`, func(n *node) verdict {
			if n.data && !n.dataErr {
				return yes
			}
			return skip
		}}
	default:
		v := verifkit.Pick(r, []string{"1.2.3", "2.0.0", "0.9.0"})
		return cexpr{fmt.Sprintf("semver(%q, '>= 1.0.0')", v), func(n *node) verdict { return b2v(v != "0.9.0") }}
	}
}

var broken = []string{"(", "1 + ", "with(", "1", "'string'", "unknown_fn(1)", "semver('x', 'y')", "nil", "with(1)", "fact('list') + 1"}

type gen struct {
	f        *protocol.Filter
	ids      []string
	agents   []string
	classes  []string
	facts    [][4]any
	compound []cexpr
}

func genFilter(r *rand.Rand, n *node) *gen {
	g := &gen{f: protocol.NewFilter()}
	some := func(p int, f func()) {
		if r.Intn(p) == 0 {
			for i := 0; i < 1+r.Intn(3); i++ {
				f()
			}
		}
	}
	some(3, func() {
		i := verifkit.Pick(r, append([]string{n.identity, n.identity, "/example/", "/^n\\d/", "/PROD/", "/[/", "n", "N1.example.net", "/n1/x", "/db/", "/n1", "n1/", "/" + n.identity, n.identity + "/"}, idents...))
		g.f.AddIdentityFilter(i)
		g.ids = append(g.ids, i)
	})
	some(3, func() {
		pool := append([]string{"/rpc/", "/^choria_/", "/RPC/", "RPCUTIL", "rpc", "/(/", "nope", "/rpcutil", "package/", "/pack"}, agentNames...)
		pool = append(pool, n.agents...)
		pool = append(pool, n.agents...)
		i := verifkit.Pick(r, pool)
		g.f.AddAgentFilter(i)
		g.agents = append(g.agents, i)
	})
	some(3, func() {
		pool := append([]string{"/role/", "/ROLE::/", "Apache", "ROLE::WEB", "role", "/(/", "nope", "/^common$/", "/^\\w+$/", "/^\\W+$/", "/\\S::/", "/\\s::/", "/role", "common/", "/apache"}, classNames...)
		pool = append(pool, n.classes...)
		pool = append(pool, n.classes...)
		i := verifkit.Pick(r, pool)
		g.f.AddClassFilter(i)
		g.classes = append(g.classes, i)
	})
	some(3, func() {
		for {
			path, op := genPath(r), verifkit.Pick(r, ops)
			v, _ := lookup(n.doc, path)
			if v == false && op == "!=" {
				continue
			}
			val := genOperand(r, v, op)
			if val == "" || refFact(n.doc, path, op, val) == skip {
				continue
			}
			if r.Intn(2) == 0 && refFact(n.doc, path, op, val) == no {
				path, op, val = []string{"always"}, "==", "YES"
			}
			g.f.AddFactFilter(strings.Join(path, "."), op, val)
			g.facts = append(g.facts, [4]any{path, op, val})
			return
		}
	})
	some(3, func() {
		c := genCompound(r, 2)
		if r.Intn(12) == 0 {
			c = cexpr{verifkit.Pick(r, broken), func(*node) verdict { return skip }}
		} else if r.Intn(2) == 0 && c.ev(n) != yes {
			in := c
			c = cexpr{"!(" + in.src + ")", func(x *node) verdict {
				switch in.ev(x) {
				case yes:
					return no
				case no:
					return yes
				}
				return skip
			}}
		}
		g.f.AddCompoundFilter(c.src)
		g.compound = append(g.compound, c)
	})
	return g
}

func (g *gen) empty() bool {
	return len(g.ids)+len(g.agents)+len(g.classes)+len(g.facts)+len(g.compound) == 0
}

func (g *gen) want(n *node) bool {
	if len(g.ids) > 0 {
		m := false
		for _, i := range g.ids {
			if i == n.identity || one(i, n.identity, false) {
				m = true
			}
		}
		if !m {
			return false
		}
	}
	for _, a := range g.agents {
		if !anyOf(a, n.agents, false) {
			return false
		}
	}
	for _, c := range g.classes {
		if !anyOf(c, n.classes, true) {
			return false
		}
	}
	for _, f := range g.facts {
		if refFact(n.doc, f[0].([]string), f[1].(string), f[2].(string)) != yes {
			return false
		}
	}
	for _, c := range g.compound {
		if c.ev(n) != yes {
			return false
		}
	}
	return true
}

func (g *gen) String() string {
	j, _ := json.Marshal(g.f)
	return string(j)
}

func mkRequest(rec *verifkit.Rec, version int, f *protocol.Filter) protocol.Request {
	var req protocol.Request
	var err error
	if version == 1 {
		req, err = v1.NewRequest("rpcutil", "sender", "choria=caller", 60, "0123456789abcdef0123456789abcdef", "mcollective")
	} else {
		req, err = v2.NewRequest("rpcutil", "sender", "choria=caller", 60, "0123456789abcdef0123456789abcdef", "mcollective")
	}
	if err != nil {
		panic(err)
	}
	req.SetMessage([]byte("hello"))
	req.SetFilter(f)
	return req
}

// TestC06Discovery compares the server's discovery verdict with the documented conjunction
func TestC06Discovery(t *testing.T) {
	rec := verifkit.New(t, "C06", "random nodes and filters over identity, class, agent, fact and compound parts; non-trivial when the filter is not empty")
	r := verifkit.Rand("c06")
	log := logger()
	cfg := config.NewConfigForTests()
	for i := 0; i < verifkit.N(5000, 60000); i++ {
		n := genNode(r)
		mgr := discovery.New(cfg, n, log)
		g := genFilter(r, n)
		if r.Intn(40) == 0 {
			g = &gen{f: protocol.NewFilter()}
			if r.Intn(2) == 0 {
				g.f = &protocol.Filter{}
			}
		}
		if r.Intn(4) == 0 { // parts that were never set
			for _, p := range []*[]string{&g.f.Identity, &g.f.Class, &g.f.Agent} {
				if len(*p) == 0 && r.Intn(2) == 0 {
					*p = nil
				}
			}
			if len(g.f.Fact) == 0 && r.Intn(2) == 0 {
				g.f.Fact = nil
			}
			if len(g.f.Compound) == 0 && r.Intn(2) == 0 {
				g.f.Compound = nil
			}
		}
		want := g.want(n)
		parts := 0
		for _, l := range []int{len(g.ids), len(g.agents), len(g.classes), len(g.facts), len(g.compound)} {
			if l > 0 {
				parts++
			}
		}
		desc := fmt.Sprintf("filter %s node %s %v %v %s data=%v/%v", g, n.identity, n.classes, n.agents, n.Facts(), n.data, n.dataErr)
		rec.Case(!g.empty(), desc)
		rec.Count(fmt.Sprintf("parts-%d-%v", parts, want), 1)
		rec.NoPanic("ShouldProcess", desc, func() {
			for _, version := range []int{1, 2} {
				req := mkRequest(rec, version, g.f)
				got := mgr.ShouldProcess(req)
				if got != want {
					rec.Violation(fmt.Sprintf("verdict-%v", got), "%s: got %v", desc, got)
				}
				// meaning survives the wire
				if g.f.Agent == nil || g.f.Identity == nil || g.f.Class == nil || g.f.Fact == nil || g.f.Compound == nil { // cannot be sent
					continue
				}
				j, err := req.JSON()
				if err != nil {
					rec.Violation("encode", "%s: %v", desc, err)
					continue
				}
				var back protocol.Request
				if version == 1 {
					var sreq protocol.SecureRequest
					_ = sreq
					b := &protocol.Filter{}
					fj, _ := json.Marshal(g.f)
					if err := json.Unmarshal(fj, b); err != nil {
						rec.Violation("decode", "%s: %v", desc, err)
						continue
					}
					back = mkRequest(rec, 1, b)
					var env struct {
						Envelope struct {
							Filter *protocol.Filter `json:"filter"`
						} `json:"envelope"`
					}
					if json.Unmarshal(j, &env) == nil && env.Envelope.Filter != nil {
						back.SetFilter(env.Envelope.Filter)
					}
				} else {
					var env struct {
						Envelope struct {
							Filter *protocol.Filter `json:"filter"`
						} `json:"envelope"`
						Filter *protocol.Filter `json:"filter"`
					}
					b := &protocol.Filter{}
					fj, _ := json.Marshal(g.f)
					json.Unmarshal(fj, b)
					if json.Unmarshal(j, &env) == nil && env.Filter != nil {
						b = env.Filter
					}
					back = mkRequest(rec, 2, b)
				}
				if got := mgr.ShouldProcess(back); got != want {
					rec.Violation("verdict-after-wire", "%s: got %v", desc, got)
				}
			}
			// each part on its own
			if len(g.agents) > 0 {
				w := (&gen{agents: g.agents}).want(n)
				rec.Check(g.f.MatchAgents(n.agents) == w, "part-agents", "%s want %v", desc, w)
			}
			if len(g.classes) > 0 {
				w := (&gen{classes: g.classes}).want(n)
				rec.Check(g.f.MatchClasses(n.classes, log) == w, "part-classes", "%s want %v", desc, w)
			}
			if len(g.ids) > 0 {
				w := (&gen{ids: g.ids}).want(n)
				rec.Check(g.f.MatchIdentity(n.identity) == w, "part-identity", "%s want %v", desc, w)
			}
			if len(g.facts) > 0 {
				w := (&gen{facts: g.facts}).want(n)
				rec.Check(g.f.MatchFacts(n.Facts(), log) == w, "part-facts", "%s want %v", desc, w)
			}
			rec.Check(g.f.Empty() == g.empty(), "empty", "%s", desc)
		})
	}
	for p := 1; p <= 4; p++ {
		rec.Require(fmt.Sprintf("parts-%d-true", p), 1)
		rec.Require(fmt.Sprintf("parts-%d-false", p), 10)
	}
}

// TestC06Files checks the file based matchers against the in memory ones
func TestC06Files(t *testing.T) {
	rec := verifkit.New(t, "C06", "class and fact files against filters, including missing files")
	r := verifkit.Rand("c06files")
	log := logger()
	dir := t.TempDir()
	for i := 0; i < verifkit.N(1000, 8000); i++ {
		n := genNode(r)
		n.data, n.dataErr = false, false
		g := genFilter(r, n)
		cf, ff := filepath.Join(dir, "classes.txt"), filepath.Join(dir, "facts.json")
		os.WriteFile(cf, []byte(strings.Join(n.classes, "\n")+"\n"), 0600)
		os.WriteFile(ff, n.Facts(), 0600)
		rec.Case(!g.empty(), g.String()+fmt.Sprint(n.classes))
		rec.NoPanic("files", g.String(), func() {
			if len(g.classes) > 0 {
				w := (&gen{classes: g.classes}).want(n)
				// an unanchored regular expression may match the empty last line
				ok := true
				for _, c := range g.classes {
					if p, is := isRe(c); is {
						if re, err := regexp.Compile(p); err == nil && re.MatchString("") {
							ok = false
						}
					}
				}
				if ok {
					rec.Check(g.f.MatchClassesFile(cf, log) == w, "classes-file", "%s on %v want %v", g, n.classes, w)
				}
				rec.Check(!g.f.MatchClassesFile(cf+".missing", log), "missing-classes-file", "%s", g)
			}
			for _, has := range []bool{true, false, true} { // a file that changes without growing
				c := map[bool]string{true: "swapped", false: "another"}[has]
				os.WriteFile(cf, []byte(strings.Join(append([]string{c}, n.classes...), "\n")+"\n"), 0600)
				f := protocol.NewFilter()
				f.AddClassFilter("swapped")
				rec.Check(f.MatchClassesFile(cf, log) == has, "changed-classes-file", "a file holding %s", c)
			}
			os.WriteFile(cf, []byte(strings.Join(n.classes, "\n")+"\n"), 0600)
			if len(g.facts) > 0 {
				w := (&gen{facts: g.facts}).want(n)
				rec.Check(g.f.MatchFactsFile(ff, log) == w, "facts-file", "%s on %s want %v", g, n.Facts(), w)
				rec.Check(!g.f.MatchFactsFile(ff+".missing", log), "missing-facts-file", "%s", g)
			}
			if len(g.compound) > 0 {
				w := (&gen{compound: g.compound}).want(n)
				rec.Check(g.f.MatchCompoundFiles(ff, cf, n.agents, log) == w, "compound-files", "%s on %v %v %s want %v", g, n.classes, n.agents, n.Facts(), w)
				rec.Check(!g.f.MatchCompoundFiles(ff, cf+".missing", n.agents, log), "missing-compound-file", "%s", g)
				rec.Check(!g.f.MatchCompoundFiles(ff+".missing", cf, n.agents, log), "missing-compound-file", "%s", g)
			}
			nodes := verifkit.Subset(r, idents)
			for _, id := range g.ids {
				got := identity.FilterNodes(nodes, id)
				want := []string{}
				for _, x := range nodes {
					if x == id || one(id, x, false) {
						want = append(want, x)
					}
				}
				rec.Check(fmt.Sprint(got) == fmt.Sprint(want), "filter-nodes", "%v by %q: %v", nodes, id, got)
			}
		})
	}
}

// TestC06Build checks that filters built from user input contain what was asked for
func TestC06Build(t *testing.T) {
	rec := verifkit.New(t, "C06", "filters built from command line style inputs, including the combined form")
	r := verifkit.Rand("c06build")
	for i := 0; i < verifkit.N(5000, 50000); i++ {
		ids, ags, cls := verifkit.Subset(r, append(idents, "/x/", "")), verifkit.Subset(r, append(agentNames, "")), verifkit.Subset(r, append(classNames, ""))
		cmp := verifkit.Subset(r, []string{"with('a')", "fact('b') == 1", ""})
		fcts := verifkit.Subset(r, []string{"a=b", "c>=1", "d=~/x/", ""})
		f, err := filter.NewFilter(filter.IdentityFilter(ids...), filter.AgentFilter(ags...), filter.ClassFilter(cls...), filter.FactFilter(fcts...), filter.CompoundFilter(cmp...))
		rec.Case(true, fmt.Sprint(ids, ags, cls, cmp, fcts))
		if err != nil {
			rec.Violation("build", "%v", err)
			continue
		}
		ne := func(l []string) []string {
			o := []string{}
			for _, s := range l {
				if s != "" {
					o = append(o, s)
				}
			}
			return o
		}
		rec.Check(fmt.Sprint(f.IdentityFilters()) == fmt.Sprint(ne(ids)), "build-identity", "%v from %v", f.IdentityFilters(), ids)
		rec.Check(fmt.Sprint(f.AgentFilters()) == fmt.Sprint(ne(ags)), "build-agent", "%v from %v", f.AgentFilters(), ags)
		rec.Check(fmt.Sprint(f.ClassFilters()) == fmt.Sprint(ne(cls)), "build-class", "%v from %v", f.ClassFilters(), cls)
		var wc [][]map[string]string
		for _, c := range ne(cmp) {
			wc = append(wc, []map[string]string{{"expr": c}})
		}
		rec.Check(fmt.Sprint(f.CompoundFilters()) == fmt.Sprint(wc), "build-compound", "%v from %v", f.CompoundFilters(), cmp)
		rec.Check(len(f.FactFilters()) == len(ne(fcts)), "build-fact", "%v from %v", f.FactFilters(), fcts)
		rec.Check(f.Empty() == (len(ne(ids))+len(ne(ags))+len(ne(cls))+len(ne(cmp))+len(ne(fcts)) == 0), "build-empty", "%v", f)

		// combined filters are facts where they parse as facts and classes otherwise
		var parts, wantc, wantf []string
		for k := 0; k < r.Intn(5); k++ {
			if r.Intn(2) == 0 {
				c := verifkit.Pick(r, append(classNames, "/web/"))
				parts = append(parts, c)
				dup := false
				for _, x := range wantc {
					dup = dup || x == c
				}
				if !dup {
					wantc = append(wantc, c)
				}
			} else {
				parts = append(parts, verifkit.Pick(r, []string{"a=b", "c>=1", "d!=x"}))
				wantf = append(wantf, parts[len(parts)-1])
			}
		}
		f, err = filter.NewFilter(filter.CombinedFilter(strings.Join(parts, " ")))
		rec.Check(err == nil, "build-combined", "%v: %v", parts, err)
		rec.Check(fmt.Sprint(f.ClassFilters()) == fmt.Sprint(wantc) && len(f.FactFilters()) == len(wantf), "build-combined", "%v gave %v %v", parts, f.ClassFilters(), f.FactFilters())
	}
	// adding concurrently loses nothing
	for i := 0; i < verifkit.N(30, 300); i++ {
		f := protocol.NewFilter()
		wg := sync.WaitGroup{}
		for w := 0; w < 6; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for k := 0; k < 10; k++ {
					f.AddAgentFilter(fmt.Sprintf("a%d-%d", w, k))
					f.AddClassFilter(fmt.Sprintf("a%d-%d", w, k))
					f.AddIdentityFilter(fmt.Sprintf("a%d-%d", w, k))
					f.AddFactFilter(fmt.Sprintf("a%d-%d", w, k), "==", "1")
					f.AddCompoundFilter(fmt.Sprintf("a%d-%d", w, k))
					f.Empty()
				}
			}(w)
		}
		wg.Wait()
		rec.Case(true, fmt.Sprint("concurrent", i))
		rec.Check(len(f.Agent) == 60 && len(f.Class) == 60 && len(f.Identity) == 60 && len(f.Fact) == 60 && len(f.Compound) == 60, "concurrent-add", "lost filters")
	}
}
