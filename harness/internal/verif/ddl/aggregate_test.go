package ddl

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/aggregate"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent"
	"github.com/guptarohit/asciigraph"
)

// what an aggregate over an output is given: strings as they are, everything else as JSON
func textual(v any) string {
	if s, ok := v.(string); ok {
		return s
	}
	j, _ := json.Marshal(v)
	return string(j)
}

func numeric(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
		return 0, false
	}
	return f, true
}

func networkValue(r *rand.Rand) any {
	switch r.Intn(16) {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return verifkit.Pick(r, []string{"true", "false", "null", "1", "", "[1]", "NaN", "Inf", "-Inf", "1e400", "%s%d"})
	case 3:
		return []any{1, "a"}
	case 4:
		return map[string]any{"a": []any{1}}
	case 5:
		return verifkit.Pick(r, []any{1e300, -1e300, 1e-320, math.MaxFloat64})
	case 6, 7, 8, 9:
		return float64(r.Intn(200)-100) / 4
	case 10, 11:
		return fmt.Sprint(r.Intn(6))
	default:
		return verifkit.Pick(r, []string{"ubuntu", "debian", "centos", "al pha", "ÜÑÏ", "x:y"})
	}
}

type aggSpec struct {
	fn   string
	key  string
	args []any
}

// TestC28Actions aggregates replies the way clients do, in many orders and concurrently
func TestC28Actions(t *testing.T) {
	rec := verifkit.New(t, "C28", "aggregates of generated reply sets equal reference counts and means, for any arrival order, aggregated sequentially or concurrently, and hostile values never crash")
	rnd := verifkit.Rand("c28-actions")
	rec.Require("summarised values", 1000)
	rec.Require("averaged values", 1000)

	for n := 0; n < verifkit.N(2500, 40000); n++ {
		specs := []aggSpec{}
		mapping := map[string]string{}
		opts := map[string]any{}
		switch rnd.Intn(4) {
		case 0:
			mapping = map[string]string{"true": "enabled", "false": "disabled"}
			opts = map[string]any{"true": "enabled", "false": "disabled"}
		case 1:
			mapping = map[string]string{"ubuntu": "linux", "debian": "linux", "1": "one"}
			opts = map[string]any{"ubuntu": "linux", "debian": "linux", "1": "one"}
		}
		sargs := []any{"sum"}
		if len(opts) > 0 {
			sargs = append(sargs, opts)
		}
		specs = append(specs, aggSpec{verifkit.Pick(rnd, []string{"summary", "boolean_summary"}), "sum", sargs})
		aargs := []any{"avg"}
		format := "Average: %.3f"
		if rnd.Intn(3) == 0 {
			format = "mean %.1f"
			aargs = append(aargs, map[string]any{"format": format})
		}
		specs = append(specs, aggSpec{"average", "avg", aargs}, aggSpec{"chart", "cha", []any{"cha"}})
		// structurally wrong declarations are ignored
		bad := []any{[]any{}, nil, "x", []any{1}, map[string]any{}}
		aggs := []any{map[string]any{"function": "summary", "args": verifkit.Pick(rnd, bad)}, map[string]any{"function": "unknown", "args": []any{"sum"}}}
		for _, s := range specs {
			aggs = append(aggs, map[string]any{"function": s.fn, "args": s.args})
		}
		doc, _ := json.Marshal(map[string]any{"metadata": map[string]any{"name": "probe"}, "actions": []any{map[string]any{"action": "act", "aggregate": aggs}}})

		load := func() *agent.Action {
			d, err := agent.NewFromBytes(doc)
			if err != nil {
				rec.Violation("load", "could not load %s: %v", doc, err)
				return nil
			}
			a, _ := d.ActionInterface("act")
			return a
		}

		var replies []map[string]any
		extreme := rnd.Intn(4) == 0
		for k := rnd.Intn(14); k > 0; k-- {
			rep := map[string]any{}
			for _, key := range []string{"sum", "avg", "cha", "other"} {
				if rnd.Intn(8) == 0 {
					continue
				}
				v := networkValue(rnd)
				if f, ok := v.(float64); ok && !extreme && (math.Abs(f) > 1e6 || (f != 0 && math.Abs(f) < 1e-6)) {
					v = 1.5
				}
				rep[key] = v
			}
			replies = append(replies, rep)
		}

		id := string(doc) + verifkit.J(replies)
		rec.Case(len(replies) > 0, id)

		// reference
		wantSum := map[string]int{}
		sum, cnt := 0.0, 0
		big := false
		for _, rep := range replies {
			if v, ok := rep["sum"]; ok {
				s := textual(v)
				if m, ok := mapping[s]; ok {
					s = m
				}
				wantSum[s]++
				rec.Count("summarised values", 1)
			}
			if v, ok := rep["avg"]; ok {
				if f, ok := numeric(textual(v)); ok {
					sum += f
					cnt++
					big = big || math.Abs(f) > 1e15 || (f != 0 && math.Abs(f) < 1e-15)
					rec.Count("averaged values", 1)
				}
			}
		}

		verify := func(act *agent.Action, order string, seq []map[string]any) (sig string) {
			rec.NoPanic("results", id, func() {
				strs, err := act.AggregateSummaryStrings()
				if err != nil {
					rec.Violation("strings", "%v", err)
					return
				}
				exp := map[string]string{}
				for k, v := range wantSum {
					exp[k] = strconv.Itoa(v)
				}
				if !reflect.DeepEqual(strs["sum"], exp) {
					rec.Violation("summary", "%s: replies %s summarise to %s not %s", order, verifkit.J(replies), verifkit.J(strs["sum"]), verifkit.J(exp))
				}
				if cnt > 0 && !big {
					if strs["avg"]["Average"] != fmt.Sprintf("%f", sum/float64(cnt)) {
						rec.Violation("average", "%s: replies %s average to %s not %f", order, verifkit.J(replies), strs["avg"]["Average"], sum/float64(cnt))
					}
				}

				j, err := act.AggregateSummaryJSON()
				if err != nil {
					rec.Violation("json", "%v", err)
				}
				parsed := struct {
					Sum map[string]int     `json:"sum"`
					Avg map[string]float64 `json:"avg"`
					Cha map[string]string  `json:"cha"`
				}{}
				if err := json.Unmarshal(j, &parsed); err != nil {
					rec.Violation("json", "%s: %v", j, err)
				} else {
					if len(parsed.Sum) != len(wantSum) || (len(wantSum) > 0 && !reflect.DeepEqual(parsed.Sum, wantSum)) {
						// invalid utf8 never arrives through JSON so keys survive
						rec.Violation("summary-json", "%s: replies %s summarise to %s not %s", order, verifkit.J(replies), j, verifkit.J(wantSum))
					}
					if cnt > 0 && !big && math.Abs(parsed.Avg["average"]-sum/float64(cnt)) > 1e-9 {
						rec.Violation("average-json", "%s: replies %s average to %s not %f", order, verifkit.J(replies), j, sum/float64(cnt))
					}
				}

				f, err := act.AggregateSummaryFormattedStrings()
				if err != nil {
					rec.Violation("formatted", "%v", err)
				}
				got := map[string]int{}
				last := math.MaxInt
				for _, l := range f["sum"] {
					i := strings.LastIndex(l, ": ")
					if i < 0 {
						rec.Violation("formatted", "unexpected line %q", l)
						continue
					}
					v, _ := strconv.Atoi(l[i+2:])
					if v > last {
						rec.Violation("formatted-order", "%s: lines not by count: %q", order, f["sum"])
					}
					last = v
					got[strings.TrimSpace(l[:i])] += v
				}
				expTrim := map[string]int{}
				for k, v := range wantSum {
					expTrim[strings.TrimSpace(k)] += v
				}
				if !reflect.DeepEqual(got, expTrim) {
					rec.Violation("formatted", "%s: replies %s summarise to %q", order, verifkit.J(replies), f["sum"])
				}
				if cnt > 0 && !big && (len(f["avg"]) != 1 || f["avg"][0] != fmt.Sprintf(format, sum/float64(cnt))) {
					rec.Violation("formatted-average", "%s: %q", order, f["avg"])
				}

				if seq != nil && !extreme {
					var nums []float64
					for _, rep := range seq {
						if v, ok := rep["cha"]; ok {
							if x, ok := numeric(textual(v)); ok {
								nums = append(nums, x)
							}
						}
					}
					if len(nums) > 0 {
						exp := asciigraph.Plot(nums, asciigraph.Height(15), asciigraph.Width(60), asciigraph.Offset(5))
						if strs["cha"]["Chart"] != exp {
							rec.Violation("chart", "chart of %v differs", nums)
						}
						rec.Count("charts", 1)
					}
				}

				// the chart follows arrival order, the rest must not
				delete(f, "cha")
				if big {
					delete(f, "avg")
				}
				sig = verifkit.J(f)
			})
			return sig
		}

		base := ""
		for o := 0; o < 3; o++ {
			seq := append([]map[string]any{}, replies...)
			if o > 0 {
				rnd.Shuffle(len(seq), func(i, j int) { seq[i], seq[j] = seq[j], seq[i] })
			}
			act := load()
			if act == nil {
				break
			}
			rec.NoPanic("aggregate", id, func() {
				for _, rep := range seq {
					if o == 1 {
						act.AggregateResult(rep)
					} else {
						j, _ := json.Marshal(rep)
						act.AggregateResultJSON(j)
					}
				}
			})
			sig := verify(act, fmt.Sprintf("order %d", o), seq)
			if o == 0 {
				base = sig
			} else if sig != base {
				rec.Violation("order", "order of arrival changed the summary from %s to %s", base, sig)
			}
		}

		if n%8 == 0 {
			act := load()
			var wg sync.WaitGroup
			for _, rep := range replies {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							rec.Violation("panic:concurrent", "%v", e)
						}
					}()
					j, _ := json.Marshal(rep)
					act.AggregateResultJSON(j)
				}()
			}
			wg.Wait()
			if sig := verify(act, "concurrent", nil); sig != base {
				rec.Violation("order", "concurrent arrival changed the summary from %s to %s", base, sig)
			}
			rec.Count("concurrent runs", 1)
		}
	}

	for _, garbage := range []string{"", "null", "[]", "1", "{", `"x"`, "{\"sum\":null}"} {
		rec.NoPanic("garbage", garbage, func() {
			d, _ := agent.NewFromBytes([]byte(`{"metadata":{"name":"probe"},"actions":[{"action":"act","aggregate":[{"function":"summary","args":["sum"]}]}]}`))
			a, _ := d.ActionInterface("act")
			a.AggregateResultJSON([]byte(garbage))
			a.AggregateSummaryJSON()
		})
	}
}

// TestC28Aggregators drives the aggregators directly with typed values
func TestC28Aggregators(t *testing.T) {
	rec := verifkit.New(t, "C28", "directly driven aggregators conserve typed values: counts add up to the values accepted, means are exact")
	rnd := verifkit.Rand("c28-direct")

	for n := 0; n < verifkit.N(10000, 200000); n++ {
		var vals []any
		for k := rnd.Intn(12); k > 0; k-- {
			switch rnd.Intn(5) {
			case 0:
				vals = append(vals, rnd.Intn(10))
			case 1:
				vals = append(vals, int64(rnd.Intn(10)))
			default:
				vals = append(vals, networkValue(rnd))
			}
		}
		id := fmt.Sprintf("%#v", vals)
		rec.Case(len(vals) > 0, id)
		for _, fn := range []string{"summary", "boolean_summary", "average", "chart"} {
			rec.NoPanic("direct-"+fn, id, func() {
				a, err := aggregate.AggregatorByType(fn, []any{"x"})
				if err != nil {
					rec.Violation("type", "%v", err)
					return
				}
				accepted := 0
				sum := 0.0
				exact := true
				for _, v := range vals {
					if a.ProcessValue(v) == nil {
						accepted++
						switch x := v.(type) {
						case int:
							sum += float64(x)
						case int64:
							sum += float64(x)
						case float64:
							sum += x
							exact = exact && math.Abs(x) < 1e15 && (x == 0 || math.Abs(x) > 1e-15)
						case string:
							f, ok := numeric(x)
							if !ok && fn == "average" {
								rec.Violation("average-accepts", "average accepted %q", x)
							}
							sum += f
						default:
							if fn == "average" {
								rec.Violation("average-accepts", "average accepted %#v", v)
							}
						}
					} else if fn == "average" {
						if _, ok := numeric(textual(v)); ok {
							rec.Violation("average-refuses", "average refused %#v", v)
						}
					}
				}
				res, err := a.ResultStrings()
				if err != nil {
					rec.Violation("direct-"+fn, "%v", err)
					return
				}
				switch fn {
				case "summary", "boolean_summary":
					if accepted != len(vals) {
						rec.Violation("summary-refuses", "only %d of %s were accepted", accepted, id)
					}
					total := 0
					for _, v := range res {
						i, _ := strconv.Atoi(v)
						total += i
					}
					if total != accepted {
						rec.Violation("summary-total", "%d values give totals %s", accepted, verifkit.J(res))
					}
					f, _ := a.ResultFormattedStrings("%s|%d")
					total = 0
					for _, l := range f {
						i, _ := strconv.Atoi(l[strings.LastIndex(l, "|")+1:])
						total += i
					}
					if total != accepted {
						rec.Violation("summary-total", "%d values give totals %q", accepted, f)
					}
					j, _ := a.ResultJSON()
					m := map[string]int{}
					json.Unmarshal(j, &m)
					total = 0
					for _, i := range m {
						total += i
					}
					if total != accepted {
						rec.Violation("summary-total", "%d values give totals %s", accepted, j)
					}
				case "average":
					if accepted > 0 && exact {
						if res["Average"] != fmt.Sprintf("%f", sum/float64(accepted)) {
							rec.Violation("average", "%s average to %s not %f", id, res["Average"], sum/float64(accepted))
						}
					}
				}
				a.ResultFormattedStrings("")
				if j, err := a.ResultJSON(); err == nil && !json.Valid(j) {
					rec.Violation("direct-json", "invalid json %q", j)
				}
			})
		}
	}
}
