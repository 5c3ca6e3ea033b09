From c75a29e2764e6bff1a79ec591eb82ef6f2fd6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 001/126] fix: strictly compare float facts with the > operator

---
 filter/facts/matchers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/facts/matchers.go b/filter/facts/matchers.go
index 42f5bf4..3debf41 100644
--- a/filter/facts/matchers.go
+++ b/filter/facts/matchers.go
@@ -169,7 +169,7 @@ func gtMatch(fact gjson.Result, value string) (bool, error) {
 				return false, err
 			}
 
-			return fact.Float() >= f, nil
+			return fact.Float() > f, nil
 		}
 
 		v, err := strconv.Atoi(value)
-- 
2.43.0


From afa971e9c5578d2e9e120132b44c5ce472610f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 002/126] fix: compare facts with fractions to whole numbers
 without truncating them

---
 filter/facts/matchers.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/filter/facts/matchers.go b/filter/facts/matchers.go
index 3debf41..54f3716 100644
--- a/filter/facts/matchers.go
+++ b/filter/facts/matchers.go
@@ -6,6 +6,7 @@ package facts
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -19,7 +20,7 @@ func eqMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.EqualFold(fact.String(), value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareAsFloat(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -82,7 +83,7 @@ func leMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) <= strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareAsFloat(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -109,7 +110,7 @@ func geMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) >= strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareAsFloat(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -136,7 +137,7 @@ func ltMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) < strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareAsFloat(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -163,7 +164,7 @@ func gtMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) > strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareAsFloat(fact, value) {
 			f, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -190,7 +191,7 @@ func neMatch(fact gjson.Result, value string) (bool, error) {
 		return !strings.EqualFold(fact.String(), value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if compareAsFloat(fact, value) {
 			f, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -232,6 +233,23 @@ func regexMatch(value string, pattern string) (bool, error) {
 	return re.MatchString(value), nil
 }
 
+// determines if a number fact and value must be compared as floats, when either has a
+// fractional part an integer comparison would ignore it. Values that are not numbers are
+// left to the integer comparisons to reject
+func compareAsFloat(fact gjson.Result, value string) bool {
+	if strings.Contains(value, ".") {
+		return true
+	}
+
+	if fact.Num == math.Trunc(fact.Num) {
+		return false
+	}
+
+	_, err := strconv.Atoi(value)
+
+	return err == nil
+}
+
 func truthy(value string) bool {
 	b, err := strconv.ParseBool(value)
 
-- 
2.43.0


From 8068019d76db7d7fabc894d8998269d556113280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 003/126] fix: require every compound filter to match

---
 filter/compound/compound.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/compound/compound.go b/filter/compound/compound.go
index 628b1cf..d90b488 100644
--- a/filter/compound/compound.go
+++ b/filter/compound/compound.go
@@ -101,7 +101,7 @@ func MatchExprString(queries [][]map[string]string, facts json.RawMessage, class
 		if res {
 			matched++
 		} else {
-			matched--
+			failed++
 		}
 	}
 
-- 
2.43.0


From b33fd1151d47179ef730730afc7501fcf7f8ba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 004/126] fix: match class names holding capitals exactly

---
 filter/classes/classes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/classes/classes.go b/filter/classes/classes.go
index 79ae386..f6f8953 100644
--- a/filter/classes/classes.go
+++ b/filter/classes/classes.go
@@ -72,7 +72,7 @@ func hasClassMatching(needle string, stack []string) bool {
 func hasClass(needle string, stack []string) bool {
 	lneedle := strings.ToLower(needle)
 	for _, class := range stack {
-		if class == lneedle {
+		if strings.ToLower(class) == lneedle {
 			return true
 		}
 	}
-- 
2.43.0


From 5e856cf96b44a9712c63d98f313087f348c80611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:10 +0000
Subject: [PATCH 005/126] fix: validate DDL string inputs that have no maximum
 length

---
 providers/agent/mcorpc/ddl/common/input_item.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/providers/agent/mcorpc/ddl/common/input_item.go b/providers/agent/mcorpc/ddl/common/input_item.go
index 3653882..af1241d 100644
--- a/providers/agent/mcorpc/ddl/common/input_item.go
+++ b/providers/agent/mcorpc/ddl/common/input_item.go
@@ -95,12 +95,8 @@ func (i *InputItem) ValidateValue(val any) (warnings []string, err error) {
 			return warnings, fmt.Errorf("is not a string")
 		}
 
-		if i.MaxLength == 0 {
-			return warnings, nil
-		}
-
 		sval := val.(string)
-		if len(sval) > i.MaxLength {
+		if i.MaxLength > 0 && len(sval) > i.MaxLength {
 			return warnings, fmt.Errorf("is longer than %d characters", i.MaxLength)
 		}
 
-- 
2.43.0


From c4c38935830adb32d7bfbca849e28b470c372009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 006/126] fix: average only finite numbers and average nothing
 to zero

---
 providers/agent/mcorpc/aggregate/average.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/providers/agent/mcorpc/aggregate/average.go b/providers/agent/mcorpc/aggregate/average.go
index 27b6c78..656e377 100644
--- a/providers/agent/mcorpc/aggregate/average.go
+++ b/providers/agent/mcorpc/aggregate/average.go
@@ -7,6 +7,7 @@ package aggregate
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"sync"
 )
@@ -65,7 +66,7 @@ func (a *AverageAggregator) ResultJSON() ([]byte, error) {
 	a.Lock()
 	defer a.Unlock()
 
-	avg := a.sum / float64(a.count)
+	avg := a.average()
 
 	return json.Marshal(map[string]float64{
 		"average": avg,
@@ -77,7 +78,7 @@ func (a *AverageAggregator) ResultStrings() (map[string]string, error) {
 	a.Lock()
 	defer a.Unlock()
 
-	avg := a.sum / float64(a.count)
+	avg := a.average()
 
 	return map[string]string{"Average": fmt.Sprintf("%f", avg)}, nil
 }
@@ -87,7 +88,7 @@ func (a *AverageAggregator) ResultFormattedStrings(format string) ([]string, err
 	a.Lock()
 	defer a.Unlock()
 
-	avg := a.sum / float64(a.count)
+	avg := a.average()
 
 	if format == "" {
 		if a.format != "" {
@@ -100,6 +101,14 @@ func (a *AverageAggregator) ResultFormattedStrings(format string) ([]string, err
 	return []string{fmt.Sprintf(format, avg)}, nil
 }
 
+func (a *AverageAggregator) average() float64 {
+	if a.count == 0 {
+		return 0
+	}
+
+	return a.sum / float64(a.count)
+}
+
 func (a *AverageAggregator) processString(v any) bool {
 	s, ok := v.(string)
 	if !ok {
@@ -107,7 +116,7 @@ func (a *AverageAggregator) processString(v any) bool {
 	}
 
 	f, err := strconv.ParseFloat(s, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
 		return false
 	}
 
@@ -119,7 +128,7 @@ func (a *AverageAggregator) processString(v any) bool {
 
 func (a *AverageAggregator) processFloat(v any) bool {
 	f, ok := v.(float64)
-	if !ok {
+	if !ok || math.IsNaN(f) || math.IsInf(f, 0) {
 		return false
 	}
 
-- 
2.43.0


From 00edd41e55b51064556144b24a6ace42bbb14605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 007/126] fix: do not crash when charting no values or extreme
 values

---
 providers/agent/mcorpc/aggregate/chart.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/providers/agent/mcorpc/aggregate/chart.go b/providers/agent/mcorpc/aggregate/chart.go
index 6039e96..ee842a3 100644
--- a/providers/agent/mcorpc/aggregate/chart.go
+++ b/providers/agent/mcorpc/aggregate/chart.go
@@ -7,6 +7,7 @@ package aggregate
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"sync"
 
@@ -101,7 +102,7 @@ func (s *ChartAggregator) processString(v any) bool {
 	}
 
 	f, err := strconv.ParseFloat(str, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
 		return false
 	}
 
@@ -112,7 +113,7 @@ func (s *ChartAggregator) processString(v any) bool {
 
 func (s *ChartAggregator) processFloat(v any) bool {
 	f, ok := v.(float64)
-	if !ok {
+	if !ok || math.IsNaN(f) || math.IsInf(f, 0) {
 		return false
 	}
 
@@ -143,6 +144,17 @@ func (s *ChartAggregator) processInt64(v any) bool {
 	return true
 }
 
-func (s *ChartAggregator) chart() string {
+func (s *ChartAggregator) chart() (line string) {
+	if len(s.items) == 0 {
+		return ""
+	}
+
+	// the graph cannot be scaled for extreme ranges of values
+	defer func() {
+		if recover() != nil {
+			line = ""
+		}
+	}()
+
 	return asciigraph.Plot(s.items, asciigraph.Height(15), asciigraph.Width(60), asciigraph.Offset(5))
 }
-- 
2.43.0


From d07ac02586be99ff7702e1b096c4708448b57119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 008/126] fix: summarise values of any type, in a stable order
 and without losing counts

---
 providers/agent/mcorpc/aggregate/summary.go | 31 +++++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/providers/agent/mcorpc/aggregate/summary.go b/providers/agent/mcorpc/aggregate/summary.go
index a974203..ac8f0aa 100644
--- a/providers/agent/mcorpc/aggregate/summary.go
+++ b/providers/agent/mcorpc/aggregate/summary.go
@@ -7,6 +7,7 @@ package aggregate
 import (
 	"encoding/json"
 	"fmt"
+	"reflect"
 	"sort"
 	"sync"
 )
@@ -89,6 +90,15 @@ func (s *SummaryAggregator) ProcessValue(v any) error {
 				item = tm
 			}
 		}
+
+		// hashes and arrays cannot be used as keys
+		if item != nil && !reflect.TypeOf(item).Comparable() {
+			if err != nil {
+				return fmt.Errorf("unsupported data type for summary aggregator")
+			}
+
+			item = string(vs)
+		}
 	}
 
 	_, ok := s.items[item]
@@ -112,8 +122,8 @@ func (s *SummaryAggregator) ResultStrings() (map[string]string, error) {
 		return result, nil
 	}
 
-	for k, v := range s.items {
-		result[fmt.Sprintf("%v", k)] = fmt.Sprintf("%d", v)
+	for k, v := range s.counts() {
+		result[k] = fmt.Sprintf("%d", v)
 	}
 
 	return result, nil
@@ -124,12 +134,17 @@ func (s *SummaryAggregator) ResultJSON() ([]byte, error) {
 	s.Lock()
 	defer s.Unlock()
 
+	return json.Marshal(s.counts())
+}
+
+// counts are the totals by the textual form of items, many items can share a textual form
+func (s *SummaryAggregator) counts() map[string]int {
 	result := map[string]int{}
 	for k, v := range s.items {
-		result[fmt.Sprintf("%v", k)] = v
+		result[fmt.Sprintf("%v", k)] += v
 	}
 
-	return json.Marshal(result)
+	return result
 }
 
 // ResultFormattedStrings return the results in a formatted way, if no format is given a calculated value is used
@@ -149,8 +164,8 @@ func (s *SummaryAggregator) ResultFormattedStrings(format string) ([]string, err
 	}
 
 	var sortable []kv
-	for k, v := range s.items {
-		sortable = append(sortable, kv{fmt.Sprintf("%v", k), v})
+	for k, v := range s.counts() {
+		sortable = append(sortable, kv{k, v})
 	}
 
 	max := 0
@@ -170,6 +185,10 @@ func (s *SummaryAggregator) ResultFormattedStrings(format string) ([]string, err
 	}
 
 	sort.Slice(sortable, func(i int, j int) bool {
+		if sortable[i].Val == sortable[j].Val {
+			return sortable[i].Key < sortable[j].Key
+		}
+
 		return sortable[i].Val > sortable[j].Val
 	})
 
-- 
2.43.0


From 5a7501794f909c9ffb5ceecc5e09650e0586a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 009/126] fix: ignore aggregates without arguments

---
 providers/agent/mcorpc/ddl/agent/aggregators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/ddl/agent/aggregators.go b/providers/agent/mcorpc/ddl/agent/aggregators.go
index e8b419d..899578a 100644
--- a/providers/agent/mcorpc/ddl/agent/aggregators.go
+++ b/providers/agent/mcorpc/ddl/agent/aggregators.go
@@ -53,7 +53,7 @@ func newActionAggregators(a *Action) *actionAggregators {
 		var args []any
 
 		err := json.Unmarshal(spec.Arguments, &args)
-		if err != nil {
+		if err != nil || len(args) == 0 {
 			continue
 		}
 
-- 
2.43.0


From 96b6000ee53641e8f745b2d74b2af01d6194e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 010/126] fix: expire cached SRV records at their age
 regardless of use

---
 srvcache/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srvcache/cache.go b/srvcache/cache.go
index 8f14973..2e6cf76 100644
--- a/srvcache/cache.go
+++ b/srvcache/cache.go
@@ -49,9 +49,9 @@ func (c *Cache) LookupSRV(service string, proto string, name string) (cname stri
 		if err != nil {
 			return "", nil, err
 		}
-	}
 
-	c.store(q, cname, addrs)
+		c.store(q, cname, addrs)
+	}
 
 	srvctr.WithLabelValues(c.identity).Inc()
 
-- 
2.43.0


From 06c0c39673bf8c12049bd90081c4eda5e4f870fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 011/126] fix: handle empty backoff policies and negative tries

---
 backoff/backoff.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/backoff/backoff.go b/backoff/backoff.go
index 9ec7a07..4265b0f 100644
--- a/backoff/backoff.go
+++ b/backoff/backoff.go
@@ -45,6 +45,14 @@ var Default = FiveSec
 // backoff policy. This is b.Millis[n], randomized to avoid thundering
 // herds.
 func (b Policy) Duration(n int) time.Duration {
+	if len(b.Millis) == 0 {
+		return 0
+	}
+
+	if n < 0 {
+		n = 0
+	}
+
 	if n >= len(b.Millis) {
 		n = len(b.Millis) - 1
 	}
-- 
2.43.0


From f6014b6dc9f6d82fd202be2dd23afaba21472d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 012/126] fix: keep version tallies consistent when leadership
 changes

---
 lifecycle/tally/tally.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lifecycle/tally/tally.go b/lifecycle/tally/tally.go
index 5901bed..2475f03 100644
--- a/lifecycle/tally/tally.go
+++ b/lifecycle/tally/tally.go
@@ -68,6 +68,7 @@ type observation struct {
 	ts        time.Time
 	component string
 	version   string
+	active    string // the label the observation was tallied under
 }
 
 // New creates a new Recorder
@@ -109,6 +110,17 @@ func (r *Recorder) activeLabel() string {
 	return strconv.Itoa(int(atomic.LoadInt32(&r.active)))
 }
 
+// tallyObservation counts an observation under the current leadership state
+func (r *Recorder) tallyObservation(obs *observation) {
+	obs.active = r.activeLabel()
+	r.versionsTally.WithLabelValues(obs.component, obs.version, obs.active).Inc()
+}
+
+// untallyObservation removes an observation from where it was counted, the leadership might have changed since
+func (r *Recorder) untallyObservation(obs *observation) {
+	r.versionsTally.WithLabelValues(obs.component, obs.version, obs.active).Dec()
+}
+
 func (r *Recorder) processAlive(e lifecycle.Event) error {
 	alive := e.(*lifecycle.AliveEvent)
 
@@ -134,7 +146,7 @@ func (r *Recorder) processAlive(e lifecycle.Event) error {
 			ts:        time.Now(),
 		}
 
-		r.versionsTally.WithLabelValues(alive.Component(), alive.Version, r.activeLabel()).Inc()
+		r.tallyObservation(cobs.hosts[hname])
 
 		return nil
 	}
@@ -142,9 +154,9 @@ func (r *Recorder) processAlive(e lifecycle.Event) error {
 	cobs.hosts[hname].ts = time.Now()
 
 	if obs.version != alive.Version {
-		r.versionsTally.WithLabelValues(alive.Component(), obs.version, r.activeLabel()).Dec()
+		r.untallyObservation(obs)
 		obs.version = alive.Version
-		r.versionsTally.WithLabelValues(alive.Component(), obs.version, r.activeLabel()).Inc()
+		r.tallyObservation(obs)
 	}
 
 	return nil
@@ -168,7 +180,7 @@ func (r *Recorder) processStartup(e lifecycle.Event) error {
 
 	obs, ok := cobs.hosts[hname]
 	if ok {
-		r.versionsTally.WithLabelValues(startup.Component(), obs.version, r.activeLabel()).Dec()
+		r.untallyObservation(obs)
 	}
 
 	cobs.hosts[hname] = &observation{
@@ -177,7 +189,7 @@ func (r *Recorder) processStartup(e lifecycle.Event) error {
 		component: startup.Component(),
 	}
 
-	r.versionsTally.WithLabelValues(startup.Component(), startup.Version, r.activeLabel()).Inc()
+	r.tallyObservation(cobs.hosts[hname])
 
 	return nil
 }
@@ -200,7 +212,7 @@ func (r *Recorder) processShutdown(e lifecycle.Event) error {
 	}
 
 	delete(cobs.hosts, hname)
-	r.versionsTally.WithLabelValues(shutdown.Component(), obs.version, r.activeLabel()).Dec()
+	r.untallyObservation(obs)
 
 	return nil
 }
@@ -260,7 +272,7 @@ func (r *Recorder) maintenance() {
 
 		for host, obs := range r.observed[component].hosts {
 			if obs.ts.Before(oldest) {
-				r.versionsTally.WithLabelValues(obs.component, obs.version, r.activeLabel()).Dec()
+				r.untallyObservation(obs)
 				older[host] = obs
 			}
 		}
-- 
2.43.0


From 3b260efa7aeb6f27a886afb895e5e8228ed01c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 013/126] fix: name the shutdown event type correctly

---
 lifecycle/lifecycle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lifecycle/lifecycle.go b/lifecycle/lifecycle.go
index ed9636e..993b2b5 100644
--- a/lifecycle/lifecycle.go
+++ b/lifecycle/lifecycle.go
@@ -58,7 +58,7 @@ func (t Type) String() string {
 	case Startup:
 		return "Startup"
 	case Shutdown:
-		return "Startup"
+		return "Shutdown"
 	case Provisioned:
 		return "Provisioned"
 	case Alive:
-- 
2.43.0


From 29385741dede172096cd9e38ec2867fb628777a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:44 +0000
Subject: [PATCH 014/126] fix: expanding an empty path does not crash

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 6597d84..bf80863 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -342,7 +342,7 @@ func UniqueStrings(items []string, shouldSort bool) []string {
 // ExpandPath expands a path that starts in ~ to the users homedir
 func ExpandPath(p string) (string, error) {
 	a := strings.TrimSpace(p)
-	if a[0] == '~' {
+	if strings.HasPrefix(a, "~") {
 		home, err := HomeDir()
 		if err != nil {
 			return "", err
-- 
2.43.0


From 8b8a0a48e3fd9e2cda543040ea462d216fb7a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 015/126] fix: empty titled strings do not crash configuration
 parsing

---
 confkey/confkey.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/confkey/confkey.go b/confkey/confkey.go
index 34e49f6..5744244 100644
--- a/confkey/confkey.go
+++ b/confkey/confkey.go
@@ -289,7 +289,9 @@ func SetStructFieldWithKey(target any, key string, value any) error {
 			switch tag {
 			case "title_string":
 				a := []rune(value.(string))
-				a[0] = unicode.ToUpper(a[0])
+				if len(a) > 0 {
+					a[0] = unicode.ToUpper(a[0])
+				}
 				*ptr = string(a)
 			case "path_string":
 				a, err := util.ExpandPath(value.(string))
-- 
2.43.0


From 14574f998a351e71a79d6f039ddf5dcad4964511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 016/126] fix: report values that are not booleans

---
 confkey/confkey.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/confkey/confkey.go b/confkey/confkey.go
index 5744244..e9d6cd6 100644
--- a/confkey/confkey.go
+++ b/confkey/confkey.go
@@ -304,7 +304,10 @@ func SetStructFieldWithKey(target any, key string, value any) error {
 
 	case reflect.Bool:
 		ptr := field.Addr().Interface().(*bool)
-		b, _ := strToBool(value.(string))
+		b, err := strToBool(value.(string))
+		if err != nil {
+			return err
+		}
 		*ptr = b
 	}
 
-- 
2.43.0


From 28e3efcff99519cbaaa52e383f5d52363adc1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 017/126] fix: report configuration lines that are too long
 instead of ignoring the rest of the file

---
 config/util.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/config/util.go b/config/util.go
index 8a95948..1acc2e7 100644
--- a/config/util.go
+++ b/config/util.go
@@ -19,6 +19,9 @@ import (
 	iu "github.com/choria-io/go-choria/internal/util"
 )
 
+// the longest line supported in configuration files
+const maxLineLength = 1024 * 1024
+
 // ProjectConfigurationFiles returns any configuration file in the specified directory and their parents directories.
 func ProjectConfigurationFiles(path string) ([]string, error) {
 	var (
@@ -153,13 +156,12 @@ func parseConfig(path string, config any, prefix string, found map[string]string
 		c.ParsedFiles = append(c.ParsedFiles, path)
 	}
 
-	parseConfigContents(file, config, prefix, found)
-
-	return nil
+	return parseConfigContents(file, config, prefix, found)
 }
 
-func parseConfigContents(content io.Reader, config any, prefix string, found map[string]string) {
+func parseConfigContents(content io.Reader, config any, prefix string, found map[string]string) error {
 	scanner := bufio.NewScanner(content)
+	scanner.Buffer(nil, maxLineLength)
 	itemr := regexp.MustCompile(`(.+?)\s*=\s*(.+)`)
 	skipr := regexp.MustCompile(`^#|^$`)
 
@@ -186,4 +188,6 @@ func parseConfigContents(content io.Reader, config any, prefix string, found map
 			}
 		}
 	}
+
+	return scanner.Err()
 }
-- 
2.43.0


From 6d13ae2dbd8b16896b47b6bab78c99c36bdba43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:37 +0000
Subject: [PATCH 018/126] fix: honour the unconfigured access setting of action
 policies

---
 providers/agent/mcorpc/authz_actionpolicy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/authz_actionpolicy.go b/providers/agent/mcorpc/authz_actionpolicy.go
index 0612635..3c83aac 100644
--- a/providers/agent/mcorpc/authz_actionpolicy.go
+++ b/providers/agent/mcorpc/authz_actionpolicy.go
@@ -216,7 +216,9 @@ func (a *actionPolicy) lookupPolicyFile() (string, error) {
 		}
 	}
 
-	return "", fmt.Errorf("no policy found for %s", a.req.Agent)
+	a.log.Debugf("No policy found for %s", a.req.Agent)
+
+	return "", nil
 }
 
 func (a *actionPolicy) parseGroupFile(gfile string) error {
-- 
2.43.0


From 4ebd1dec9a133b2dc00f474e354dcefce018abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 019/126] fix: the requires_filter policy function takes no
 arguments and does not crash

---
 providers/agent/mcorpc/authz_jwt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/providers/agent/mcorpc/authz_jwt.go b/providers/agent/mcorpc/authz_jwt.go
index 8722a40..82af8a2 100644
--- a/providers/agent/mcorpc/authz_jwt.go
+++ b/providers/agent/mcorpc/authz_jwt.go
@@ -183,15 +183,15 @@ func opaInputs(req *Request, data json.RawMessage, site string, claims *tokens.C
 
 func opaFunctionsMap(req *Request) []func(r *rego.Rego) {
 	return []func(r *rego.Rego){
-		rego.Function1(&rego.Function{Name: "requires_filter", Decl: types.NewFunction(types.Args(), types.B)}, opaFuncRequiresFilter(req)),
+		rego.FunctionDyn(&rego.Function{Name: "requires_filter", Decl: types.NewFunction(types.Args(), types.B)}, opaFuncRequiresFilter(req)),
 		rego.Function1(&rego.Function{Name: "requires_fact_filter", Decl: types.NewFunction(types.Args(types.S), types.B)}, opaFuncRequiresFactFilter(req)),
 		rego.Function1(&rego.Function{Name: "requires_class_filter", Decl: types.NewFunction(types.Args(types.S), types.B)}, opaFuncRequiresClassFilter(req)),
 		rego.Function1(&rego.Function{Name: "requires_identity_filter", Decl: types.NewFunction(types.Args(types.S), types.B)}, opaFuncRequiresIdentityFilter(req)),
 	}
 }
 
-func opaFuncRequiresFilter(req *Request) func(_ rego.BuiltinContext, a *ast.Term) (*ast.Term, error) {
-	return func(_ rego.BuiltinContext, a *ast.Term) (*ast.Term, error) {
+func opaFuncRequiresFilter(req *Request) func(_ rego.BuiltinContext, _ []*ast.Term) (*ast.Term, error) {
+	return func(_ rego.BuiltinContext, _ []*ast.Term) (*ast.Term, error) {
 		// agent is always set, so we don't check it else it will always be true
 		if len(req.Filter.ClassFilters()) > 0 || len(req.Filter.IdentityFilters()) > 0 || len(req.Filter.FactFilters()) > 0 || len(req.Filter.CompoundFilters()) > 0 {
 			return ast.BooleanTerm(true), nil
-- 
2.43.0


From 0f22f8928fddcc73d8a8d19cb77365b6e79554d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:50 +0000
Subject: [PATCH 020/126] fix: read values that are not booleans as false
 again, reverting 14574f9

---
 confkey/confkey.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/confkey/confkey.go b/confkey/confkey.go
index e9d6cd6..5744244 100644
--- a/confkey/confkey.go
+++ b/confkey/confkey.go
@@ -304,10 +304,7 @@ func SetStructFieldWithKey(target any, key string, value any) error {
 
 	case reflect.Bool:
 		ptr := field.Addr().Interface().(*bool)
-		b, err := strToBool(value.(string))
-		if err != nil {
-			return err
-		}
+		b, _ := strToBool(value.(string))
 		*ptr = b
 	}
 
-- 
2.43.0


From b44f8782ed5b4d42e38b91752a763c7f218eaf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:16 +0000
Subject: [PATCH 021/126] fix: discover nodes that reply more than once only
 once

---
 providers/discovery/broadcast/broadcast.go | 10 ++++++++--
 providers/discovery/puppetdb/puppetdb.go   |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/providers/discovery/broadcast/broadcast.go b/providers/discovery/broadcast/broadcast.go
index 5d7c3a7..738afad 100644
--- a/providers/discovery/broadcast/broadcast.go
+++ b/providers/discovery/broadcast/broadcast.go
@@ -23,6 +23,7 @@ import (
 
 	"github.com/choria-io/go-choria/client/client"
 	"github.com/choria-io/go-choria/inter"
+	"github.com/choria-io/go-choria/internal/util"
 	"github.com/choria-io/go-choria/protocol"
 	"github.com/sirupsen/logrus"
 )
@@ -87,7 +88,7 @@ func (b *Broadcast) Discover(ctx context.Context, opts ...DiscoverOption) (n []s
 
 	if b.identityOptimize(dopts.filter) {
 		b.log.Debugf("Performing identity-only filter optimization")
-		return dopts.filter.IdentityFilters(), nil
+		return util.UniqueStrings(dopts.filter.IdentityFilters(), false), nil
 	}
 
 	dopts.msg, err = b.createMessage(dopts.filter, dopts.collective)
@@ -107,7 +108,7 @@ func (b *Broadcast) Discover(ctx context.Context, opts ...DiscoverOption) (n []s
 		return n, fmt.Errorf("could not perform request: %s", err)
 	}
 
-	return dopts.discovered, nil
+	return util.UniqueStrings(dopts.discovered, false), nil
 }
 
 func (b *Broadcast) identityOptimize(filter *protocol.Filter) bool {
@@ -162,6 +163,11 @@ func (b *Broadcast) handler(ctx context.Context, cancel func(), dopts *dOpts) cl
 			return
 		}
 
+		if reply.SenderID() == "" {
+			b.log.Errorf("Ignoring a reply without a sender")
+			return
+		}
+
 		dopts.mu.Lock()
 		defer dopts.mu.Unlock()
 
diff --git a/providers/discovery/puppetdb/puppetdb.go b/providers/discovery/puppetdb/puppetdb.go
index 3b6d454..48bbf98 100644
--- a/providers/discovery/puppetdb/puppetdb.go
+++ b/providers/discovery/puppetdb/puppetdb.go
@@ -18,6 +18,7 @@ import (
 	"golang.org/x/text/language"
 
 	"github.com/choria-io/go-choria/config"
+	"github.com/choria-io/go-choria/internal/util"
 	"github.com/choria-io/go-choria/protocol"
 )
 
@@ -69,7 +70,7 @@ func (p *PuppetDB) Discover(_ context.Context, opts ...DiscoverOption) (n []stri
 	}
 
 	if p.identityOptimize(dopts.filter) {
-		return dopts.filter.IdentityFilters(), nil
+		return util.UniqueStrings(dopts.filter.IdentityFilters(), false), nil
 	}
 
 	search, err := p.searchString(dopts.collective, dopts.filter)
-- 
2.43.0


From f0b22e7e8b346c802433bc75836e46ce38febbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:16 +0000
Subject: [PATCH 022/126] fix: discover nodes listed or matched more than once
 in flat files only once

---
 providers/discovery/flatfile/flatfile.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/providers/discovery/flatfile/flatfile.go b/providers/discovery/flatfile/flatfile.go
index ab3b8b2..34b6373 100644
--- a/providers/discovery/flatfile/flatfile.go
+++ b/providers/discovery/flatfile/flatfile.go
@@ -22,6 +22,7 @@ import (
 
 	"github.com/choria-io/go-choria/filter/identity"
 	"github.com/choria-io/go-choria/inter"
+	"github.com/choria-io/go-choria/internal/util"
 	"github.com/choria-io/go-choria/providers/agent/mcorpc/replyfmt"
 )
 
@@ -123,10 +124,10 @@ func (f *FlatFile) Discover(_ context.Context, opts ...DiscoverOption) (n []stri
 		for _, idf := range dopts.filter.Identity {
 			matched = append(matched, identity.FilterNodes(nodes, idf)...)
 		}
-		return matched, nil
+		return util.UniqueStrings(matched, false), nil
 	}
 
-	return nodes, nil
+	return util.UniqueStrings(nodes, false), nil
 }
 
 func (f *FlatFile) validateNodes(nodes []string) error {
-- 
2.43.0


From 9978730fe07e01520fa43072b66caa6324934a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:16 +0000
Subject: [PATCH 023/126] fix: require every compound filter in inventory
 discovery and report nodes once

---
 providers/discovery/inventory/inventory.go | 35 ++++++++++++++--------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/providers/discovery/inventory/inventory.go b/providers/discovery/inventory/inventory.go
index dc9bb93..fcb1e1b 100644
--- a/providers/discovery/inventory/inventory.go
+++ b/providers/discovery/inventory/inventory.go
@@ -149,17 +149,20 @@ func (i *Inventory) isValidGroupLookup(f *protocol.Filter) (grouped bool, err er
 func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collective string, f *protocol.Filter) ([]string, error) {
 	var (
 		matched []string
-		query   string
-		prog    *vm.Program
-		err     error
+		progs   []*vm.Program
 	)
 
-	if len(f.CompoundFilters()) > 0 {
-		query = f.CompoundFilters()[0][0]["expr"]
-		prog, err = compound.CompileExprQuery(query, nil)
+	for _, cf := range f.CompoundFilters() {
+		if len(cf) != 1 {
+			return nil, fmt.Errorf("invalid compound filter")
+		}
+
+		prog, err := compound.CompileExprQuery(cf[0]["expr"], nil)
 		if err != nil {
 			return nil, err
 		}
+
+		progs = append(progs, prog)
 	}
 
 	for _, node := range d.Nodes {
@@ -210,13 +213,21 @@ func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collec
 			}
 		}
 
-		if len(f.CompoundFilters()) > 0 {
-			b, _ := compound.MatchExprProgram(prog, node.Facts, node.Classes, node.Agents, nil, i.log)
-			if b {
-				passed++
-			} else {
+		if len(progs) > 0 {
+			failed := false
+			for _, prog := range progs {
+				b, _ := compound.MatchExprProgram(prog, node.Facts, node.Classes, node.Agents, nil, i.log)
+				if !b {
+					failed = true
+					break
+				}
+			}
+
+			if failed {
 				continue
 			}
+
+			passed++
 		}
 
 		if passed > 0 {
@@ -224,7 +235,7 @@ func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collec
 		}
 	}
 
-	return matched, nil
+	return util.UniqueStrings(matched, false), nil
 }
 
 // ReadInventory reads and validates an inventory file
-- 
2.43.0


From 35edcf083bcf2ec371d3a71fc26c7730a62e25be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:16 +0000
Subject: [PATCH 024/126] fix: survive blank commands, long output lines and
 repeated use in external discovery

---
 providers/discovery/external/external.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/providers/discovery/external/external.go b/providers/discovery/external/external.go
index db44d40..f46cbcf 100644
--- a/providers/discovery/external/external.go
+++ b/providers/discovery/external/external.go
@@ -11,6 +11,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"maps"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -18,6 +19,7 @@ import (
 	"time"
 
 	"github.com/choria-io/go-choria/inter"
+	"github.com/choria-io/go-choria/internal/util"
 	"github.com/google/shlex"
 
 	"github.com/choria-io/go-choria/protocol"
@@ -89,6 +91,9 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 		dopts.timeout = time.Second
 	}
 
+	// the options belong to the caller who might use them again
+	dopts.do = maps.Clone(dopts.do)
+
 	command, ok := dopts.do["command"]
 	if ok && command != "" {
 		dopts.command = command
@@ -131,8 +136,9 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 	repfile.Close()
 
 	_, err = reqfile.Write(req)
+	reqfile.Close()
 	if err != nil {
-		return nil, fmt.Errorf("could not create reply temp file: %s", err)
+		return nil, fmt.Errorf("could not create request temp file: %s", err)
 	}
 
 	var args []string
@@ -140,6 +146,9 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 	if err != nil {
 		return nil, err
 	}
+	if len(parts) == 0 || parts[0] == "" {
+		return nil, fmt.Errorf("no command specified for external discovery")
+	}
 	args = append(args, parts[0])
 	if len(parts) > 1 {
 		args = append(args, parts[1:]...)
@@ -175,6 +184,9 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 		for scanner.Scan() {
 			logger(scanner.Text())
 		}
+
+		// lines that are too long end the scan, the command must be able to keep writing
+		io.Copy(io.Discard, in)
 	}
 
 	wg.Add(1)
@@ -213,5 +225,5 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 		return nil, fmt.Errorf("invalid response received, expected protocol %q got %q", ResponseProtocol, resp.Protocol)
 	}
 
-	return resp.Nodes, nil
+	return util.UniqueStrings(resp.Nodes, false), nil
 }
-- 
2.43.0


From d0a9fdb9b0f6c10cb9995bcf4d97357b77b11bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:37 +0000
Subject: [PATCH 025/126] fix: never consider a certificate that can not be
 decoded verified in the file security provider

---
 providers/security/filesec/file_security.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/providers/security/filesec/file_security.go b/providers/security/filesec/file_security.go
index 4f49d8b..b62f187 100644
--- a/providers/security/filesec/file_security.go
+++ b/providers/security/filesec/file_security.go
@@ -353,14 +353,14 @@ func (s *FileSecurity) VerifyCertificate(certpem []byte, name string) error {
 
 	roots := x509.NewCertPool()
 	if !roots.AppendCertsFromPEM(capem) {
-		s.log.Warnf("Could not use CA '%s' as PEM data: %s", ca, err)
-		return err
+		s.log.Warnf("Could not use CA '%s' as PEM data", ca)
+		return fmt.Errorf("could not use CA %s as PEM data", ca)
 	}
 
 	block, _ := pem.Decode(certpem)
 	if block == nil {
-		s.log.Warnf("Could not decode certificate '%s' PEM data: %s", name, err)
-		return err
+		s.log.Warnf("Could not decode certificate '%s' PEM data", name)
+		return fmt.Errorf("could not decode certificate PEM data")
 	}
 
 	cert, err := x509.ParseCertificate(block.Bytes)
@@ -371,8 +371,8 @@ func (s *FileSecurity) VerifyCertificate(certpem []byte, name string) error {
 
 	intermediates := x509.NewCertPool()
 	if !intermediates.AppendCertsFromPEM(certpem) {
-		s.log.Warnf("Could not add intermediates: %s", err)
-		return err
+		s.log.Warnf("Could not add intermediates for '%s'", name)
+		return fmt.Errorf("could not add intermediates")
 	}
 
 	opts := x509.VerifyOptions{
@@ -693,8 +693,8 @@ func (s *FileSecurity) ShouldAllowCaller(name string, callers ...[]byte) (privil
 func (s *FileSecurity) certDNSNames(certpem []byte) (names []string, err error) {
 	block, _ := pem.Decode(certpem)
 	if block == nil {
-		s.log.Warnf("Could not decode certificate PEM data: %s", err)
-		return names, err
+		s.log.Warnf("Could not decode certificate PEM data")
+		return names, fmt.Errorf("could not decode certificate PEM data")
 	}
 
 	cert, err := x509.ParseCertificate(block.Bytes)
-- 
2.43.0


From a735db0a6ad3ec8b3c66e0b011c32cac23548b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:38 +0000
Subject: [PATCH 026/126] fix: reject signatures by certificates without RSA
 keys rather than panic

---
 providers/security/filesec/file_security.go     | 7 ++++++-
 providers/security/pkcs11sec/pkcs11_security.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/providers/security/filesec/file_security.go b/providers/security/filesec/file_security.go
index b62f187..1154190 100644
--- a/providers/security/filesec/file_security.go
+++ b/providers/security/filesec/file_security.go
@@ -293,7 +293,12 @@ func (s *FileSecurity) VerifySignatureBytes(dat []byte, sig []byte, public ...[]
 		return false, ""
 	}
 
-	rsaPublicKey := cert.PublicKey.(*rsa.PublicKey)
+	rsaPublicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+	if !ok {
+		s.log.Errorf("Signature verification failed: public certificate does not hold a RSA key")
+		return false, ""
+	}
+
 	hashed := s.ChecksumBytes(dat)
 
 	err = rsa.VerifyPKCS1v15(rsaPublicKey, crypto.SHA256, hashed[:], sig)
diff --git a/providers/security/pkcs11sec/pkcs11_security.go b/providers/security/pkcs11sec/pkcs11_security.go
index dd3ac4f..3cd58a6 100644
--- a/providers/security/pkcs11sec/pkcs11_security.go
+++ b/providers/security/pkcs11sec/pkcs11_security.go
@@ -376,7 +376,12 @@ func (p *Pkcs11Security) VerifySignatureBytes(dat []byte, sig []byte, public ...
 		cert = p.cert.Leaf
 	}
 
-	rsaPublicKey := cert.PublicKey.(*rsa.PublicKey)
+	rsaPublicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+	if !ok {
+		p.log.Errorf("Signature verification failed: public certificate does not hold a RSA key")
+		return false, ""
+	}
+
 	hashed := p.ChecksumBytes(dat)
 
 	err = rsa.VerifyPKCS1v15(rsaPublicKey, crypto.SHA256, hashed[:], sig)
-- 
2.43.0


From cbc982b172168268641317dc9ba5ee4195c5dd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 027/126] fix: validate version 2 replies against the version 2
 reply protocol rather than that of requests

---
 internal/fs/schemas/choria/protocol/v2/reply.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fs/schemas/choria/protocol/v2/reply.json b/internal/fs/schemas/choria/protocol/v2/reply.json
index 9e8b95b..2537d90 100644
--- a/internal/fs/schemas/choria/protocol/v2/reply.json
+++ b/internal/fs/schemas/choria/protocol/v2/reply.json
@@ -15,7 +15,7 @@
   "properties": {
     "protocol": {
       "type":"string",
-      "const": "io.choria.protocol.v2.request"
+      "const": "io.choria.protocol.v2.reply"
     },
     "message": {
       "type":"string",
-- 
2.43.0


From a98cd4ffc2107c3dbb8cccc76bd8c7126edbd70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:34 +0000
Subject: [PATCH 028/126] fix: deny callers whose token has no permissions
 rather than panic

---
 providers/security/choria/choria_security.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/providers/security/choria/choria_security.go b/providers/security/choria/choria_security.go
index fc150ac..3d79c62 100644
--- a/providers/security/choria/choria_security.go
+++ b/providers/security/choria/choria_security.go
@@ -642,9 +642,6 @@ func (s *ChoriaSecurity) shouldAllowCallerUnsigned(name string, caller []byte) (
 
 	// technically already done in sig verify but cant harm
 	if token.Permissions == nil || !(token.Permissions.SignedFleetManagement || token.Permissions.FleetManagement) {
-		if token.Permissions.SignedFleetManagement {
-			return false, fmt.Errorf("requires signed fleet management access")
-		}
 		return false, fmt.Errorf("does not have fleet management access")
 	}
 
-- 
2.43.0


From e088ee2508757963f2ae80ecd66eef846f534196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:07 +0000
Subject: [PATCH 029/126] fix: never select more targets than there are, nor
 lose one to rounding, when limiting requests

---
 providers/agent/mcorpc/client/options.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/providers/agent/mcorpc/client/options.go b/providers/agent/mcorpc/client/options.go
index ad9fb5a..3d3a2f8 100644
--- a/providers/agent/mcorpc/client/options.go
+++ b/providers/agent/mcorpc/client/options.go
@@ -388,12 +388,19 @@ func (o *RequestOptions) limitTargets(targets []string) (limited []string, err e
 	count := 0
 
 	if pctRe.MatchString(o.LimitSize) {
-		// already know its a number and it has a matching substring
-		pct, _ := strconv.Atoi(pctRe.FindStringSubmatch(o.LimitSize)[1])
-		count = int(float64(len(targets)) * (float64(pct) / 100))
+		// already know its a number and it has a matching substring, a number too big to represent is more than everything
+		pct, err := strconv.Atoi(pctRe.FindStringSubmatch(o.LimitSize)[1])
+		if err != nil || pct > 100 {
+			pct = 100
+		}
+
+		count = len(targets) * pct / 100
 	} else if digitRe.MatchString(o.LimitSize) {
-		// already know its a number
-		count, _ = strconv.Atoi(o.LimitSize)
+		// already know its a number, one too big to represent is more than everything
+		count, err = strconv.Atoi(o.LimitSize)
+		if err != nil || count > len(targets) {
+			count = len(targets)
+		}
 	} else {
 		return limited, fmt.Errorf("could not parse limit as either number or percent")
 	}
@@ -402,8 +409,9 @@ func (o *RequestOptions) limitTargets(targets []string) (limited []string, err e
 		return limited, fmt.Errorf("no targets left after applying target limits of '%s'", o.LimitSize)
 	}
 
-	limited = make([]string, count)
-	copy(limited, o.shuffleLimitedTargets(targets))
+	// the list given belongs to the caller so only a copy gets shuffled
+	limited = make([]string, len(targets))
+	copy(limited, targets)
 
-	return limited, err
+	return o.shuffleLimitedTargets(limited)[:count], nil
 }
-- 
2.43.0


From 7dd639f0759a3faddb7aa630a2a2b070dac5e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:07 +0000
Subject: [PATCH 030/126] fix: do not share a compiled reply filter between
 workers without locking

---
 providers/agent/mcorpc/client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/providers/agent/mcorpc/client/client.go b/providers/agent/mcorpc/client/client.go
index 0bdf08d..4e641a2 100644
--- a/providers/agent/mcorpc/client/client.go
+++ b/providers/agent/mcorpc/client/client.go
@@ -466,7 +466,9 @@ func (r *RPC) handlerFactory(_ context.Context, cancel context.CancelFunc, stats
 		return nil
 	}
 
+	// handlers are called concurrently by all workers
 	var prog *vm.Program
+	var progMu sync.Mutex
 
 	handler := func(ctx context.Context, rawmsg inter.ConnectorMessage) {
 		reply, err := r.fw.NewReplyFromTransportJSON(rawmsg.Data(), false)
@@ -496,7 +498,9 @@ func (r *RPC) handlerFactory(_ context.Context, cancel context.CancelFunc, stats
 		if r.opts.Handler != nil {
 			shouldShow := true
 			if r.opts.ReplyExprFilter != "" {
+				progMu.Lock()
 				shouldShow, prog, err = rpcreply.MatchExpr(r.opts.ReplyExprFilter, prog)
+				progMu.Unlock()
 				if err != nil {
 					r.log.Errorf("Expr filter parsing failed in reply from %s: %s", reply.SenderID(), err)
 				}
-- 
2.43.0


From 0edb2c2248b1f4687c7fabc4573d48dd8e02c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:07 +0000
Subject: [PATCH 031/126] fix: complete requests when the last reply to arrive
 is not usable

---
 providers/agent/mcorpc/client/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/agent/mcorpc/client/client.go b/providers/agent/mcorpc/client/client.go
index 4e641a2..a092337 100644
--- a/providers/agent/mcorpc/client/client.go
+++ b/providers/agent/mcorpc/client/client.go
@@ -488,6 +488,9 @@ func (r *RPC) handlerFactory(_ context.Context, cancel context.CancelFunc, stats
 		case err != nil:
 			stats.FailedRequestInc()
 			r.log.Errorf("Could not process reply from %s: %s", reply.SenderID(), err)
+			if r.opts.RequestType != inter.ServiceRequestMessageType && stats.All() {
+				cancel()
+			}
 			return
 		case rpcreply.Statuscode == mcorpc.OK:
 			stats.PassedRequestInc()
-- 
2.43.0


From fc1afc752e3b258d6e8988a7186951a85da616aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:10 +0000
Subject: [PATCH 032/126] fix: do not block batched requests on the receivers
 of earlier batches

---
 client/client/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/client/client.go b/client/client/client.go
index 363d6f8..5c5311d 100644
--- a/client/client/client.go
+++ b/client/client/client.go
@@ -101,6 +101,10 @@ func (c *Client) Request(ctx context.Context, msg inter.Message, handler Handler
 	c.ctx, c.cancel = context.WithCancel(ctx)
 	defer c.cancel()
 
+	// receivers of earlier requests leave unused tokens behind that would block ours, or have us publish before
+	// we are able to receive the replies
+	c.receiverReady = make(chan struct{}, c.receivers)
+
 	if handler != nil {
 		c.log.Debugf("Starting %d receivers on %s", c.receivers, msg.ReplyTo())
 
@@ -115,7 +119,8 @@ func (c *Client) Request(ctx context.Context, msg inter.Message, handler Handler
 	c.log.Debugf("Publishing message with reply to %s", msg.ReplyTo())
 	err = c.publish(msg)
 	if err != nil {
-		return err
+		// receivers must not outlive the request
+		c.cancel()
 	}
 
 	c.wg.Wait()
-- 
2.43.0


From d7afbd86e11d84c2d52b16f8507b76eb6d1275ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 033/126] fix: refuse messages with null headers, envelopes or
 bodies rather than panic

---
 protocol/v1/constructors.go   | 34 +++++++++++++++++++++++-----------
 protocol/v1/request.go        |  4 ++++
 protocol/v2/secure_reply.go   |  2 +-
 protocol/v2/secure_request.go |  4 ++--
 protocol/v2/transport.go      | 13 +++++++++----
 5 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/protocol/v1/constructors.go b/protocol/v1/constructors.go
index 09ef8e2..032e955 100644
--- a/protocol/v1/constructors.go
+++ b/protocol/v1/constructors.go
@@ -69,22 +69,26 @@ func NewReplyFromSecureReply(sr protocol.SecureReply) (rep protocol.Reply, err e
 		return nil, fmt.Errorf("cannot create a version 1 SecureReply from a %s SecureReply", sr.Version())
 	}
 
-	rep = &Reply{
+	reply := &Reply{
 		Protocol: protocol.ReplyV1,
 		Envelope: &ReplyEnvelope{},
 	}
 
-	err = rep.IsValidJSON(sr.Message())
+	err = reply.IsValidJSON(sr.Message())
 	if err != nil {
 		return nil, fmt.Errorf("the JSON body from the SecureReply is not a valid Reply message: %s", err)
 	}
 
-	err = json.Unmarshal(sr.Message(), rep)
+	err = json.Unmarshal(sr.Message(), reply)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse JSON data from Secure Reply: %s", err)
 	}
 
-	return rep, nil
+	if reply.Envelope == nil {
+		return nil, errors.New("the JSON body from the SecureReply is not a valid Reply message: no envelope")
+	}
+
+	return reply, nil
 }
 
 // NewRequestFromSecureRequest creates a choria::request:1 based on the data contained in a SecureRequest
@@ -108,6 +112,10 @@ func NewRequestFromSecureRequest(sr protocol.SecureRequest) (protocol.Request, e
 		return nil, fmt.Errorf("could not parse JSON data from Secure Request: %s", err)
 	}
 
+	if req.Envelope == nil {
+		return nil, errors.New("the JSON body from the SecureRequest is not a valid Request message: no envelope")
+	}
+
 	return req, nil
 }
 
@@ -151,7 +159,7 @@ func NewSecureReplyFromTransport(message protocol.TransportMessage, security int
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureReply message: %s", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
@@ -229,7 +237,7 @@ func NewRemoteSignedSecureRequest(ctx context.Context, request protocol.Request,
 		security: security,
 	}
 
-	err = json.Unmarshal(secj, &secure)
+	err = json.Unmarshal(secj, secure)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse signed request: %s", err)
 	}
@@ -257,7 +265,7 @@ func NewSecureRequestFromTransport(message protocol.TransportMessage, security i
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureRequest message: %s", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
@@ -285,19 +293,23 @@ func NewTransportMessage(certname string) (message protocol.TransportMessage, er
 
 // NewTransportFromJSON creates a new TransportMessage from JSON
 func NewTransportFromJSON(data []byte) (message protocol.TransportMessage, err error) {
-	message = &TransportMessage{
+	transport := &TransportMessage{
 		Headers: &TransportHeaders{},
 	}
 
-	err = message.IsValidJSON(data)
+	err = transport.IsValidJSON(data)
 	if err != nil {
 		return nil, err
 	}
 
-	err = json.Unmarshal(data, &message)
+	err = json.Unmarshal(data, transport)
 	if err != nil {
 		return nil, err
 	}
 
-	return message, nil
+	if transport.Headers == nil {
+		return nil, errors.New("the JSON body is not a valid TransportMessage: no headers")
+	}
+
+	return transport, nil
 }
diff --git a/protocol/v1/request.go b/protocol/v1/request.go
index 5e28006..87adaa1 100644
--- a/protocol/v1/request.go
+++ b/protocol/v1/request.go
@@ -251,6 +251,10 @@ func (r *Request) Filter() (filter *protocol.Filter, filtered bool) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	if r.Envelope.Filter == nil {
+		r.Envelope.Filter = protocol.NewFilter()
+	}
+
 	return r.Envelope.Filter, !r.Envelope.Filter.Empty()
 }
 
diff --git a/protocol/v2/secure_reply.go b/protocol/v2/secure_reply.go
index 8fbd553..d931ac1 100644
--- a/protocol/v2/secure_reply.go
+++ b/protocol/v2/secure_reply.go
@@ -72,7 +72,7 @@ func NewSecureReplyFromTransport(message protocol.TransportMessage, security int
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureReply message: %s", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
diff --git a/protocol/v2/secure_request.go b/protocol/v2/secure_request.go
index 812bf07..f668864 100644
--- a/protocol/v2/secure_request.go
+++ b/protocol/v2/secure_request.go
@@ -94,7 +94,7 @@ func NewRemoteSignedSecureRequest(ctx context.Context, request protocol.Request,
 		security: security,
 	}
 
-	err = json.Unmarshal(secj, &secure)
+	err = json.Unmarshal(secj, secure)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse signed request: %s", err)
 	}
@@ -141,7 +141,7 @@ func NewSecureRequestFromTransport(message protocol.TransportMessage, security i
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureRequest: %w", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
diff --git a/protocol/v2/transport.go b/protocol/v2/transport.go
index 31a5db9..8ad2632 100644
--- a/protocol/v2/transport.go
+++ b/protocol/v2/transport.go
@@ -6,6 +6,7 @@ package v2
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"strings"
 	"sync"
@@ -58,21 +59,25 @@ func NewTransportMessage(sender string) (message protocol.TransportMessage, err
 
 // NewTransportFromJSON creates a new TransportMessage from JSON
 func NewTransportFromJSON(data []byte) (message protocol.TransportMessage, err error) {
-	message = &TransportMessage{
+	transport := &TransportMessage{
 		Headers: &TransportHeaders{},
 	}
 
-	err = message.IsValidJSON(data)
+	err = transport.IsValidJSON(data)
 	if err != nil {
 		return nil, err
 	}
 
-	err = json.Unmarshal(data, &message)
+	err = json.Unmarshal(data, transport)
 	if err != nil {
 		return nil, err
 	}
 
-	return message, nil
+	if transport.Headers == nil {
+		return nil, errors.New("the JSON body is not a valid TransportMessage: no headers")
+	}
+
+	return transport, nil
 }
 
 func (m *TransportMessage) SetFederationRequestID(id string) {
-- 
2.43.0


From 8792d2ed29cf3a6bec1013c9e872164f7b645a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 034/126] fix: lock the agent deny list while it is changed

---
 server/agents/agents.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/agents/agents.go b/server/agents/agents.go
index 10d2553..5d649ef 100644
--- a/server/agents/agents.go
+++ b/server/agents/agents.go
@@ -115,6 +115,9 @@ func New(requests chan inter.ConnectorMessage, fw inter.Framework, conn inter.Co
 
 // DenyAgent adds an agent to the list of agent names not allowed to start
 func (a *Manager) DenyAgent(agent string) {
+	a.mu.Lock()
+	defer a.mu.Unlock()
+
 	a.denylist = append(a.denylist, agent)
 }
 
-- 
2.43.0


From b00e493a88436b986f4e76c57be0f4dba04e6ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 035/126] fix: allow agents to be registered again after a
 failed subscription

---
 server/agents/agents.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/agents/agents.go b/server/agents/agents.go
index 5d649ef..8f63ffb 100644
--- a/server/agents/agents.go
+++ b/server/agents/agents.go
@@ -337,6 +337,7 @@ func (a *Manager) subscribeAgent(ctx context.Context, name string, agent Agent,
 			for _, sub := range a.subs[name] {
 				conn.Unsubscribe(sub)
 			}
+			delete(a.subs, name)
 
 			return fmt.Errorf("subscription failed: %s", err)
 		}
-- 
2.43.0


From bbb4809a5516001d5bc2f2bfcc531aad3768d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 036/126] fix: do not leave agent dispatchers and agents
 waiting forever

---
 server/agents/agents.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/server/agents/agents.go b/server/agents/agents.go
index 8f63ffb..4b23f6b 100644
--- a/server/agents/agents.go
+++ b/server/agents/agents.go
@@ -368,7 +368,8 @@ func (a *Manager) Dispatch(ctx context.Context, wg *sync.WaitGroup, replies chan
 		return
 	}
 
-	result := make(chan *AgentReply)
+	// buffered so that an agent that replies after its timeout can finish
+	result := make(chan *AgentReply, 1)
 
 	td := time.Duration(agent.Metadata().Timeout) * time.Second
 	a.log.Debugf("Handling message %s with timeout %s", msg.RequestID(), td)
@@ -378,22 +379,34 @@ func (a *Manager) Dispatch(ctx context.Context, wg *sync.WaitGroup, replies chan
 
 	go agent.HandleMessage(timeout, msg, request, a.conn, result)
 
+	var reply *AgentReply
+
 	select {
-	case reply := <-result:
-		replies <- reply
+	case reply = <-result:
 	case <-ctx.Done():
-		replies <- &AgentReply{
+		reply = &AgentReply{
 			Message: msg,
 			Request: request,
 			Error:   fmt.Errorf("agent dispatcher for request %s exiting on interrupt", msg.RequestID()),
 		}
 	case <-timeout.Done():
-		replies <- &AgentReply{
+		reply = &AgentReply{
 			Message: msg,
 			Request: request,
 			Error:   fmt.Errorf("agent dispatcher for request %s exiting on %ds timeout", msg.RequestID(), agent.Metadata().Timeout),
 		}
 	}
+
+	// replies that can be handled without waiting are always passed on, nothing reads them once the server is shutting down
+	select {
+	case replies <- reply:
+	default:
+		select {
+		case replies <- reply:
+		case <-ctx.Done():
+			a.log.Warnf("Discarding reply for request %s while shutting down", msg.RequestID())
+		}
+	}
 }
 
 // Logger is the logger the manager prefers new agents derive from
-- 
2.43.0


From 15b625b02581564f48b215ddcabada8ca2a5a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:19 +0000
Subject: [PATCH 037/126] fix: lock the last processed message time while it is
 changed

---
 server/infosource.go | 3 +++
 server/processor.go  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/server/infosource.go b/server/infosource.go
index 58eff15..c15417a 100644
--- a/server/infosource.go
+++ b/server/infosource.go
@@ -127,6 +127,9 @@ func (srv *Instance) MachineTransition(name string, version string, path string,
 
 // LastProcessedMessage is the time that the last message was processed in local time
 func (srv *Instance) LastProcessedMessage() time.Time {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	return srv.lastMsgProcessed
 }
 
diff --git a/server/processor.go b/server/processor.go
index 58175a3..039a2d1 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -66,7 +66,9 @@ func (srv *Instance) handleRawMessage(ctx context.Context, wg *sync.WaitGroup, r
 
 	validatedCtr.WithLabelValues(srv.cfg.Identity).Inc()
 
+	srv.mu.Lock()
 	srv.lastMsgProcessed = time.Now()
+	srv.mu.Unlock()
 
 	wg.Add(1)
 	go srv.agents.Dispatch(ctx, wg, replies, msg, req)
-- 
2.43.0


From ba62949e89e0ec0be9664b53705d8809024a4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:37 +0000
Subject: [PATCH 038/126] fix: do not crash on negative restart splay

---
 providers/agent/mcorpc/golang/provision/restart_action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/golang/provision/restart_action.go b/providers/agent/mcorpc/golang/provision/restart_action.go
index f9f2b2d..5536d29 100644
--- a/providers/agent/mcorpc/golang/provision/restart_action.go
+++ b/providers/agent/mcorpc/golang/provision/restart_action.go
@@ -56,7 +56,7 @@ func restartAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply
 		return
 	}
 
-	if args.Splay == 0 {
+	if args.Splay <= 0 {
 		args.Splay = 10
 	}
 
-- 
2.43.0


From 62a86458691b7eae7469dc4602d0178d142a36d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 039/126] fix: keep skipping completed messages that can not be
 removed from the spool

---
 submission/disk_spool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/submission/disk_spool.go b/submission/disk_spool.go
index 36ece62..b887fb3 100644
--- a/submission/disk_spool.go
+++ b/submission/disk_spool.go
@@ -170,9 +170,9 @@ func (d *DirectorySpool) processDir(priority uint, dir string, handler func([]*M
 	found := make(map[string]struct{})
 
 	for _, entry := range entries {
-		found[entry.Name()] = struct{}{}
-
 		msgPath := filepath.Join(dir, entry.Name())
+		found[msgPath] = struct{}{}
+
 		if _, skip := skipList[msgPath]; skip {
 			os.Remove(msgPath) // maybe it works this time
 			continue
-- 
2.43.0


From de7a9521365976ee269b4f462b97909716894536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 040/126] fix: record delivery attempts without risking the
 message when interrupted

---
 submission/disk_spool.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/submission/disk_spool.go b/submission/disk_spool.go
index b887fb3..0c8f679 100644
--- a/submission/disk_spool.go
+++ b/submission/disk_spool.go
@@ -109,7 +109,7 @@ func (d *DirectorySpool) IncrementTries(m *Message) error {
 		return err
 	}
 
-	err = os.WriteFile(m.sm.(string), jm, 0600)
+	err = d.writeMessage(m.sm.(string), jm)
 	if err != nil {
 		d.log.Errorf("Could not increment tries in message %s, discarding: %s", m.sm, err)
 		d.slMu.Lock()
@@ -338,27 +338,32 @@ func (d *DirectorySpool) Submit(msg *Message) error {
 		return err
 	}
 
-	f, err := os.CreateTemp(d.directory, "")
+	out := d.newMsgPath(msg.Priority)
+	err = d.writeMessage(out, j)
 	if err != nil {
 		return err
 	}
-	f.Close()
-	defer os.Remove(f.Name())
 
-	err = os.WriteFile(f.Name(), j, 0600)
+	d.log.Infof("Submitted a message to %s", out)
+
+	return nil
+}
+
+// writeMessage stores a message so that it's either completely written or not at all
+func (d *DirectorySpool) writeMessage(path string, j []byte) error {
+	f, err := os.CreateTemp(d.directory, "")
 	if err != nil {
 		return err
 	}
+	f.Close()
+	defer os.Remove(f.Name())
 
-	out := d.newMsgPath(msg.Priority)
-	err = os.Rename(f.Name(), out)
+	err = os.WriteFile(f.Name(), j, 0600)
 	if err != nil {
 		return err
 	}
 
-	d.log.Infof("Submitted a message to %s", out)
-
-	return nil
+	return os.Rename(f.Name(), path)
 }
 
 func (d *DirectorySpool) createSpool() error {
-- 
2.43.0


From f34eac50ee70aa0d06917d26032e644d8681992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 041/126] fix: find the jobs in the executor spool when listing

---
 providers/execution/exec.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 3725df1..31e5aae 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -12,7 +12,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"io/fs"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -135,28 +134,25 @@ func List(spool string, q *ListQuery) ([]*Process, error) {
 
 	result := make([]*Process, 0)
 
-	err := filepath.WalkDir(spool, func(path string, d fs.DirEntry, err error) error {
-		if err != nil {
-			return err
-		}
+	// every job has a directory named after its id in the spool
+	entries, err := os.ReadDir(spool)
+	if err != nil {
+		return nil, err
+	}
 
-		if !d.Type().IsRegular() {
-			return nil
+	for _, entry := range entries {
+		if !entry.IsDir() {
+			continue
 		}
 
-		proc, err := Load(spool, d.Name())
+		proc, err := Load(spool, entry.Name())
 		if err != nil {
-			return nil
+			continue
 		}
 
 		if proc.IsMatch(q) {
 			result = append(result, proc)
 		}
-
-		return nil
-	})
-	if err != nil {
-		return nil, err
 	}
 
 	return result, nil
-- 
2.43.0


From efefd89d204da73c8e40c975abb511064f49fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 042/126] fix: only filter executor jobs by time when requested

---
 providers/agent/mcorpc/golang/executor/list.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/providers/agent/mcorpc/golang/executor/list.go b/providers/agent/mcorpc/golang/executor/list.go
index 4024496..9c9fc00 100644
--- a/providers/agent/mcorpc/golang/executor/list.go
+++ b/providers/agent/mcorpc/golang/executor/list.go
@@ -54,18 +54,25 @@ func listAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply, a
 
 	resp := &ListResponse{}
 
-	matched, err := execution.List(spool, &execution.ListQuery{
+	query := &execution.ListQuery{
 		Action:    args.Action,
 		Agent:     args.Agent,
-		Before:    time.Unix(args.Before, 0),
 		Caller:    args.Caller,
 		Command:   args.Command,
 		Completed: args.Completed,
 		Identity:  args.Identity,
 		RequestID: args.RequestID,
 		Running:   args.Running,
-		Since:     time.Unix(args.Since, 0),
-	})
+	}
+
+	if args.Before > 0 {
+		query.Before = time.Unix(args.Before, 0)
+	}
+	if args.Since > 0 {
+		query.Since = time.Unix(args.Since, 0)
+	}
+
+	matched, err := execution.List(spool, query)
 	if err != nil {
 		abort(reply, "Could not list jobs: %v", err)
 		return
-- 
2.43.0


From 8e2fc68dd6c02019600a4d8cd4b8de572747e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 043/126] fix: only let authorized callers signal executor jobs

---
 providers/agent/mcorpc/golang/executor/signal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/golang/executor/signal.go b/providers/agent/mcorpc/golang/executor/signal.go
index 57305e8..c9318ab 100644
--- a/providers/agent/mcorpc/golang/executor/signal.go
+++ b/providers/agent/mcorpc/golang/executor/signal.go
@@ -38,10 +38,12 @@ func signalAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply,
 
 	if args.JobID == "" {
 		abort(reply, "ID is required")
+		return
 	}
 
 	if args.Signal < 0 {
 		abort(reply, "Signal is required")
+		return
 	}
 
 	resp := &SignalResponse{}
@@ -52,7 +54,7 @@ func signalAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply,
 		return
 	}
 
-	if proxyAuthorize(p, req, agent) {
+	if !proxyAuthorize(p, req, agent) {
 		agent.Log.Warnf("Denying %s access to process created by %s#%s based on authorization policy for request %s", req.CallerID, p.Agent, p.Action, req.RequestID)
 		abort(reply, "You are not authorized to call this %s#%s", p.Agent, p.Action)
 		return
-- 
2.43.0


From 78432b3db1b0519c9dc5d3703dda097c5616882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 044/126] fix: do not continue executor status requests that
 have no job id

---
 providers/agent/mcorpc/golang/executor/status.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/providers/agent/mcorpc/golang/executor/status.go b/providers/agent/mcorpc/golang/executor/status.go
index 4d8c6fe..e63fab5 100644
--- a/providers/agent/mcorpc/golang/executor/status.go
+++ b/providers/agent/mcorpc/golang/executor/status.go
@@ -51,6 +51,7 @@ func statusAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply,
 
 	if args.JobID == "" {
 		abort(reply, "ID is required")
+		return
 	}
 
 	p, err := execution.Load(spool, args.JobID)
-- 
2.43.0


From 614ef271384e39d4c6116e51422a72e63c916933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 045/126] fix: do not access executor jobs outside of the spool

---
 providers/execution/exec.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 31e5aae..ec30b04 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -18,6 +18,7 @@ import (
 	"runtime"
 	"slices"
 	"strconv"
+	"strings"
 	"sync"
 	"syscall"
 	"time"
@@ -103,6 +104,9 @@ func New(caller string, agent string, action string, reqID string, identity stri
 	if id == "" {
 		return nil, fmt.Errorf("%w: no id", ErrInvalidProcess)
 	}
+	if !isValidID(id) {
+		return nil, fmt.Errorf("%w: invalid id", ErrInvalidProcess)
+	}
 	if identity == "" {
 		return nil, fmt.Errorf("%w: no identity", ErrInvalidProcess)
 	}
@@ -173,7 +177,7 @@ func Load(spool string, id string) (*Process, error) {
 		return nil, ErrSpoolNotFound
 	}
 
-	if !iu.FileExist(jobSpec) {
+	if !isValidID(id) || !iu.FileExist(jobSpec) {
 		return nil, ErrSpecificationNotFound
 	}
 
@@ -228,6 +232,10 @@ func (p *Process) CreateSpool(spool string) (json.RawMessage, error) {
 		return nil, ErrSpoolNotConfigured
 	}
 
+	if !isValidID(p.ID) {
+		return nil, fmt.Errorf("%w: invalid id", ErrInvalidProcess)
+	}
+
 	has, err := hasJob(spool, p.ID)
 	if err != nil {
 		return nil, fmt.Errorf("%w: %w", ErrInvalidProcess, err)
@@ -683,6 +691,11 @@ func saveJobSpec(spool string, proc *Process) (json.RawMessage, error) {
 	return j, os.Rename(tf.Name(), specPath(spool, proc.ID))
 }
 
+// isValidID determines if a job id names a directory directly in the spool
+func isValidID(id string) bool {
+	return id != "" && id != "." && id != ".." && !strings.ContainsAny(id, "/\\\x00")
+}
+
 func hasJob(spool string, id string) (bool, error) {
 	return iu.FileExist(specPath(spool, id)), nil
 }
-- 
2.43.0


From 12f8c04a93e6770382e7c8391a4a0635bddb4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 046/126] fix: do not signal process groups found in pid files

---
 providers/execution/exec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index ec30b04..cc63d83 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -505,7 +505,7 @@ func (p *Process) ParsePid() (int, error) {
 		return -1, fmt.Errorf("%w: %w", ErrInvalidPid, err)
 	}
 
-	if pid == 1 {
+	if pid < 0 || pid == 1 {
 		return -1, fmt.Errorf("%w: impossible pid", ErrInvalidPid)
 	}
 
-- 
2.43.0


From 36a5cfc4b4fa76f06a0a1ff0007c153d177f2152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:55 +0000
Subject: [PATCH 047/126] fix: capture all output of executor jobs unchanged

---
 providers/execution/exec.go | 39 ++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index cc63d83..d353d51 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -78,6 +78,9 @@ type watchedLine struct {
 	line   []byte
 }
 
+// how long to wait for output, still held open by children of a command, after the command ended
+const outputWaitDelay = 5 * time.Second
+
 var (
 	ErrSpoolNotConfigured     = errors.New("spool not configured")
 	ErrSpoolNotFound          = errors.New("spool not found")
@@ -296,7 +299,7 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	defer cancel()
 	wg := &sync.WaitGroup{}
 
-	var closers []io.Closer
+	var outputs, closers []io.Closer
 	var stdout, stderr io.WriteCloser
 
 	if publishOutput {
@@ -315,7 +318,8 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 		stdoutReader, stdout = io.Pipe()
 		stderrReader, stderr = io.Pipe()
 
-		closers = append(closers, stdout, stderr, stdoutFile, stderrFile, stdoutReader, stderrReader)
+		outputs = append(outputs, stdout, stderr)
+		closers = append(closers, stdoutFile, stderrFile, stdoutReader, stderrReader)
 
 		wg.Add(1)
 		go watchOutput(wg, io.TeeReader(stdoutReader, stdoutFile), io.TeeReader(stderrReader, stderrFile), submit, prefix, p, log)
@@ -338,6 +342,7 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	cmd.Env = env
 	cmd.Stdout = stdout
 	cmd.Stderr = stderr
+	cmd.WaitDelay = outputWaitDelay
 
 	err = cmd.Start()
 	if err != nil {
@@ -368,7 +373,12 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	if cmd.Process == nil {
 		waitErr = ErrStartFailed
 	} else {
-		state, waitErr = cmd.Process.Wait()
+		// also waits for all the output to be read, the state holds the outcome of the command
+		waitErr = cmd.Wait()
+		state = cmd.ProcessState
+		if state != nil {
+			waitErr = nil
+		}
 	}
 
 	// always save then handle the error from waiting
@@ -378,13 +388,18 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 		log.Errorf("Could not save job after execution: %v", err)
 	}
 
+	// the output is saved and published before the files it is saved in are closed
 	cancel()
-	for _, closer := range closers {
-		closer.Close()
+	for _, output := range outputs {
+		output.Close()
 	}
 
 	wg.Wait()
 
+	for _, closer := range closers {
+		closer.Close()
+	}
+
 	msg = newSubmissionMessage(submit, fmt.Sprintf("%s.exit", prefix))
 	errMsg := ""
 	if waitErr != nil {
@@ -543,9 +558,16 @@ func (p *Process) ParseExitCode() (int, error) {
 func watchOutputReader(wg *sync.WaitGroup, r io.Reader, origin string, out chan watchedLine, log *logrus.Entry) {
 	defer wg.Done()
 
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		out <- watchedLine{origin: origin, line: scanner.Bytes()}
+	reader := bufio.NewReader(r)
+	for {
+		// very long lines arrive in parts, the part read is only valid until the next read
+		line, err := reader.ReadSlice('\n')
+		if len(line) > 0 {
+			out <- watchedLine{origin: origin, line: bytes.Clone(line)}
+		}
+		if err != nil && !errors.Is(err, bufio.ErrBufferFull) {
+			return
+		}
 	}
 }
 
@@ -653,7 +675,6 @@ func watchOutput(wg *sync.WaitGroup, stdout io.Reader, stderr io.Reader, submit
 			prev = line.origin
 
 			buff.Write(line.line)
-			buff.Write([]byte("\n"))
 
 		case <-ticker.C:
 			publish(prev, buff)
-- 
2.43.0


From 84ed553d0845e68503afa3595119e985d952482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:55 +0000
Subject: [PATCH 048/126] fix: do not publish executor output as that of
 another file

---
 providers/execution/exec.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index d353d51..3f6b271 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -629,8 +629,12 @@ func watchOutput(wg *sync.WaitGroup, stdout io.Reader, stderr io.Reader, submit
 		close(lines)
 	}()
 
-	publish := func(prev string, buff *bytes.Buffer) {
-		if buff.Len() == 0 {
+	// output that could not be published is kept and must not end up in that of the other file
+	buffers := map[string]*bytes.Buffer{"stdout": {}, "stderr": {}}
+
+	publish := func(prev string) {
+		buff, ok := buffers[prev]
+		if !ok || buff.Len() == 0 {
 			return
 		}
 
@@ -652,14 +656,15 @@ func watchOutput(wg *sync.WaitGroup, stdout io.Reader, stderr io.Reader, submit
 	}
 
 	ticker := time.NewTicker(time.Second)
-	buff := bytes.NewBuffer([]byte{})
+	defer ticker.Stop()
 	prev := ""
 
 	for {
 		select {
 		case line, ok := <-lines:
 			if !ok {
-				publish(prev, buff)
+				publish("stdout")
+				publish("stderr")
 				return
 			}
 
@@ -667,17 +672,18 @@ func watchOutput(wg *sync.WaitGroup, stdout io.Reader, stderr io.Reader, submit
 				prev = line.origin
 			}
 			if line.origin != prev {
-				publish(prev, buff)
-			}
-			if buff.Len() > 1024 {
-				publish(prev, buff)
+				publish(prev)
 			}
 			prev = line.origin
+			if buffers[prev].Len() > 1024 {
+				publish(prev)
+			}
 
-			buff.Write(line.line)
+			buffers[prev].Write(line.line)
 
 		case <-ticker.C:
-			publish(prev, buff)
+			publish("stdout")
+			publish("stderr")
 		}
 	}
 }
-- 
2.43.0


From 7622e23638d713df476237c6ae2f4cc5d558b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:55 +0000
Subject: [PATCH 049/126] fix: do not treat processes reusing the pid of a
 completed job as the job

---
 providers/execution/exec.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 3f6b271..f4800c4 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -452,8 +452,17 @@ func (p *Process) HasStarted() (bool, error) {
 
 // IsRunning checks if the process is running
 func (p *Process) IsRunning() bool {
+	// once ended the pid might be that of another process
+	if !p.TerminateTime.IsZero() {
+		return false
+	}
+
+	return p.isAlive()
+}
+
+func (p *Process) isAlive() bool {
 	if runtime.GOOS != "windows" {
-		err := p.Signal(syscall.Signal(0))
+		err := p.signalPid(syscall.Signal(0))
 
 		return err == nil
 	}
@@ -469,6 +478,14 @@ func (p *Process) IsRunning() bool {
 
 // Signal sends a signal to the process
 func (p *Process) Signal(sig syscall.Signal) error {
+	if !p.TerminateTime.IsZero() {
+		return os.ErrProcessDone
+	}
+
+	return p.signalPid(sig)
+}
+
+func (p *Process) signalPid(sig syscall.Signal) error {
 	pid, err := p.ParsePid()
 	if err != nil {
 		return err
@@ -580,7 +597,7 @@ func hb(ctx context.Context, wg *sync.WaitGroup, heartbeat time.Duration, submit
 	for {
 		select {
 		case <-ticker.C:
-			isRunning := p.IsRunning()
+			isRunning := p.isAlive()
 			msg := newSubmissionMessage(submit, fmt.Sprintf("%s.hb", prefix))
 			msg.Payload = []byte(fmt.Sprintf("%t", isRunning))
 
-- 
2.43.0


From 06d682a724853d9785c7dc9d9c7708157dce5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:30 +0000
Subject: [PATCH 050/126] fix: check provisioning requests completely before
 changing the node

---
 .../golang/provision/configure_action.go      | 142 ++++++++++++------
 1 file changed, 98 insertions(+), 44 deletions(-)

diff --git a/providers/agent/mcorpc/golang/provision/configure_action.go b/providers/agent/mcorpc/golang/provision/configure_action.go
index afa68f7..4ec868b 100644
--- a/providers/agent/mcorpc/golang/provision/configure_action.go
+++ b/providers/agent/mcorpc/golang/provision/configure_action.go
@@ -74,24 +74,39 @@ func configureAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Rep
 		return
 	}
 
-	err = writeTLS(args, agent)
+	// everything that can be wrong with the request is checked before anything is written and
+	// the configuration, that ends provisioning, is put in place last
+	err = validatePolicies(args)
 	if err != nil {
-		abort(fmt.Sprintf("TLS Setup Failed: %s", err), reply)
+		abort(err.Error(), reply)
 		return
 	}
 
-	// the default path based on Config#normalize
-	err = writeJWT(filepath.Join(filepath.Dir(agent.Config.ConfigFile), "server.jwt"), args.ServerJWT, agent.Log)
+	priKey, err := receivedPrivateKey(args, agent.Log)
 	if err != nil {
-		abort(fmt.Sprintf("JWT Setup Failed: %s", err), reply)
+		abort(fmt.Sprintf("TLS Setup Failed: %s", err), reply)
 		return
 	}
 
-	lines, err := writeConfig(settings, req, agent.Config, agent.Log)
+	tmpfile, cfile, lines, err := prepareConfig(settings, req, agent.Config, agent.Log)
 	if err != nil {
 		abort(fmt.Sprintf("Could not write config: %s", err), reply)
 		return
 	}
+	defer os.Remove(tmpfile)
+
+	err = writeTLS(args, priKey, agent)
+	if err != nil {
+		abort(fmt.Sprintf("TLS Setup Failed: %s", err), reply)
+		return
+	}
+
+	// the default path based on Config#normalize
+	err = writeJWT(filepath.Join(filepath.Dir(agent.Config.ConfigFile), "server.jwt"), args.ServerJWT, agent.Log)
+	if err != nil {
+		abort(fmt.Sprintf("JWT Setup Failed: %s", err), reply)
+		return
+	}
 
 	err = writeActionPolicies(agent.Config, args, agent)
 	if err != nil {
@@ -105,6 +120,12 @@ func configureAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Rep
 		return
 	}
 
+	err = os.Rename(tmpfile, cfile)
+	if err != nil {
+		abort(fmt.Sprintf("Could not write config: could not rename temp file %s to %s: %s", tmpfile, cfile, err), reply)
+		return
+	}
+
 	err = agent.ServerInfoSource.NewEvent(lifecycle.Provisioned)
 	if err != nil {
 		agent.Log.Errorf("Could not publish provisioned event: %s", err)
@@ -150,6 +171,23 @@ func writePolicies(targetDir string, policies map[string]string, log *logrus.Ent
 	return nil
 }
 
+// validatePolicies checks that all policies have the right extension and are files directly in the policies directories
+func validatePolicies(args *ConfigureRequest) error {
+	for k := range args.ActionPolicies {
+		if !strings.HasSuffix(k, ".policy") || filepath.Base(k) != k {
+			return fmt.Errorf("Could not save Action Policies: expected %q to have .policy extension and no directory", k)
+		}
+	}
+
+	for k := range args.OPAPolicies {
+		if !strings.HasSuffix(k, ".rego") || filepath.Base(k) != k {
+			return fmt.Errorf("Could not save Open Policy Agent Policies: expected %q to have .rego extension and no directory", k)
+		}
+	}
+
+	return nil
+}
+
 func writeOPAPolicies(cfg *config.Config, args *ConfigureRequest, agent *mcorpc.Agent) error {
 	if len(args.OPAPolicies) == 0 {
 		return nil
@@ -159,12 +197,6 @@ func writeOPAPolicies(cfg *config.Config, args *ConfigureRequest, agent *mcorpc.
 		return fmt.Errorf("no configuration path configured")
 	}
 
-	for k := range args.OPAPolicies {
-		if !strings.HasSuffix(k, ".rego") {
-			return fmt.Errorf("expected %q to have .rego extension", k)
-		}
-	}
-
 	return writePolicies(filepath.Join(filepath.Dir(cfg.ConfigFile), "policies", "rego"), args.OPAPolicies, agent.Log)
 }
 
@@ -177,17 +209,31 @@ func writeActionPolicies(cfg *config.Config, args *ConfigureRequest, agent *mcor
 		return fmt.Errorf("no configuration path configured")
 	}
 
-	for k := range args.ActionPolicies {
-		if !strings.HasSuffix(k, ".policy") {
-			return fmt.Errorf("expected %q to have .policy extension", k)
-		}
+	return writePolicies(filepath.Join(filepath.Dir(cfg.ConfigFile), "policies"), args.ActionPolicies, agent.Log)
+}
+
+func hasTLS(args *ConfigureRequest) bool {
+	return args.Certificate != "" && args.SSLDir != "" && args.CA != ""
+}
+
+// receivedPrivateKey decrypts the private key that accompanies TLS settings, nil when none was received
+func receivedPrivateKey(args *ConfigureRequest, log *logrus.Entry) ([]byte, error) {
+	if !hasTLS(args) || args.Key == "" {
+		return nil, nil
 	}
 
-	return writePolicies(filepath.Join(filepath.Dir(cfg.ConfigFile), "policies"), args.ActionPolicies, agent.Log)
+	log.Warnf("Received a PRIVATE KEY over the network")
+
+	priKey, err := decryptPrivateKey(args.Key, args.ECDHPublic)
+	if err != nil {
+		return nil, fmt.Errorf("could not decrypt private key: %s", err)
+	}
+
+	return priKey, nil
 }
 
-func writeTLS(args *ConfigureRequest, agent *mcorpc.Agent) error {
-	if args.Certificate != "" && args.SSLDir != "" && args.CA != "" {
+func writeTLS(args *ConfigureRequest, priKey []byte, agent *mcorpc.Agent) error {
+	if hasTLS(args) {
 		err := os.MkdirAll(args.SSLDir, 0700)
 		if err != nil {
 			return fmt.Errorf("could not create ssl directory %s: %s", args.SSLDir, err)
@@ -206,13 +252,6 @@ func writeTLS(args *ConfigureRequest, agent *mcorpc.Agent) error {
 		}
 
 		if args.Key != "" {
-			agent.Log.Warnf("Received a PRIVATE KEY over the network")
-
-			priKey, err := decryptPrivateKey(args.Key, args.ECDHPublic)
-			if err != nil {
-				return fmt.Errorf("could not decrypt private key: %s", err)
-			}
-
 			target = filepath.Join(args.SSLDir, "private.pem")
 			err = os.WriteFile(target, priKey, 0600)
 			if err != nil {
@@ -234,13 +273,29 @@ func writeTLS(args *ConfigureRequest, agent *mcorpc.Agent) error {
 }
 
 func writeConfig(settings map[string]string, req *mcorpc.Request, cfg *config.Config, log *logrus.Entry) (int, error) {
-	cfile := cfg.ConfigFile
+	tmpfile, cfile, written, err := prepareConfig(settings, req, cfg, log)
+	if err != nil {
+		return 0, err
+	}
+	defer os.Remove(tmpfile)
+
+	err = os.Rename(tmpfile, cfile)
+	if err != nil {
+		return 0, fmt.Errorf("could not rename temp file %s to %s: %s", tmpfile, cfile, err)
+	}
+
+	return written, nil
+}
+
+// prepareConfig writes settings to a temporary file next to the configuration file and checks it can be parsed
+func prepareConfig(settings map[string]string, req *mcorpc.Request, cfg *config.Config, log *logrus.Entry) (tmp string, cfile string, written int, err error) {
+	cfile = cfg.ConfigFile
 
-	_, err := os.Stat(cfile)
+	_, err = os.Stat(cfile)
 	if err == nil {
 		cfile, err = filepath.EvalSymlinks(cfile)
 		if err != nil {
-			return 0, fmt.Errorf("cannot determine full path to config file %s: %s", cfile, err)
+			return "", "", 0, fmt.Errorf("cannot determine full path to config file %s: %s", cfile, err)
 		}
 	}
 
@@ -250,24 +305,28 @@ func writeConfig(settings map[string]string, req *mcorpc.Request, cfg *config.Co
 
 	tmpfile, err := os.CreateTemp(cdir, "provision")
 	if err != nil {
-		return 0, fmt.Errorf("cannot create a temp file in %s: %s", cdir, err)
+		return "", "", 0, fmt.Errorf("cannot create a temp file in %s: %s", cdir, err)
 	}
-	defer os.Remove(tmpfile.Name())
-	defer tmpfile.Close()
+	defer func() {
+		if err != nil {
+			tmpfile.Close()
+			os.Remove(tmpfile.Name())
+		}
+	}()
 
 	_, err = fmt.Fprintf(tmpfile, "# configuration file written in request %s from %s (%s) at %s\n", req.RequestID, req.CallerID, req.SenderID, time.Now())
 	if err != nil {
-		return 0, fmt.Errorf("could not write to temp file %s: %s", tmpfile.Name(), err)
+		return "", "", 0, fmt.Errorf("could not write to temp file %s: %s", tmpfile.Name(), err)
 	}
 
-	written := 1
+	written = 1
 
 	for k, v := range settings {
 		log.Infof("Adding configuration: %s = %s", k, v)
 
-		_, err := fmt.Fprintf(tmpfile, "%s=%s\n", k, v)
+		_, err = fmt.Fprintf(tmpfile, "%s=%s\n", k, v)
 		if err != nil {
-			return 0, fmt.Errorf("could not write to temp file %s: %s", tmpfile.Name(), err)
+			return "", "", 0, fmt.Errorf("could not write to temp file %s: %s", tmpfile.Name(), err)
 		}
 
 		written++
@@ -275,18 +334,13 @@ func writeConfig(settings map[string]string, req *mcorpc.Request, cfg *config.Co
 
 	err = tmpfile.Close()
 	if err != nil {
-		return 0, fmt.Errorf("could not close temp file %s: %s", tmpfile.Name(), err)
+		return "", "", 0, fmt.Errorf("could not close temp file %s: %s", tmpfile.Name(), err)
 	}
 
 	_, err = config.NewConfig(tmpfile.Name())
 	if err != nil {
-		return 0, fmt.Errorf("generated configuration could not be parsed: %s", err)
+		return "", "", 0, fmt.Errorf("generated configuration could not be parsed: %s", err)
 	}
 
-	err = os.Rename(tmpfile.Name(), cfile)
-	if err != nil {
-		return 0, fmt.Errorf("could not rename temp file %s to %s: %s", tmpfile.Name(), cfile, err)
-	}
-
-	return written, nil
+	return tmpfile.Name(), cfile, written, nil
 }
-- 
2.43.0


From a3e79b3be73e94955ca47270fc9edd99386f8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:30 +0000
Subject: [PATCH 051/126] fix: keep the server seed when its token can not be
 removed

---
 providers/agent/mcorpc/golang/provision/ed25519_action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/providers/agent/mcorpc/golang/provision/ed25519_action.go b/providers/agent/mcorpc/golang/provision/ed25519_action.go
index 3c86689..f14759b 100644
--- a/providers/agent/mcorpc/golang/provision/ed25519_action.go
+++ b/providers/agent/mcorpc/golang/provision/ed25519_action.go
@@ -76,6 +76,7 @@ func ed25519Action(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply
 		err = os.Remove(jwtFile)
 		if err != nil {
 			abort(fmt.Sprintf("Could not remove existing jwt file: %v: %v", jwtFile, err), reply)
+			return
 		}
 	}
 
-- 
2.43.0


From 51cce4a5ca03687ca8f0c7ce380ddcb9839d815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:30 +0000
Subject: [PATCH 052/126] fix: set the requested state in signing requests

---
 providers/agent/mcorpc/golang/provision/csr_action.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/providers/agent/mcorpc/golang/provision/csr_action.go b/providers/agent/mcorpc/golang/provision/csr_action.go
index 5bc97c0..f266f8f 100644
--- a/providers/agent/mcorpc/golang/provision/csr_action.go
+++ b/providers/agent/mcorpc/golang/provision/csr_action.go
@@ -99,6 +99,10 @@ func csrAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply, ag
 		subj.OrganizationalUnit = []string{args.OU}
 	}
 
+	if args.ST != "" {
+		subj.Province = []string{args.ST}
+	}
+
 	rawSubj := subj.ToRDNSequence()
 
 	asn1Subj, err := asn1.Marshal(rawSubj)
-- 
2.43.0


From da6dbf66bb7502985a540faf27de70e42f69ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:59 +0000
Subject: [PATCH 053/126] fix: report failures to publish federated direct
 requests

---
 choria/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/choria/connection.go b/choria/connection.go
index 110244c..33277ad 100644
--- a/choria/connection.go
+++ b/choria/connection.go
@@ -375,6 +375,10 @@ func (conn *Connection) publishFederatedDirect(msg inter.Message, transport prot
 	var err error
 
 	util.SliceGroups(msg.DiscoveredHosts(), 200, func(nodes []string) {
+		if err != nil {
+			return
+		}
+
 		targets := []string{}
 		var j []byte
 
-- 
2.43.0


From 686ab80474537fe1fb5f8da140137e85e0b02fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:35 +0000
Subject: [PATCH 054/126] fix: keep the configuration of stream adapters per
 adapter

---
 broker/adapter/streams/adapter.go | 11 +++--------
 broker/adapter/streams/output.go  | 21 ++++++++++++++-------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/broker/adapter/streams/adapter.go b/broker/adapter/streams/adapter.go
index 0e2d645..29724ef 100644
--- a/broker/adapter/streams/adapter.go
+++ b/broker/adapter/streams/adapter.go
@@ -12,7 +12,6 @@ import (
 
 	"github.com/choria-io/go-choria/broker/adapter/ingest"
 	"github.com/choria-io/go-choria/broker/adapter/stats"
-	"github.com/choria-io/go-choria/config"
 	"github.com/choria-io/go-choria/inter"
 	"github.com/sirupsen/logrus"
 )
@@ -48,12 +47,8 @@ type Streams struct {
 	log     *logrus.Entry
 }
 
-var fw inter.Framework
-var cfg *config.Config
-
 func Create(name string, choria inter.Framework) (adapter *Streams, err error) {
-	fw = choria
-	cfg = fw.Configuration()
+	cfg := choria.Configuration()
 
 	s := fmt.Sprintf("plugin.choria.adapter.%s.queue_len", name)
 	worklen, err := strconv.Atoi(cfg.Option(s, "1000"))
@@ -64,7 +59,7 @@ func Create(name string, choria inter.Framework) (adapter *Streams, err error) {
 	stats.WorkQueueCapacityGauge.WithLabelValues(name, cfg.Identity).Set(float64(worklen))
 
 	adapter = &Streams{
-		log:  fw.Logger("streams_adapter").WithFields(logrus.Fields{"name": name}),
+		log:  choria.Logger("streams_adapter").WithFields(logrus.Fields{"name": name}),
 		work: make(chan ingest.Adaptable, worklen),
 	}
 
@@ -73,7 +68,7 @@ func Create(name string, choria inter.Framework) (adapter *Streams, err error) {
 		return nil, fmt.Errorf("could not create adapter %s: %s", name, err)
 	}
 
-	adapter.streams, err = newStream(name, adapter.work, adapter.log)
+	adapter.streams, err = newStream(name, adapter.work, choria, adapter.log)
 	if err != nil {
 		return nil, fmt.Errorf("could not create adapter %s: %s", name, err)
 	}
diff --git a/broker/adapter/streams/output.go b/broker/adapter/streams/output.go
index 89aec53..f7fed39 100644
--- a/broker/adapter/streams/output.go
+++ b/broker/adapter/streams/output.go
@@ -15,6 +15,7 @@ import (
 	"github.com/choria-io/go-choria/broker/adapter/ingest"
 	"github.com/choria-io/go-choria/broker/adapter/stats"
 	"github.com/choria-io/go-choria/broker/adapter/transformer"
+	"github.com/choria-io/go-choria/config"
 	"github.com/choria-io/go-choria/inter"
 	"github.com/choria-io/go-choria/internal/util"
 	"github.com/choria-io/go-choria/srvcache"
@@ -32,10 +33,14 @@ type stream struct {
 	adapterName string
 
 	work chan ingest.Adaptable
+
+	fw  inter.Framework
+	cfg *config.Config
 }
 
-func newStream(name string, work chan ingest.Adaptable, logger *logrus.Entry) ([]*stream, error) {
+func newStream(name string, work chan ingest.Adaptable, fw inter.Framework, logger *logrus.Entry) ([]*stream, error) {
 	prefix := fmt.Sprintf("plugin.choria.adapter.%s.stream.", name)
+	cfg := fw.Configuration()
 
 	instances, err := strconv.Atoi(cfg.Option(prefix+"workers", "10"))
 	if err != nil {
@@ -63,6 +68,8 @@ func newStream(name string, work chan ingest.Adaptable, logger *logrus.Entry) ([
 			name:        fmt.Sprintf("%s.%d", name, i),
 			adapterName: name,
 			work:        work,
+			fw:          fw,
+			cfg:         cfg,
 			log:         logger.WithFields(logrus.Fields{"side": "stream", "instance": i}),
 		}
 
@@ -91,7 +98,7 @@ func (sc *stream) connect(ctx context.Context, cm inter.ConnectionManager) error
 		return fmt.Errorf("shutdown called")
 	}
 
-	nc, err := fw.NewConnector(ctx, sc.servers, sc.clientID, sc.log)
+	nc, err := sc.fw.NewConnector(ctx, sc.servers, sc.clientID, sc.log)
 	if err != nil {
 		return fmt.Errorf("could not start Choria Streams connection: %s", err)
 	}
@@ -113,11 +120,11 @@ func (sc *stream) disconnect() {
 func (sc *stream) publisher(ctx context.Context, wg *sync.WaitGroup) {
 	defer wg.Done()
 
-	bytes := stats.BytesCtr.WithLabelValues(sc.name, "output", cfg.Identity)
-	ectr := stats.ErrorCtr.WithLabelValues(sc.name, "output", cfg.Identity)
-	ctr := stats.ReceivedMsgsCtr.WithLabelValues(sc.name, "output", cfg.Identity)
-	timer := stats.ProcessTime.WithLabelValues(sc.name, "output", cfg.Identity)
-	workqlen := stats.WorkQueueLengthGauge.WithLabelValues(sc.adapterName, cfg.Identity)
+	bytes := stats.BytesCtr.WithLabelValues(sc.name, "output", sc.cfg.Identity)
+	ectr := stats.ErrorCtr.WithLabelValues(sc.name, "output", sc.cfg.Identity)
+	ctr := stats.ReceivedMsgsCtr.WithLabelValues(sc.name, "output", sc.cfg.Identity)
+	timer := stats.ProcessTime.WithLabelValues(sc.name, "output", sc.cfg.Identity)
+	workqlen := stats.WorkQueueLengthGauge.WithLabelValues(sc.adapterName, sc.cfg.Identity)
 
 	transformerf := func(r ingest.Adaptable) {
 		obs := prometheus.NewTimer(timer)
-- 
2.43.0


From 751289d6aa986d926ca368e3f80535e83c2df117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:35 +0000
Subject: [PATCH 055/126] fix: do not campaign after being stopped while
 starting

---
 internal/util/util.go                  | 2 +-
 providers/election/streams/election.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index bf80863..e95fa1c 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -169,7 +169,7 @@ func InterruptibleSleep(ctx context.Context, d time.Duration) error {
 		return nil
 	case <-ctx.Done():
 		timer.Stop()
-		return fmt.Errorf("sleep interrupted by context")
+		return ctx.Err()
 	}
 }
 
diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index 31688c7..81c018c 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -6,7 +6,6 @@ package election
 
 import (
 	"context"
-	"errors"
 	"fmt"
 	iu "github.com/choria-io/go-choria/internal/util"
 	"math"
@@ -227,7 +226,7 @@ func (e *election) campaign(wg *sync.WaitGroup) error {
 	// spread out startups a bit
 	splay := time.Duration(rand.N(5000)) * time.Millisecond
 	err := iu.InterruptibleSleep(e.ctx, splay)
-	if errors.Is(err, context.Canceled) {
+	if err != nil {
 		return err
 	}
 
-- 
2.43.0


From d045b523714bc41905c63c1c69ca61b52e594386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:38 +0000
Subject: [PATCH 056/126] fix: do not deadlock when stopping elections or
 failing to start them

---
 providers/election/streams/election.go | 29 ++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index 81c018c..f7d5c61 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -60,6 +60,9 @@ type election struct {
 	notifyNext bool
 
 	mu sync.Mutex
+
+	// held only while accessing cancel, campaigns hold mu while communicating with the network and in callbacks
+	cmu sync.Mutex
 }
 
 var skipValidate bool
@@ -278,7 +281,9 @@ func (e *election) campaign(wg *sync.WaitGroup) error {
 func (e *election) stop() {
 	e.mu.Lock()
 	e.started = false
+	e.cmu.Lock()
 	e.cancel()
+	e.cmu.Unlock()
 	e.state = CandidateState
 	e.lastSeq = math.MaxUint64
 	e.mu.Unlock()
@@ -291,15 +296,18 @@ func (e *election) Start(ctx context.Context) error {
 		return fmt.Errorf("already running")
 	}
 
-	err := e.configure(ctx)
-	if err != nil {
-		return err
-	}
-
+	e.cmu.Lock()
 	e.ctx, e.cancel = context.WithCancel(ctx)
+	e.cmu.Unlock()
 	e.started = true
 	e.mu.Unlock()
 
+	err := e.configure(e.ctx)
+	if err != nil {
+		e.stop()
+		return err
+	}
+
 	wg := &sync.WaitGroup{}
 	wg.Add(1)
 
@@ -315,18 +323,13 @@ func (e *election) Start(ctx context.Context) error {
 }
 
 func (e *election) Stop() {
-	e.mu.Lock()
-	defer e.mu.Unlock()
-
-	if !e.started {
-		return
-	}
+	e.cmu.Lock()
+	defer e.cmu.Unlock()
 
+	// the campaign will notice, give up leadership and end
 	if e.cancel != nil {
 		e.cancel()
 	}
-
-	e.stop()
 }
 
 func (e *election) IsLeader() bool {
-- 
2.43.0


From 945bcaf72cefa9844d5a8ae3135ef7c346d9f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:27 +0000
Subject: [PATCH 057/126] fix: allow governors to be started again after
 failing to obtain a slot

---
 providers/governor/streams/governor.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/providers/governor/streams/governor.go b/providers/governor/streams/governor.go
index 8f69241..44aedae 100644
--- a/providers/governor/streams/governor.go
+++ b/providers/governor/streams/governor.go
@@ -253,7 +253,7 @@ func List(nc *nats.Conn, collective string) ([]string, error) {
 
 	return known, nil
 }
-func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, error) {
+func (g *jsGMgr) Start(ctx context.Context, name string) (fin Finisher, seq uint64, err error) {
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
@@ -262,7 +262,13 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 	}
 
 	g.running = true
-	seq := uint64(0)
+	defer func() {
+		// without a slot there is nothing to finish and so a new attempt can be made
+		if err != nil {
+			g.running = false
+		}
+	}()
+
 	tries := 0
 
 	try := func() error {
@@ -333,7 +339,7 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 	// not enter the governor, it just means something went wrong, perhaps in getting the
 	// ok reply.  In the case where the message did reach the governor but the reply could
 	// not be processed we will retry again and again potentially filling the governor.
-	err := try()
+	err = try()
 	if err == nil {
 		return closer, seq, nil
 	} else if err != errRetry {
-- 
2.43.0


From f8aecfba5e841f5e25ca22ec467fc3bba396d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:27 +0000
Subject: [PATCH 058/126] fix: release only the own slot when finishing a
 governor

---
 providers/governor/streams/governor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/providers/governor/streams/governor.go b/providers/governor/streams/governor.go
index 44aedae..317f714 100644
--- a/providers/governor/streams/governor.go
+++ b/providers/governor/streams/governor.go
@@ -270,6 +270,7 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (fin Finisher, seq uint
 	}()
 
 	tries := 0
+	finished := false
 
 	try := func() error {
 		ctx, cancel := context.WithTimeout(ctx, time.Second)
@@ -308,10 +309,11 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (fin Finisher, seq uint
 
 		g.mu.Lock()
 		defer g.mu.Unlock()
-		if !g.running {
+		if finished {
 			return nil
 		}
 
+		finished = true
 		g.running = false
 
 		if g.noLeave {
-- 
2.43.0


From f58573db33d2b79fffdf038f6feaa4681e4a7438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:26 +0000
Subject: [PATCH 059/126] fix: do not deadlock when removing machines that are
 transitioning

---
 aagent/aagent.go          | 14 ++++++++------
 aagent/machine/machine.go |  7 ++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/aagent/aagent.go b/aagent/aagent.go
index 12874ed..da8f3d1 100644
--- a/aagent/aagent.go
+++ b/aagent/aagent.go
@@ -339,7 +339,7 @@ func (a *AAgent) watchSource(ctx context.Context, wg *sync.WaitGroup) {
 
 	// deletes machines not on disk anymore
 	cleanf := func() {
-		targets := []string{}
+		targets := []*managedMachine{}
 
 		a.Lock()
 		for _, m := range a.machines {
@@ -350,16 +350,18 @@ func (a *AAgent) watchSource(ctx context.Context, wg *sync.WaitGroup) {
 
 			if !util.FileExist(m.path) {
 				a.logger.Infof("Machine %s does not exist anymore in %s, terminating", m.machine.Name(), m.path)
-				targets = append(targets, m.path)
-				m.machine.Delete()
+				targets = append(targets, m)
 			}
 		}
 		a.Unlock()
 
-		for _, p := range targets {
-			err := a.deleteByPath(p)
+		for _, m := range targets {
+			// the machine might be busy transitioning, which needs our lock to notify other machines, so we must not hold it
+			m.machine.Delete()
+
+			err := a.deleteByPath(m.path)
 			if err != nil {
-				a.logger.Errorf("Could not terminate machine previously in %s: %s", p, err)
+				a.logger.Errorf("Could not terminate machine previously in %s: %s", m.path, err)
 			}
 		}
 	}
diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index e7ddd86..d6a3070 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -272,13 +272,14 @@ func (m *Machine) ExternalEventNotify(event *TransitionNotification) {
 
 func (m *Machine) LookupExternalMachineState(name string) (string, error) {
 	m.Lock()
-	defer m.Unlock()
+	query := m.externalMachineQuery
+	m.Unlock()
 
-	if m.externalMachineQuery == nil {
+	if query == nil {
 		return "", fmt.Errorf("no external machine query registered")
 	}
 
-	return m.externalMachineQuery(name)
+	return query(name)
 }
 
 func (m *Machine) SetExternalMachineStateQuery(f func(machine string) (string, error)) {
-- 
2.43.0


From 799bde0217002a448b86bf975fab9445cdbae41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:26 +0000
Subject: [PATCH 060/126] fix: account for both autonomous agent workers in the
 wait group

---
 aagent/aagent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/aagent.go b/aagent/aagent.go
index da8f3d1..7358154 100644
--- a/aagent/aagent.go
+++ b/aagent/aagent.go
@@ -104,7 +104,7 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 
 // ManageMachines start observing the source directories starting and stopping machines based on changes on disk
 func (a *AAgent) ManageMachines(ctx context.Context, wg *sync.WaitGroup) error {
-	wg.Add(1)
+	wg.Add(2)
 	go a.watchSource(ctx, wg)
 	go a.startHTTPListeners(ctx, wg)
 
-- 
2.43.0


From 9ea1bfb93bc94d592f27646f68be12840f13852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:26 +0000
Subject: [PATCH 061/126] fix: refuse machines with empty transitions or
 watchers

---
 aagent/machine/machine.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index d6a3070..a7abdef 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -590,7 +590,17 @@ func (m *Machine) Validate() error {
 		return fmt.Errorf("no watchers defined")
 	}
 
+	for _, t := range m.Transitions {
+		if t == nil {
+			return fmt.Errorf("empty transition defined")
+		}
+	}
+
 	for _, w := range m.Watchers() {
+		if w == nil {
+			return fmt.Errorf("empty watcher defined")
+		}
+
 		err := w.ParseAnnounceInterval()
 		if err != nil {
 			return err
-- 
2.43.0


From c4a977cc52467a84d70d59c7509e74bd7a03befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:26 +0000
Subject: [PATCH 062/126] fix: discard machine data files holding no data

---
 aagent/machine/machine.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index a7abdef..b7ebd8c 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -866,10 +866,22 @@ func (m *Machine) loadData() error {
 		return err
 	}
 
+	data := make(map[string]any)
+	err = json.Unmarshal(j, &data)
+	if err != nil {
+		return err
+	}
+
+	if data == nil {
+		return fmt.Errorf("no data found in %s", path)
+	}
+
 	m.dataMu.Lock()
 	defer m.dataMu.Unlock()
 
-	return json.Unmarshal(j, &m.data)
+	m.data = data
+
+	return nil
 }
 
 // lock should be held by caller
-- 
2.43.0


From 7d062e4df8458c1bc8e20707458c7d9131ff19b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:55 +0000
Subject: [PATCH 063/126] fix: do not transition machines that are not started

---
 aagent/machine/machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index b7ebd8c..651838d 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -744,6 +744,10 @@ func (m *Machine) Transition(t string, args ...any) error {
 		return nil
 	}
 
+	if m.ctx == nil {
+		return fmt.Errorf("could not fire %q event, machine is not started", t)
+	}
+
 	if m.Can(t) {
 		err := m.backoffTransition(t)
 		if err != nil {
-- 
2.43.0


From 26f861d2d5f77530274fe7a23429488ba2012114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:13 +0000
Subject: [PATCH 064/126] fix: start splayed machines once and guard their
 start time

---
 aagent/machine/info.go    |  3 +++
 aagent/machine/machine.go | 49 ++++++++++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/aagent/machine/info.go b/aagent/machine/info.go
index 3d3f4c0..65a3514 100644
--- a/aagent/machine/info.go
+++ b/aagent/machine/info.go
@@ -27,6 +27,9 @@ func (m *Machine) Directory() string {
 
 // StartTime is the time the machine started in UTC
 func (m *Machine) StartTime() time.Time {
+	m.startMu.Lock()
+	defer m.startMu.Unlock()
+
 	return m.startTime
 }
 
diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index 651838d..922f231 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -67,6 +67,8 @@ type Machine struct {
 	signerKey        string
 	choriaStatusFreq int
 	startTime        time.Time
+	starting         bool
+	startMu          sync.Mutex
 
 	embedded     bool
 	data         map[string]any
@@ -632,11 +634,30 @@ func (m *Machine) Setup() error {
 
 // Start runs the machine in the background
 func (m *Machine) Start(ctx context.Context, wg *sync.WaitGroup) (started chan struct{}) {
-	m.ctx, m.cancel = context.WithCancel(ctx)
-
 	started = make(chan struct{}, 1)
 
+	m.startMu.Lock()
+	if m.starting {
+		m.startMu.Unlock()
+		started <- struct{}{}
+		return started
+	}
+	m.starting = true
+	m.startMu.Unlock()
+
+	m.Lock()
+	m.ctx, m.cancel = context.WithCancel(ctx)
+	ctx = m.ctx
+	m.Unlock()
+
 	runf := func() {
+		defer func() {
+			m.startMu.Lock()
+			m.starting = false
+			m.startMu.Unlock()
+			started <- struct{}{}
+		}()
+
 		if m.SplayStart > 0 {
 			sleep := time.Duration(rand.N(m.SplayStart)) * time.Second
 			m.Infof(m.MachineName, "Sleeping %v before starting Autonomous Agent", sleep)
@@ -645,24 +666,21 @@ func (m *Machine) Start(ctx context.Context, wg *sync.WaitGroup) (started chan s
 
 			select {
 			case <-t.C:
-			case <-m.ctx.Done():
-				m.startTime = time.Time{}
+			case <-ctx.Done():
+				m.setStartTime(time.Time{})
 				m.Infof(m.MachineName, "Exiting on context interrupt")
-				started <- struct{}{}
 				return
 			}
 		}
 
 		m.Infof(m.MachineName, "Starting Choria Machine %s version %s from %s in state %s", m.MachineName, m.MachineVersion, m.directory, m.InitialState)
 
-		err := m.manager.Run(m.ctx, wg)
+		err := m.manager.Run(ctx, wg)
 		if err != nil {
 			m.Errorf(m.MachineName, "Could not start manager: %s", err)
 		} else {
-			m.startTime = time.Now().UTC()
+			m.setStartTime(time.Now().UTC())
 		}
-
-		started <- struct{}{}
 	}
 
 	go runf()
@@ -672,10 +690,13 @@ func (m *Machine) Start(ctx context.Context, wg *sync.WaitGroup) (started chan s
 
 // IsStarted determines if the machine is currently running
 func (m *Machine) IsStarted() bool {
-	m.Lock()
-	defer m.Unlock()
+	return !m.StartTime().IsZero()
+}
 
-	return !m.startTime.IsZero()
+func (m *Machine) setStartTime(t time.Time) {
+	m.startMu.Lock()
+	m.startTime = t
+	m.startMu.Unlock()
 }
 
 // Delete deletes a running machine by canceling its context and giving its manager
@@ -695,7 +716,7 @@ func (m *Machine) Delete() {
 		m.cancel()
 	}
 
-	m.startTime = time.Time{}
+	m.setStartTime(time.Time{})
 }
 
 // Stop stops a running machine by canceling its context
@@ -712,7 +733,7 @@ func (m *Machine) Stop() {
 		m.cancel()
 	}
 
-	m.startTime = time.Time{}
+	m.setStartTime(time.Time{})
 }
 
 func (m *Machine) backoffTransition(t string) error {
-- 
2.43.0


From 79b0fd40780ab53451faa39d611e9f2d54ad87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:13 +0000
Subject: [PATCH 065/126] fix: stop the autonomous agent http listeners at
 shutdown

---
 aagent/aagent.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aagent/aagent.go b/aagent/aagent.go
index 7358154..39a4b57 100644
--- a/aagent/aagent.go
+++ b/aagent/aagent.go
@@ -82,6 +82,7 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 	a.httpManager, err = aahttp.NewHTTPServer(a.logger.WithField("port", httpPort))
 	if err != nil {
 		a.logger.Errorf("Could not start Autonomous Agent HTTP listeners: %s", err)
+		return
 	}
 
 	mux := http.NewServeMux()
@@ -94,6 +95,10 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 		Handler:     mux,
 		Addr:        fmt.Sprintf(":%d", httpPort),
 	}
+
+	stop := context.AfterFunc(ctx, func() { srv.Close() })
+	defer stop()
+
 	err = srv.ListenAndServe()
 	if errors.Is(err, http.ErrServerClosed) {
 		return
-- 
2.43.0


From ce2cdeb3b8292a5f4375f90433a52d0567fb2dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:25 +0000
Subject: [PATCH 066/126] fix: do not deadlock when deleting machines with http
 enabled watchers

---
 aagent/machine/machine.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index 922f231..fadcda4 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -80,6 +80,7 @@ type Machine struct {
 	notifiers    []NotificationService
 	knownStates  map[string]bool
 	haHttpServer model.HttpManager
+	httpMu       sync.Mutex // watchers access the http manager while being deleted with the machine locked
 
 	// we use a 5 second backoff to limit fast transitions
 	// this when this timer fires it will reset the try counter
@@ -314,16 +315,16 @@ func (m *Machine) SetDirectory(dir string, manifest string) error {
 }
 
 func (m *Machine) HttpManager() model.HttpManager {
-	m.Lock()
-	defer m.Unlock()
+	m.httpMu.Lock()
+	defer m.httpMu.Unlock()
 
 	return m.haHttpServer
 }
 
 func (m *Machine) SetHttpManager(h model.HttpManager) {
-	m.Lock()
+	m.httpMu.Lock()
 	m.haHttpServer = h
-	m.Unlock()
+	m.httpMu.Unlock()
 }
 
 func (m *Machine) IsEmbedded() bool {
-- 
2.43.0


From b80311b826f5d66d28a03bd88a35ebe8fd48a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:29 +0000
Subject: [PATCH 067/126] fix: reliably stop and reset timers of the timer
 watcher

---
 aagent/watchers/timerwatcher/timer.go | 86 ++++++++++++++++-----------
 1 file changed, 50 insertions(+), 36 deletions(-)

diff --git a/aagent/watchers/timerwatcher/timer.go b/aagent/watchers/timerwatcher/timer.go
index 6cdf71e..4fc9fe6 100644
--- a/aagent/watchers/timerwatcher/timer.go
+++ b/aagent/watchers/timerwatcher/timer.go
@@ -47,6 +47,7 @@ type Watcher struct {
 
 	terminate   chan struct{}
 	cancelTimer func()
+	timerCtx    context.Context
 	mu          *sync.Mutex
 }
 
@@ -79,81 +80,94 @@ func New(machine model.Machine, name string, states []string, required []model.F
 }
 
 func (w *Watcher) Delete() {
-	close(w.terminate)
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
+	select {
+	case <-w.terminate:
+	default:
+		close(w.terminate)
+	}
 }
 
 func (w *Watcher) forceTimerStop() {
 	w.mu.Lock()
 	cancel := w.cancelTimer
+	if cancel != nil {
+		cancel()
+	}
+	w.cancelTimer = nil
 	w.mu.Unlock()
 
 	if cancel != nil {
 		w.Infof("Stopping timer early on state transition to %s", w.machine.State())
-		cancel()
 	}
 }
 
-func (w *Watcher) timeStart() {
+func (w *Watcher) timeStart(ctx context.Context) {
+	timerCtx, cancel := context.WithCancel(ctx)
+
 	w.mu.Lock()
-	cancel := w.cancelTimer
+	previous := w.cancelTimer
+	w.cancelTimer = cancel
+	w.timerCtx = timerCtx
+	w.state = Running
 	w.mu.Unlock()
 
-	if cancel != nil {
+	if previous != nil {
 		w.Infof("Timer was running, resetting to %v", w.properties.Timer)
-		cancel()
+		previous()
+	}
+
+	// marks the timer as stopped unless it was replaced by a newer one or stopped in the mean time
+	stop := func() (canceled bool) {
+		w.mu.Lock()
+		defer w.mu.Unlock()
+		defer cancel()
+
+		if w.timerCtx != timerCtx {
+			return true
+		}
+
+		w.state = Stopped
+		w.cancelTimer = nil
+
+		return timerCtx.Err() != nil
 	}
 
 	go func() {
 		timer := time.NewTimer(w.properties.Timer)
-		ctx, cancel := context.WithCancel(context.Background())
-
-		w.mu.Lock()
-		w.state = Running
-		w.cancelTimer = cancel
-		w.mu.Unlock()
+		defer timer.Stop()
 
 		w.NotifyWatcherState(w.CurrentState())
 
 		select {
 		case <-timer.C:
-			w.mu.Lock()
-			w.state = Stopped
-			if w.cancelTimer != nil {
-				w.cancelTimer()
-			}
-			w.cancelTimer = nil
-			w.mu.Unlock()
-
+			canceled := stop()
 			w.NotifyWatcherState(w.CurrentState())
-			w.FailureTransition()
-
-		case <-ctx.Done():
-			w.mu.Lock()
-			w.cancelTimer = nil
-			timer.Stop()
-			w.state = Stopped
-			w.mu.Unlock()
+			if !canceled && w.ShouldWatch() {
+				w.FailureTransition()
+			}
 
+		case <-timerCtx.Done():
+			stop()
 			w.NotifyWatcherState(w.CurrentState())
 
 		case <-w.terminate:
-			w.mu.Lock()
-			w.cancelTimer = nil
-			w.state = Stopped
-			w.mu.Unlock()
+			stop()
 			return
 		}
 	}()
 }
 
-func (w *Watcher) watch() {
+func (w *Watcher) watch(ctx context.Context) {
 	if !w.ShouldWatch() {
 		w.forceTimerStop()
 		return
 	}
 
 	w.Infof("Starting timer")
-	w.timeStart()
+	w.timeStart(ctx)
 }
 
 func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
@@ -162,12 +176,12 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 	w.Infof("Timer watcher starting with %v timer", w.properties.Timer)
 
 	// handle initial state
-	w.watch()
+	w.watch(ctx)
 
 	for {
 		select {
 		case <-w.StateChangeC():
-			w.watch()
+			w.watch(ctx)
 		case <-w.terminate:
 			w.Infof("Handling terminate notification")
 			return
-- 
2.43.0


From 17d9ea0a1c0c9cabeff1a9217a37d4966d68c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:29 +0000
Subject: [PATCH 068/126] fix: treat disowned commands that cannot start as
 failures

---
 aagent/watchers/execwatcher/exec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aagent/watchers/execwatcher/exec.go b/aagent/watchers/execwatcher/exec.go
index 355cd76..fc3c495 100644
--- a/aagent/watchers/execwatcher/exec.go
+++ b/aagent/watchers/execwatcher/exec.go
@@ -333,10 +333,10 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 		w.Debugf("Running command disowned from parent")
 		err = cmd.Start()
 		if err != nil {
-			return 0, err
+			return Error, err
 		}
 
-		errc := make(chan error)
+		errc := make(chan error, 1)
 		go func() {
 			errc <- cmd.Wait()
 		}()
-- 
2.43.0


From 9449f94540e8c2b41580efa2ee3e57206720d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:31 +0000
Subject: [PATCH 069/126] fix: enforce timeouts of watcher commands that leave
 children behind

---
 aagent/watchers/execwatcher/exec.go     | 7 +++++++
 aagent/watchers/nagioswatcher/nagios.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/aagent/watchers/execwatcher/exec.go b/aagent/watchers/execwatcher/exec.go
index fc3c495..d0ba0fe 100644
--- a/aagent/watchers/execwatcher/exec.go
+++ b/aagent/watchers/execwatcher/exec.go
@@ -7,6 +7,7 @@ package execwatcher
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"math/rand/v2"
 	"os"
@@ -347,7 +348,13 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 			err = ctx.Err()
 		}
 	} else {
+		// children of the command can hold on to its output long after it finished or was killed
+		cmd.WaitDelay = time.Second
+
 		output, err = cmd.CombinedOutput()
+		if errors.Is(err, exec.ErrWaitDelay) && timeoutCtx.Err() == nil {
+			err = nil
+		}
 	}
 	if err != nil {
 		w.Errorf("Exec watcher %s failed: %s", w.properties.Command, err)
diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 8845805..4007518 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -7,6 +7,7 @@ package nagioswatcher
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"html/template"
 	"math/rand/v2"
@@ -419,7 +420,13 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 
 	var pstate *os.ProcessState
 
+	// children of the plugin can hold on to its output long after it finished or was killed
+	cmd.WaitDelay = time.Second
+
 	outb, err := cmd.CombinedOutput()
+	if errors.Is(err, exec.ErrWaitDelay) && timeoutCtx.Err() == nil {
+		err = nil
+	}
 	if err != nil {
 		eerr, ok := err.(*exec.ExitError)
 		if ok {
-- 
2.43.0


From def402aa1d0023a7c014efb2a43592bf2c7e6504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:31 +0000
Subject: [PATCH 070/126] fix: treat nagios plugins exiting with internal state
 codes as unknown

---
 aagent/watchers/nagioswatcher/nagios.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 4007518..644d2c5 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -445,7 +445,7 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 	w.Debugf("Output from %s: %s", w.properties.Plugin, output)
 
 	s, ok := intStates[pstate.ExitCode()]
-	if ok {
+	if ok && s <= UNKNOWN { // the others are internal states
 		return s, output, nil
 	}
 
-- 
2.43.0


From 4d6743a14411ca5d931ff72a022106e833f66a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:32 +0000
Subject: [PATCH 071/126] fix: do not crash on nagios plugins without a command
 or with malformed performance data

---
 aagent/util/nagios.go                   | 4 ++++
 aagent/watchers/nagioswatcher/nagios.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aagent/util/nagios.go b/aagent/util/nagios.go
index 8574480..9f70d3c 100644
--- a/aagent/util/nagios.go
+++ b/aagent/util/nagios.go
@@ -46,6 +46,10 @@ func ParsePerfData(pd string) (perf []PerfData) {
 
 		label := strings.Replace(mparts[0], " ", "_", -1)
 		valParts := valParse.FindStringSubmatch(mparts[1])
+		if len(valParts) == 0 {
+			continue
+		}
+
 		rawValue := valParts[1]
 		value, err := strconv.ParseFloat(rawValue, 64)
 		if err != nil {
diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 644d2c5..963fdaa 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -410,6 +410,10 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 		return UNKNOWN, "", err
 	}
 
+	if len(splitcmd) == 0 {
+		return UNKNOWN, "", fmt.Errorf("invalid plugin command %q", w.properties.Plugin)
+	}
+
 	w.previousPlugin = plugin
 
 	cmd := exec.CommandContext(timeoutCtx, splitcmd[0], splitcmd[1:]...)
-- 
2.43.0


From e7ce6815a0ea665b78a5a2d280d3f3758ac63f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:33 +0000
Subject: [PATCH 072/126] fix: do not block machines while forcing nagios
 checks

---
 aagent/watchers/nagioswatcher/nagios.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 963fdaa..e3f396e 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -239,8 +239,15 @@ func (w *Watcher) NotifyStateChance() {
 		s = UNKNOWN
 	case "FORCE_CHECK":
 		w.Infof("Forcing a check of %s", w.machineName)
+		w.mu.Lock()
 		w.force = true
-		w.StateChangeC() <- struct{}{}
+		w.mu.Unlock()
+
+		// the machine is locked while notifying, a check that is already pending is forced now too
+		select {
+		case w.StateChangeC() <- struct{}{}:
+		default:
+		}
 		return
 	}
 
@@ -525,8 +532,12 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 }
 
 func (w *Watcher) ShouldWatch() bool {
-	if w.force {
-		w.force = false
+	w.mu.Lock()
+	force := w.force
+	w.force = false
+	w.mu.Unlock()
+
+	if force {
 		return true
 	}
 
-- 
2.43.0


From 6253651a87b9d77a8946a1c15a8a5f5bf7e115bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:28 +0000
Subject: [PATCH 073/126] fix: honor the default duration of schedules

---
 aagent/watchers/schedulewatcher/schedule.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aagent/watchers/schedulewatcher/schedule.go b/aagent/watchers/schedulewatcher/schedule.go
index 4424ba7..2509222 100644
--- a/aagent/watchers/schedulewatcher/schedule.go
+++ b/aagent/watchers/schedulewatcher/schedule.go
@@ -216,10 +216,6 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 }
 
 func (w *Watcher) validate() error {
-	if w.properties.Duration < time.Second {
-		w.properties.Duration = time.Minute
-	}
-
 	if len(w.properties.Schedules) == 0 {
 		return fmt.Errorf("no schedules defined")
 	}
@@ -239,6 +235,10 @@ func (w *Watcher) setProperties(props map[string]any) error {
 		return err
 	}
 
+	if w.properties.Duration < time.Second {
+		w.properties.Duration = time.Minute
+	}
+
 	for _, spec := range w.properties.Schedules {
 		item, err := newSchedItem(spec, w)
 		if err != nil {
-- 
2.43.0


From b61cd629c859ff13c7ad21b6344242ff58eaa66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:49 +0000
Subject: [PATCH 074/126] fix: trigger schedules skipping repeated triggers
 again in later windows

---
 aagent/watchers/schedulewatcher/schedule.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aagent/watchers/schedulewatcher/schedule.go b/aagent/watchers/schedulewatcher/schedule.go
index 2509222..c54f38e 100644
--- a/aagent/watchers/schedulewatcher/schedule.go
+++ b/aagent/watchers/schedulewatcher/schedule.go
@@ -106,6 +106,7 @@ func (w *Watcher) watchSchedule(ctx context.Context, wg *sync.WaitGroup) {
 			if w.ctr == 0 {
 				w.Debugf("State going off due to ctr change to 0")
 				w.state = Off
+				w.triggered = false
 			} else {
 				w.Debugf("State going on due to ctr change of %v", i)
 				w.state = On
-- 
2.43.0


From 91a16374e0a400b7eebcb6105b42350a45588e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:00 +0000
Subject: [PATCH 075/126] fix: do not race on the state of schedules

---
 aagent/watchers/schedulewatcher/schedule.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aagent/watchers/schedulewatcher/schedule.go b/aagent/watchers/schedulewatcher/schedule.go
index c54f38e..2221934 100644
--- a/aagent/watchers/schedulewatcher/schedule.go
+++ b/aagent/watchers/schedulewatcher/schedule.go
@@ -134,14 +134,18 @@ func (w *Watcher) watch() (err error) {
 		return nil
 	}
 
+	w.mu.Lock()
+	state := w.state
+	changed := w.previousState != state
+	w.previousState = state
+	w.mu.Unlock()
+
 	// nothing changed
-	if w.previousState == w.state {
+	if !changed {
 		return nil
 	}
 
-	w.setPreviousState(w.state)
-
-	switch w.state {
+	switch state {
 	case Off, Unknown:
 		w.setTriggered(false)
 		w.NotifyWatcherState(w.CurrentState())
@@ -154,7 +158,6 @@ func (w *Watcher) watch() (err error) {
 		}
 
 		w.setTriggered(true)
-		w.setPreviousState(w.state)
 		w.NotifyWatcherState(w.CurrentState())
 		return w.SuccessTransition()
 
-- 
2.43.0


From 05a55e47fd2158d2faf7652f235c16e75996020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:47 +0000
Subject: [PATCH 076/126] fix: do not race on the results of nagios checks

---
 aagent/watchers/nagioswatcher/nagios.go | 30 ++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index e3f396e..f091099 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -421,7 +421,9 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 		return UNKNOWN, "", fmt.Errorf("invalid plugin command %q", w.properties.Plugin)
 	}
 
+	w.mu.Lock()
 	w.previousPlugin = plugin
+	w.mu.Unlock()
 
 	cmd := exec.CommandContext(timeoutCtx, splitcmd[0], splitcmd[1:]...)
 	cmd.Env = append(cmd.Env, fmt.Sprintf("MACHINE_WATCHER_NAME=%s", w.name))
@@ -444,7 +446,9 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 			pstate = eerr.ProcessState
 		} else {
 			w.Errorf("Exec watcher %s failed: %s", w.properties.Plugin, err)
+			w.mu.Lock()
 			w.previousOutput = err.Error()
+			w.mu.Unlock()
 			return UNKNOWN, "", err
 		}
 	} else {
@@ -464,7 +468,9 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 }
 
 func (w *Watcher) watchUsingBuiltin(_ context.Context) (state State, output string, err error) {
+	w.mu.Lock()
 	w.previousPlugin = w.properties.Builtin
+	w.mu.Unlock()
 
 	switch {
 	case w.properties.Builtin == "heartbeat":
@@ -478,10 +484,17 @@ func (w *Watcher) watchUsingBuiltin(_ context.Context) (state State, output stri
 	}
 }
 
-func (w *Watcher) startWatching() {
+// startWatching is false when another check is already running
+func (w *Watcher) startWatching() bool {
 	w.mu.Lock()
+	defer w.mu.Unlock()
+
+	if w.watching {
+		return false
+	}
 	w.watching = true
-	w.mu.Unlock()
+
+	return true
 }
 
 func (w *Watcher) isWatching() bool {
@@ -502,11 +515,15 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 		return SKIPPED, nil
 	}
 
-	w.startWatching()
+	if !w.startWatching() {
+		return SKIPPED, nil
+	}
 	defer w.stopWatching()
 
 	start := time.Now()
+	w.mu.Lock()
 	w.previousCheck = start
+	w.mu.Unlock()
 	defer func() {
 		w.mu.Lock()
 		w.previousRunTime = time.Since(start)
@@ -525,8 +542,10 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 		err = fmt.Errorf("command or builtin required")
 	}
 
+	w.mu.Lock()
 	w.previousOutput = strings.TrimSpace(output)
 	w.previousPerfData = util.ParsePerfData(output)
+	w.mu.Unlock()
 
 	return state, err
 }
@@ -535,14 +554,15 @@ func (w *Watcher) ShouldWatch() bool {
 	w.mu.Lock()
 	force := w.force
 	w.force = false
+	previousCheck := w.previousCheck
 	w.mu.Unlock()
 
 	if force {
 		return true
 	}
 
-	since := time.Since(w.previousCheck)
-	if !w.previousCheck.IsZero() && since < w.interval-time.Second {
+	since := time.Since(previousCheck)
+	if !previousCheck.IsZero() && since < w.interval-time.Second {
 		w.Debugf("Skipping check due to previous check being %v sooner than interval %v", since, w.interval)
 		return false
 	}
-- 
2.43.0


From 8382dee3a5d3d8c0c056ea7ca7a872ad4228bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:12 +0000
Subject: [PATCH 077/126] fix: verify checksums of files with names of a single
 character

---
 internal/util/sha256sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/sha256sum.go b/internal/util/sha256sum.go
index 1643bcf..6216bb4 100644
--- a/internal/util/sha256sum.go
+++ b/internal/util/sha256sum.go
@@ -24,7 +24,7 @@ import (
 type FileReportHandler func(file string, ok bool)
 
 var (
-	sumsMatcherRe        = regexp.MustCompile(`^([a-z0-9]+)\s+(\S.+)$`)
+	sumsMatcherRe        = regexp.MustCompile(`^([a-z0-9]+)\s+(\S.*)$`)
 	ErrorInvalidSumsFile = fmt.Errorf("invalid sums file")
 	ErrorChecksumError   = fmt.Errorf("could not checksum file")
 )
-- 
2.43.0


From 533b302eda104f62e689b51b233fab8faa68fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:13 +0000
Subject: [PATCH 078/126] fix: list files relative to the directory they are
 checksummed in

---
 internal/util/sha256sum.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/util/sha256sum.go b/internal/util/sha256sum.go
index 6216bb4..44b29ad 100644
--- a/internal/util/sha256sum.go
+++ b/internal/util/sha256sum.go
@@ -107,10 +107,11 @@ func Sha256ChecksumDirWithExclude(dir string, exclude string) (checksums []byte,
 			return err
 		}
 
-		if dir != "." {
-			path = strings.TrimPrefix(path, filepath.ToSlash(dir))
+		path, err = filepath.Rel(dir, path)
+		if err != nil {
+			return err
 		}
-		path = strings.TrimPrefix(path, "/")
+		path = filepath.ToSlash(path)
 
 		_, err = fmt.Fprintf(sums, "%s  %s\n", sum, path)
 
@@ -120,7 +121,7 @@ func Sha256ChecksumDirWithExclude(dir string, exclude string) (checksums []byte,
 		return nil, nil, fmt.Errorf("%w: %v", ErrorChecksumError, err)
 	}
 
-	return sums.Bytes(), nil, nil
+	return sums.Bytes(), skipped, nil
 }
 
 // Sha256ChecksumDir produce a file similar to those produced by sha256sum on the command line.
@@ -143,10 +144,11 @@ func Sha256ChecksumDir(dir string) ([]byte, error) {
 			return err
 		}
 
-		if dir != "." {
-			path = strings.TrimPrefix(path, filepath.ToSlash(dir))
+		path, err = filepath.Rel(dir, path)
+		if err != nil {
+			return err
 		}
-		path = strings.TrimPrefix(path, "/")
+		path = filepath.ToSlash(path)
 
 		_, err = fmt.Fprintf(sums, "%s  %s\n", sum, path)
 
-- 
2.43.0


From cf1f7e542004b728281c6624afc474a993a2172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:15 +0000
Subject: [PATCH 079/126] fix: do not crash on empty entries in machine and
 plugin specifications

---
 aagent/watchers/machineswatcher/machines.go | 6 +++++-
 aagent/watchers/pluginswatcher/plugins.go   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index c66e2c6..e81f48f 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -469,7 +469,11 @@ func (w *Watcher) desiredState() ([]*ManagedMachine, error) {
 		return nil, fmt.Errorf("invalid machines specification: %s", err)
 	}
 
-	for _, m := range desired {
+	for i, m := range desired {
+		if m == nil {
+			return nil, fmt.Errorf("invalid machines specification: empty entry %d", i)
+		}
+
 		m.Interval = w.properties.MachineManageInterval.String()
 		m.Target = filepath.Dir(w.machine.Directory())
 
diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index 78a6b4a..3fd4eb4 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -473,7 +473,11 @@ func (w *Watcher) desiredState() ([]*ManagedPlugin, error) {
 		return nil, fmt.Errorf("invalid plugins specification: %s", err)
 	}
 
-	for _, m := range desired {
+	for i, m := range desired {
+		if m == nil {
+			return nil, fmt.Errorf("invalid plugins specification: empty entry %d", i)
+		}
+
 		m.NamePrefix = w.properties.ManagerMachinePrefix
 		m.Interval = w.properties.PluginManageInterval.String()
 		m.Target = w.targetDirForManagedPlugins()
-- 
2.43.0


From cb95765cd708fd2b47fe96b39cf62cb7eba73c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:17 +0000
Subject: [PATCH 080/126] fix: do not crash verifying machine specifications
 using invalid keys

---
 aagent/watchers/machineswatcher/machines.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index e81f48f..aad4ae7 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -7,7 +7,6 @@ package machines
 import (
 	"bytes"
 	"context"
-	"crypto/ed25519"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
@@ -447,7 +446,12 @@ func (w *Watcher) loadAndValidateData() ([]byte, error) {
 			return nil, fmt.Errorf("invalid data_item")
 		}
 
-		if !ed25519.Verify(pk, payload, sig) {
+		verified, err := iu.Ed25519Verify(pk, payload, sig)
+		if err != nil {
+			w.Errorf("could not verify signature using public key: %s", err)
+			return nil, fmt.Errorf("invalid data_item")
+		}
+		if !verified {
 			w.Errorf("Signature in data_item %s did not verify using configured public key '%s', removing data", w.properties.DataItem, w.properties.PublicKey)
 			w.machine.DataDelete(w.properties.DataItem)
 			return nil, fmt.Errorf("invalid data_item")
-- 
2.43.0


From dd99f9cd1f9a768aab03dca738591e45ffbb9506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:19 +0000
Subject: [PATCH 081/126] fix: refuse managed machines and plugins with path
 elements in their names

---
 aagent/watchers/machineswatcher/machines.go | 4 ++++
 aagent/watchers/pluginswatcher/plugins.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index aad4ae7..437ceba 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -485,6 +485,10 @@ func (w *Watcher) desiredState() ([]*ManagedMachine, error) {
 			return nil, fmt.Errorf("name is required")
 		}
 
+		if m.Name == "." || m.Name == ".." || strings.ContainsAny(m.Name, `/\`) {
+			return nil, fmt.Errorf("invalid name %q", m.Name)
+		}
+
 		if m.Source == "" {
 			return nil, fmt.Errorf("source is required for %s", m.Name)
 		}
diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index 3fd4eb4..5a7648f 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -486,6 +486,10 @@ func (w *Watcher) desiredState() ([]*ManagedPlugin, error) {
 			return nil, fmt.Errorf("name is required")
 		}
 
+		if m.Name == "." || m.Name == ".." || strings.ContainsAny(m.Name, `/\`) {
+			return nil, fmt.Errorf("invalid name %q", m.Name)
+		}
+
 		if m.Source == "" {
 			return nil, fmt.Errorf("source is required for %s", m.Name)
 		}
-- 
2.43.0


From fbb18d2f89c4902b6cc82ce62f1db2d6eb54d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:33 +0000
Subject: [PATCH 082/126] fix: purge unknown plugins deployed to another
 directory

---
 aagent/watchers/pluginswatcher/plugins.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index 5a7648f..99ed327 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -385,7 +385,7 @@ func (w *Watcher) purgeUnknownPlugins(ctx context.Context, desired []*ManagedPlu
 }
 
 func (w *Watcher) currentPlugins() ([]string, error) {
-	dirs, err := os.ReadDir(w.targetDirForManagedPlugins())
+	dirs, err := os.ReadDir(filepath.Dir(w.machine.Directory()))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 75eeb92cd2c22b688f82dbc6c0bfd958781107d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:35 +0000
Subject: [PATCH 083/126] fix: remove purged plugins also when interrupted
 while waiting for their managers

---
 aagent/watchers/pluginswatcher/plugins.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index 99ed327..8b7ea53 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -365,10 +365,7 @@ func (w *Watcher) purgeUnknownPlugins(ctx context.Context, desired []*ManagedPlu
 			}
 
 			w.Debugf("Sleeping for 2 seconds to allow manager to exit")
-			err = iu.InterruptibleSleep(ctx, 2*time.Second)
-			if err != nil {
-				return false, err
-			}
+			iu.InterruptibleSleep(ctx, 2*time.Second) // without its manager a plugin would never be removed later
 
 			target = w.targetDirForManagedPlugin(m)
 			err = os.RemoveAll(target)
-- 
2.43.0


From 320b835ad72d2ffef20efb17b672d870b18a03ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:14 +0000
Subject: [PATCH 084/126] fix: quote values in machines that manage machines
 and plugins

---
 aagent/watchers/machineswatcher/machine.yaml | 20 ++++++++++----------
 aagent/watchers/pluginswatcher/machine.yaml  | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/aagent/watchers/machineswatcher/machine.yaml b/aagent/watchers/machineswatcher/machine.yaml
index c59c123..8913ddd 100644
--- a/aagent/watchers/machineswatcher/machine.yaml
+++ b/aagent/watchers/machineswatcher/machine.yaml
@@ -1,4 +1,4 @@
-name: "mm_{{ .Name }}"
+name: {{ printf "mm_%s" .Name | printf "%q" }}
 version: 1.0.0
 initial_state: MANAGE
 
@@ -14,16 +14,16 @@ transitions:
 watchers:
   - name: download
     type: archive
-    interval: "{{.Interval}}"
+    interval: {{ printf "%q" .Interval }}
     state_match:
       - MANAGE
     properties:
-      source: "{{.Source}}"
-      checksum: "{{ .ArchiveChecksum }}"
+      source: {{ printf "%q" .Source }}
+      checksum: {{ printf "%q" .ArchiveChecksum }}
       verify: "SHA256SUMS"
-      verify_checksum: "{{ .ContentChecksumsChecksum }}"
-      creates: "{{ .Name }}"
-      target: "{{ .Target }}"
-      username: "{{ .Username }}"
-      password: "{{ .Password }}"
-      governor: "{{ .Governor }}"
+      verify_checksum: {{ printf "%q" .ContentChecksumsChecksum }}
+      creates: {{ printf "%q" .Name }}
+      target: {{ printf "%q" .Target }}
+      username: {{ printf "%q" .Username }}
+      password: {{ printf "%q" .Password }}
+      governor: {{ printf "%q" .Governor }}
diff --git a/aagent/watchers/pluginswatcher/machine.yaml b/aagent/watchers/pluginswatcher/machine.yaml
index ffccf11..df9b86e 100644
--- a/aagent/watchers/pluginswatcher/machine.yaml
+++ b/aagent/watchers/pluginswatcher/machine.yaml
@@ -1,4 +1,4 @@
-name: "{{ .NamePrefix }}_{{ .Name }}"
+name: {{ printf "%s_%s" .NamePrefix .Name | printf "%q" }}
 version: 1.0.0
 initial_state: MANAGE
 
@@ -14,16 +14,16 @@ transitions:
 watchers:
   - name: download
     type: archive
-    interval: "{{.Interval}}"
+    interval: {{ printf "%q" .Interval }}
     state_match:
       - MANAGE
     properties:
-      checksum: "{{ .ArchiveChecksum }}"
-      creates: "{{ .Name }}"
-      governor: "{{ .Governor }}"
-      password: "{{ .Password }}"
-      source: "{{.Source}}"
-      target: "{{ .Target }}"
-      username: "{{ .Username }}"
+      checksum: {{ printf "%q" .ArchiveChecksum }}
+      creates: {{ printf "%q" .Name }}
+      governor: {{ printf "%q" .Governor }}
+      password: {{ printf "%q" .Password }}
+      source: {{ printf "%q" .Source }}
+      target: {{ printf "%q" .Target }}
+      username: {{ printf "%q" .Username }}
       verify: "SHA256SUMS"
-      verify_checksum: "{{ .ContentChecksumsChecksum }}"
+      verify_checksum: {{ printf "%q" .ContentChecksumsChecksum }}
-- 
2.43.0


From 084ea74118a6c7b0926942e37c6044ffc8e46f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 085/126] fix: remove exactly the external agents that are gone

---
 providers/agent/mcorpc/external/provider.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 57016e9..3468a41 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -94,9 +94,9 @@ func (p *Provider) upgradeExistingAgents(foundAgents []*agent.DDL, mgr server.Ag
 }
 
 func (p *Provider) removeOrphanAgents(foundAgents []*agent.DDL, mgr server.AgentManager, connector inter.AgentConnector) error {
-	var remove []int
+	var keep []*agent.DDL
 
-	for i, known := range p.agents {
+	for _, known := range p.agents {
 		found := findInAgentList(foundAgents, func(a *agent.DDL) bool {
 			return a.Metadata.Name == known.Metadata.Name
 		})
@@ -106,18 +106,19 @@ func (p *Provider) removeOrphanAgents(foundAgents []*agent.DDL, mgr server.Agent
 			err := mgr.UnregisterAgent(known.Metadata.Name, connector)
 			if err != nil {
 				p.log.Errorf("Could not unregister agent %v: %v", known.Metadata.Name, err)
+				keep = append(keep, known)
 				continue
 			}
 
 			delete(p.paths, known.Metadata.Name)
-			remove = append(remove, i)
+			continue
 		}
-	}
 
-	for _, i := range remove {
-		p.agents = append(p.agents[:i], p.agents[i+1:]...)
+		keep = append(keep, known)
 	}
 
+	p.agents = keep
+
 	return nil
 }
 
-- 
2.43.0


From 981e42380bc25caa05050299cccadb969a6e3e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 086/126] fix: do not crash on malformed external agents

---
 providers/agent/mcorpc/ddl/agent/agent.go   | 6 ++++++
 providers/agent/mcorpc/external/agent.go    | 3 +--
 providers/agent/mcorpc/external/provider.go | 7 ++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/providers/agent/mcorpc/ddl/agent/agent.go b/providers/agent/mcorpc/ddl/agent/agent.go
index 54c2cd3..f0e9c34 100644
--- a/providers/agent/mcorpc/ddl/agent/agent.go
+++ b/providers/agent/mcorpc/ddl/agent/agent.go
@@ -38,6 +38,12 @@ func NewFromBytes(dat []byte) (*DDL, error) {
 		return nil, fmt.Errorf("could not parse DDL JSON data: %s", err)
 	}
 
+	for i, action := range ddl.Actions {
+		if action == nil {
+			return nil, fmt.Errorf("could not parse DDL JSON data: action %d is empty", i)
+		}
+	}
+
 	ddl.normalize()
 
 	return ddl, nil
diff --git a/providers/agent/mcorpc/external/agent.go b/providers/agent/mcorpc/external/agent.go
index 009601e..ed3bb4c 100644
--- a/providers/agent/mcorpc/external/agent.go
+++ b/providers/agent/mcorpc/external/agent.go
@@ -77,11 +77,10 @@ func (p *Provider) newExternalAgent(ddl *agentddl.DDL, mgr server.AgentManager)
 	p.log.Debugf("Registering proxy actions for External agent %s: %s", ddl.Metadata.Name, strings.Join(ddl.ActionNames(), ", "))
 
 	for _, action := range ddl.Actions {
+		err = agent.RegisterAction(action.Name, p.externalAction)
 		if err != nil {
 			return nil, err
 		}
-
-		agent.MustRegisterAction(action.Name, p.externalAction)
 	}
 
 	return agent, nil
diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 3468a41..19bbc0a 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -132,7 +132,7 @@ func (p *Provider) registerNewAgents(ctx context.Context, foundAgents []*agent.D
 			p.log.Debugf("Registering new agent %v version %v from %s", candidateDDL.Metadata.Name, candidateDDL.Metadata.Version, candidateDDL.SourceLocation)
 			agent, err := p.newExternalAgent(candidateDDL, mgr)
 			if err != nil {
-				p.log.Errorf("Could not register external agent %s: %s", agent.Name(), err)
+				p.log.Errorf("Could not register external agent %s: %s", candidateDDL.Metadata.Name, err)
 				continue
 			}
 
@@ -313,6 +313,11 @@ func (p *Provider) eachAgent(cb func(ddl *agent.DDL)) {
 				return retErr
 			}
 
+			if ddl.Metadata == nil {
+				p.log.Errorf("Could not load agent DDL %s: no metadata found", ddlPath)
+				return retErr
+			}
+
 			if ddl.Metadata.Provider != "external" {
 				return nil
 			}
-- 
2.43.0


From f3ec91037c949828682b5456352345c7b39af04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 087/126] fix: activate external agents that did not activate
 earlier once replaced

---
 providers/agent/mcorpc/external/provider.go | 33 +++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 19bbc0a..57f916c 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -38,7 +38,9 @@ type Provider struct {
 	log    *logrus.Entry
 	agents []*agent.DDL
 	paths  map[string]string
-	mu     sync.Mutex
+	// agents that were registered but did not activate
+	inactive map[string]bool
+	mu       sync.Mutex
 }
 
 // Initialize configures the agent provider
@@ -56,7 +58,9 @@ func (p *Provider) RegisterAgents(ctx context.Context, mgr server.AgentManager,
 }
 
 func (p *Provider) upgradeExistingAgents(foundAgents []*agent.DDL, mgr server.AgentManager) error {
-	for i, currentDDL := range p.agents {
+	var keep []*agent.DDL
+
+	for _, currentDDL := range p.agents {
 		candidateDDL := findInAgentList(foundAgents, func(a *agent.DDL) bool {
 			if a.Metadata.Name != currentDDL.Metadata.Name {
 				return false
@@ -71,25 +75,37 @@ func (p *Provider) upgradeExistingAgents(foundAgents []*agent.DDL, mgr server.Ag
 		})
 
 		if candidateDDL == nil {
+			keep = append(keep, currentDDL)
 			continue
 		}
 
 		newAgent, err := p.newExternalAgent(candidateDDL, mgr)
 		if err != nil {
 			p.log.Errorf("Could not create upgraded external agent %v: %v", candidateDDL.Metadata.Name, err)
+			keep = append(keep, currentDDL)
 			continue
 		}
 
 		err = mgr.ReplaceAgent(candidateDDL.Metadata.Name, newAgent)
 		if err != nil {
+			if p.inactive[currentDDL.Metadata.Name] {
+				// there is nothing to replace, it will be registered as a new agent that might now activate
+				delete(p.inactive, currentDDL.Metadata.Name)
+				delete(p.paths, currentDDL.Metadata.Name)
+				continue
+			}
+
 			p.log.Errorf("Could not replace upgraded external agent %v: %v", candidateDDL.Metadata.Name, err)
+			keep = append(keep, currentDDL)
 			continue
 		}
 
-		p.agents[i] = candidateDDL
+		keep = append(keep, candidateDDL)
 		p.paths[candidateDDL.Metadata.Name] = candidateDDL.SourceLocation
 	}
 
+	p.agents = keep
+
 	return nil
 }
 
@@ -105,12 +121,12 @@ func (p *Provider) removeOrphanAgents(foundAgents []*agent.DDL, mgr server.Agent
 			p.log.Infof("Removing agent %s after the DDL %s was removed", known.Metadata.Name, known.SourceLocation)
 			err := mgr.UnregisterAgent(known.Metadata.Name, connector)
 			if err != nil {
+				// it is not known to the manager, like when it did not activate
 				p.log.Errorf("Could not unregister agent %v: %v", known.Metadata.Name, err)
-				keep = append(keep, known)
-				continue
 			}
 
 			delete(p.paths, known.Metadata.Name)
+			delete(p.inactive, known.Metadata.Name)
 			continue
 		}
 
@@ -142,6 +158,13 @@ func (p *Provider) registerNewAgents(ctx context.Context, foundAgents []*agent.D
 				continue
 			}
 
+			if !agent.ShouldActivate() {
+				if p.inactive == nil {
+					p.inactive = map[string]bool{}
+				}
+				p.inactive[agent.Name()] = true
+			}
+
 			p.agents = append(p.agents, candidateDDL)
 			p.paths[candidateDDL.Metadata.Name] = candidateDDL.SourceLocation
 		}
-- 
2.43.0


From 9392afa0d318fbe1c489841af4bb31ef58beb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 088/126] fix: do not alternate between external agents of the
 same name

---
 providers/agent/mcorpc/external/provider.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 57f916c..b515cce 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -205,6 +205,14 @@ func (p *Provider) reconcileAgents(ctx context.Context, mgr server.AgentManager,
 			return
 		}
 
+		known := findInAgentList(foundAgents, func(a *agent.DDL) bool {
+			return a.Metadata.Name == candidateDDL.Metadata.Name
+		})
+		if known != nil {
+			p.log.Warnf("Ignoring external agent %s in %s that is also defined in %s", candidateDDL.Metadata.Name, candidateDDL.SourceLocation, known.SourceLocation)
+			return
+		}
+
 		foundAgents = append(foundAgents, candidateDDL)
 	})
 
-- 
2.43.0


From 3e89aa2e44aedbcba7e2fd2fc1be841c39484ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 089/126] fix: deny reserved names to external agents in files
 with other names

---
 providers/agent/mcorpc/external/provider.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index b515cce..ffa755d 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -353,8 +353,8 @@ func (p *Provider) eachAgent(cb func(ddl *agent.DDL)) {
 				return nil
 			}
 
-			if !shouldLoadAgent(name) {
-				p.log.Warnf("External agents are not allowed to supply an agent called '%s', skipping", name)
+			if !shouldLoadAgent(name) || !shouldLoadAgent(ddl.Metadata.Name) {
+				p.log.Warnf("External agents are not allowed to supply an agent called '%s' in %s, skipping", ddl.Metadata.Name, ddlPath)
 				return retErr
 			}
 
-- 
2.43.0


From 3eb91db244804b658b2410adf3ac4b51eef84dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 090/126] fix: do not load external agents from nested
 directories

---
 providers/agent/mcorpc/external/provider.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index ffa755d..7a0b9fb 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -312,6 +312,10 @@ func (p *Provider) eachAgent(cb func(ddl *agent.DDL)) {
 			fname := info.Name()
 
 			if fname == "tmp" {
+				if info.IsDir() {
+					return fs.SkipDir
+				}
+
 				return retErr
 			}
 
@@ -350,7 +354,7 @@ func (p *Provider) eachAgent(cb func(ddl *agent.DDL)) {
 			}
 
 			if ddl.Metadata.Provider != "external" {
-				return nil
+				return retErr
 			}
 
 			if !shouldLoadAgent(name) || !shouldLoadAgent(ddl.Metadata.Name) {
-- 
2.43.0


From a0990fc83e2a75f972392895595d28f6ec3111f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 091/126] fix: do not block external agents that log long lines

---
 providers/agent/mcorpc/external/agent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/agent/mcorpc/external/agent.go b/providers/agent/mcorpc/external/agent.go
index ed3bb4c..310790d 100644
--- a/providers/agent/mcorpc/external/agent.go
+++ b/providers/agent/mcorpc/external/agent.go
@@ -300,6 +300,9 @@ func (p *Provider) executeRequest(ctx context.Context, command string, protocol
 		for scanner.Scan() {
 			logger(scanner.Text())
 		}
+
+		// a line that is too long ends the scan, agents must not block on writing the rest
+		io.Copy(io.Discard, in)
 	}
 
 	wg.Add(1)
-- 
2.43.0


From 6b320903f33fc227ac7017cceb1f4c9d14666207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 092/126] fix: pass the right protocol to activation checks

---
 providers/agent/mcorpc/external/agent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/external/agent.go b/providers/agent/mcorpc/external/agent.go
index 310790d..4552684 100644
--- a/providers/agent/mcorpc/external/agent.go
+++ b/providers/agent/mcorpc/external/agent.go
@@ -271,7 +271,7 @@ func (p *Provider) executeRequest(ctx context.Context, command string, protocol
 		factsfile.Write(si.Facts())
 	}
 
-	execution := exec.CommandContext(ctx, command, reqfile.Name(), repfile.Name(), rpcRequestProtocol)
+	execution := exec.CommandContext(ctx, command, reqfile.Name(), repfile.Name(), protocol)
 	execution.Dir = os.TempDir()
 	execution.Env = []string{
 		"CHORIA_EXTERNAL_REQUEST=" + reqfile.Name(),
-- 
2.43.0


From 1648bfb40c324e7886d89897d16dc7454be12356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:46 +0000
Subject: [PATCH 093/126] fix: do not round large numbers in replies of
 external agents

---
 providers/agent/mcorpc/external/agent.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/external/agent.go b/providers/agent/mcorpc/external/agent.go
index 4552684..808c77d 100644
--- a/providers/agent/mcorpc/external/agent.go
+++ b/providers/agent/mcorpc/external/agent.go
@@ -6,6 +6,7 @@ package external
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"encoding/json"
 	"fmt"
@@ -327,10 +328,17 @@ func (p *Provider) executeRequest(ctx context.Context, command string, protocol
 		return fmt.Errorf("failed to read reply json: %s", err)
 	}
 
-	err = json.Unmarshal(repjson, reply)
+	// numbers are kept as written rather than rounded to what a float can hold
+	decoder := json.NewDecoder(bytes.NewReader(repjson))
+	decoder.UseNumber()
+	err = decoder.Decode(reply)
 	if err != nil {
 		return fmt.Errorf("failed to decode reply json: %s", err)
 	}
+	_, err = decoder.Token()
+	if err != io.EOF {
+		return fmt.Errorf("failed to decode reply json: unexpected data after the reply")
+	}
 
 	return nil
 }
-- 
2.43.0


From 693430ea85babe92aa8c2fc8e0e1fadb5728cee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:32 +0000
Subject: [PATCH 094/126] fix: accept replies of external agents that hold no
 data

---
 providers/agent/mcorpc/external/agent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/external/agent.go b/providers/agent/mcorpc/external/agent.go
index 808c77d..b24b642 100644
--- a/providers/agent/mcorpc/external/agent.go
+++ b/providers/agent/mcorpc/external/agent.go
@@ -223,7 +223,8 @@ func (p *Provider) setReplyDefaults(ddl *agentddl.DDL, action string, reply *mco
 		return fmt.Errorf("could not load action: %s", err)
 	}
 
-	if reply.Data == nil {
+	switch reply.Data.(type) {
+	case nil, json.RawMessage: // the agent replied without data, what is there is from the empty reply it was given
 		reply.Data = make(map[string]any)
 	}
 
-- 
2.43.0


From 1e71e51e136a85150e90645d83c0b8ffd1cac040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:06 +0000
Subject: [PATCH 095/126] fix: do not crash the broker when connections close
 while being authenticated

---
 broker/network/choria_auth.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/broker/network/choria_auth.go b/broker/network/choria_auth.go
index 6359e95..f16e5e5 100644
--- a/broker/network/choria_auth.go
+++ b/broker/network/choria_auth.go
@@ -245,7 +245,7 @@ func (a *ChoriaAuth) handleDefaultConnection(c server.ClientAuthentication, conn
 	nonce := c.GetNonce()
 	jwts := opts.Token
 	caller := ""
-	pipeConnection := remote.String() == "pipe"
+	pipeConnection := remote != nil && remote.String() == "pipe"
 
 	var err error
 
@@ -387,7 +387,7 @@ func (a *ChoriaAuth) handleUnverifiedSystemAccount(c server.ClientAuthentication
 
 	claims, err := a.parseClientIDJWT(jwts)
 	if err != nil {
-		log.Errorf("could not parse JWT from %s: %s", remote.String(), err)
+		log.Errorf("could not parse JWT from %v: %s", remote, err)
 		return false, fmt.Errorf("invalid JWT token")
 	}
 
@@ -546,7 +546,7 @@ func (a *ChoriaAuth) handleUnverifiedProvisioningConnectionWithIssuer(c server.C
 		return false, err
 	}
 
-	a.log.Debugf("Allowing a provisioning server from using issuer '%s' connecting from %s", ous, c.RemoteAddress().String())
+	a.log.Debugf("Allowing a provisioning server from using issuer '%s' connecting from %v", ous, c.RemoteAddress())
 
 	// anything that get this far has to be a server and so we unconditionally set server
 	// only permissions, and only to agents provisioning would bother hosting.
@@ -579,7 +579,7 @@ func (a *ChoriaAuth) handleUnverifiedProvisioningConnectionWithTLS(c server.Clie
 		return false, err
 	}
 
-	a.log.Debugf("Allowing a provisioning server from using unverified TLS connection from %s", c.RemoteAddress().String())
+	a.log.Debugf("Allowing a provisioning server from using unverified TLS connection from %v", c.RemoteAddress())
 
 	// anything that get this far has to be a server and so we unconditionally set server
 	// only permissions, and only to agents provisioning would bother hosting.
-- 
2.43.0


From cae380c42da984016ac34f847f97f195b5d3037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:43 +0000
Subject: [PATCH 096/126] fix: do not crash on key-value watchers that have no
 interval

---
 aagent/watchers/kvwatcher/kv.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aagent/watchers/kvwatcher/kv.go b/aagent/watchers/kvwatcher/kv.go
index df78ee7..58b63de 100644
--- a/aagent/watchers/kvwatcher/kv.go
+++ b/aagent/watchers/kvwatcher/kv.go
@@ -521,7 +521,13 @@ func (w *Watcher) pollKey(ctx context.Context, wg *sync.WaitGroup) {
 
 	w.handleState(w.poll())
 
+	// without an interval we only poll on state changes
+	if w.interval <= 0 {
+		return
+	}
+
 	ticker := time.NewTicker(w.interval)
+	defer ticker.Stop()
 
 	for {
 		select {
-- 
2.43.0


From 602bffca35a30c731bb1bddceda3ed871c2a599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:52 +0000
Subject: [PATCH 097/126] fix: do not treat messages about other keys as
 updates of the key being watched

---
 aagent/watchers/kvwatcher/kv.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/aagent/watchers/kvwatcher/kv.go b/aagent/watchers/kvwatcher/kv.go
index 58b63de..3419720 100644
--- a/aagent/watchers/kvwatcher/kv.go
+++ b/aagent/watchers/kvwatcher/kv.go
@@ -243,7 +243,7 @@ func (w *Watcher) repubHandler(msg *nats.Msg) (State, error) {
 		return Error, fmt.Errorf("could not parse template for key: %v", err)
 	}
 
-	if !strings.HasSuffix(msg.Subject, parsedKey) {
+	if !isMessageForKey(msg, parsedKey) {
 		return Error, fmt.Errorf("received republish message on %s that does not match expected key %s", msg.Subject, parsedKey)
 	}
 
@@ -312,6 +312,17 @@ func (w *Watcher) repubHandler(msg *nats.Msg) (State, error) {
 	}
 }
 
+// determines if a republished message is for key, the subject in the stream is $KV.bucket.key while the subject it is
+// republished to is user configured and might end in the names of other keys
+func isMessageForKey(msg *nats.Msg, key string) bool {
+	parts := strings.SplitN(msg.Header.Get("Nats-Subject"), ".", 3)
+	if len(parts) == 3 && parts[0] == "$KV" {
+		return parts[2] == key
+	}
+
+	return msg.Subject == key || strings.HasSuffix(msg.Subject, "."+key)
+}
+
 func (w *Watcher) parseValue(val []byte) (any, error) {
 	var parsedValue any
 
-- 
2.43.0


From d5d02e20ffbf50a0522ac40583468e924bb3e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:17 +0000
Subject: [PATCH 098/126] fix: run exactly one gossip loop while in matching
 states however quickly states change

---
 aagent/watchers/gossipwatcher/gossip.go | 39 ++++++++-----------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/aagent/watchers/gossipwatcher/gossip.go b/aagent/watchers/gossipwatcher/gossip.go
index aa22aef..8e19e28 100644
--- a/aagent/watchers/gossipwatcher/gossip.go
+++ b/aagent/watchers/gossipwatcher/gossip.go
@@ -123,6 +123,7 @@ func (w *Watcher) getConn() (*nats.Conn, error) {
 func (w *Watcher) stopGossip() {
 	w.mu.Lock()
 	cancel := w.gossipCancel
+	w.gossipCancel = nil
 	w.state = Stopped
 	w.mu.Unlock()
 
@@ -134,36 +135,21 @@ func (w *Watcher) stopGossip() {
 
 func (w *Watcher) startGossip() {
 	w.mu.Lock()
-	cancel := w.gossipCancel
-	ctx := w.runCtx
-	w.mu.Unlock()
-
-	if cancel != nil {
+	if w.gossipCancel != nil {
+		w.mu.Unlock()
 		return
 	}
 
+	// set here rather than once the goroutine runs, so that a start or stop that follows at once finds it
+	gCtx, cancel := context.WithCancel(w.runCtx)
+	w.gossipCancel = cancel
+	w.state = Running
+	w.mu.Unlock()
+
 	go func() {
 		tick := time.NewTicker(w.interval)
-		gCtx, cancel := context.WithCancel(ctx)
-
-		var err error
-
-		w.mu.Lock()
-		w.state = Running
-		w.gossipCancel = cancel
-		w.mu.Unlock()
-
-		if err != nil {
-			w.Errorf("Could not get a NATS connection to publish Gossip")
-		}
-
-		stop := func() {
-			w.mu.Lock()
-			w.gossipCancel = nil
-			w.state = Stopped
-			tick.Stop()
-			w.mu.Unlock()
-		}
+		defer tick.Stop()
+		defer cancel()
 
 		publish := func() {
 			if !w.ShouldWatch() {
@@ -213,10 +199,9 @@ func (w *Watcher) startGossip() {
 			case <-tick.C:
 				publish()
 			case <-gCtx.Done():
-				stop()
 				return
 			case <-w.terminate:
-				stop()
+				w.stopGossip()
 				return
 			}
 		}
-- 
2.43.0


From 3a1655f81efd0bcb463f38e4d5be93315305c455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:21 +0000
Subject: [PATCH 099/126] fix: do not crash on metric commands that output null
 labels or metrics

---
 aagent/watchers/metricwatcher/metric.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 8a38b1b..3d0636b 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -255,6 +255,14 @@ func (w *Watcher) parseJSONCheck(output []byte) (*Metric, error) {
 		return metric, err
 	}
 
+	// null in the output unsets these
+	if metric.Labels == nil {
+		metric.Labels = map[string]string{"format": "choria"}
+	}
+	if metric.Metrics == nil {
+		metric.Metrics = map[string]float64{}
+	}
+
 	for k, v := range w.properties.Labels {
 		metric.Labels[k] = v
 	}
-- 
2.43.0


From a2269830daaa2fb1a3db1cd9864327c984051cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:23 +0000
Subject: [PATCH 100/126] fix: do not crash on metric commands that are empty

---
 aagent/watchers/metricwatcher/metric.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 3d0636b..98bf2a6 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -206,6 +206,11 @@ func (w *Watcher) watch(ctx context.Context) (state []byte, err error) {
 		w.Errorf("Metric watcher %s failed: %s", command, err)
 		return nil, err
 	}
+	if len(splitcmd) == 0 {
+		err = fmt.Errorf("no command specified")
+		w.Errorf("Metric watcher failed: %s", err)
+		return nil, err
+	}
 
 	cmd := exec.CommandContext(timeoutCtx, splitcmd[0], splitcmd[1:]...)
 	cmd.Env = append(cmd.Env, fmt.Sprintf("MACHINE_WATCHER_NAME=%s", w.name))
-- 
2.43.0


From f4b341a77049f5e54063e813c12d64eb645e1bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:25 +0000
Subject: [PATCH 101/126] fix: do not change gathered metrics while they are
 being read

---
 aagent/watchers/metricwatcher/metric.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 98bf2a6..72215fd 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -316,6 +316,9 @@ func (w *Watcher) handleCheck(ctx context.Context, output []byte, err error) err
 	}
 
 	metric.Time = time.Now().Unix()
+	w.mu.Lock()
+	metric.Metrics["choria_runtime_seconds"] = w.previousRunTime.Seconds()
+	w.mu.Unlock()
 
 	for k, v := range w.properties.Labels {
 		metric.Labels[k] = v
@@ -405,6 +408,7 @@ func (w *Watcher) publishToGraphite(ctx context.Context, metric *Metric) error {
 	for k, v := range metric.Metrics {
 		m[k] = v
 	}
+	delete(m, "choria_runtime_seconds")
 	m["runtime"] = w.previousRunTime.Seconds()
 
 	for k, v := range m {
@@ -466,15 +470,20 @@ func (w *Watcher) CurrentState() any {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
-	var res Metric
+	// previousResult is shared with other users of the metric, so must not be changed
+	res := Metric{
+		Labels:  make(map[string]string),
+		Metrics: make(map[string]float64),
+	}
 
-	if w.previousResult == nil {
-		res = Metric{
-			Labels:  make(map[string]string),
-			Metrics: make(map[string]float64),
+	if w.previousResult != nil {
+		res.Time = w.previousResult.Time
+		for k, v := range w.previousResult.Labels {
+			res.Labels[k] = v
+		}
+		for k, v := range w.previousResult.Metrics {
+			res.Metrics[k] = v
 		}
-	} else {
-		res = *w.previousResult
 	}
 
 	res.Metrics["choria_runtime_seconds"] = w.previousRunTime.Seconds()
-- 
2.43.0


From 003f5d6660ae23e0104067e9c6d82070df78940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:26 +0000
Subject: [PATCH 102/126] fix: lock the gathered metrics when creating metric
 watchers

---
 aagent/watchers/metricwatcher/metric.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 72215fd..20b1cc4 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -103,7 +103,9 @@ func New(machine model.Machine, name string, states []string, required []model.F
 	}
 
 	if !mw.properties.SkipPrometheus {
+		mu.Lock()
 		savePromState(machine.TextFileDirectory(), mw)
+		mu.Unlock()
 	}
 
 	return mw, nil
-- 
2.43.0


From 5841fe4d23e7fa983f44701be4c14cd42f1f28fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:16 +0000
Subject: [PATCH 103/126] fix: do not mix up metrics of machines and watchers
 with similar names

---
 aagent/watchers/metricwatcher/prometheus.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aagent/watchers/metricwatcher/prometheus.go b/aagent/watchers/metricwatcher/prometheus.go
index 38bfc55..dc494da 100644
--- a/aagent/watchers/metricwatcher/prometheus.go
+++ b/aagent/watchers/metricwatcher/prometheus.go
@@ -21,13 +21,19 @@ type logger interface {
 }
 
 var (
-	metrics map[string]*Metric
+	metrics map[metricKey]*Metric
 	mu      sync.Mutex
 )
 
+// metricKey identifies the watcher a metric belongs to
+type metricKey struct {
+	machine string
+	watcher string
+}
+
 func init() {
 	mu.Lock()
-	metrics = make(map[string]*Metric)
+	metrics = make(map[metricKey]*Metric)
 	mu.Unlock()
 }
 
@@ -37,7 +43,7 @@ func updatePromState(td string, log logger, machine string, name string, metric
 
 	metric.name = name
 	metric.machine = machine
-	metrics[fmt.Sprintf("%s_%s", machine, name)] = metric
+	metrics[metricKey{machine, name}] = metric
 
 	return savePromState(td, log)
 }
@@ -46,7 +52,7 @@ func deletePromState(td string, log logger, machine string, name string) error {
 	mu.Lock()
 	defer mu.Unlock()
 
-	delete(metrics, fmt.Sprintf("%s_%s", machine, name))
+	delete(metrics, metricKey{machine, name})
 
 	return savePromState(td, log)
 }
-- 
2.43.0


From fd06c44aea76505f71f1c30c9d652f19ed11ed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:18 +0000
Subject: [PATCH 104/126] fix: keep metrics that are gathered less often than
 others in the Prometheus metrics

---
 aagent/watchers/metricwatcher/metric.go     |  9 +++++++--
 aagent/watchers/metricwatcher/prometheus.go | 10 ++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 20b1cc4..fe7bb27 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -36,7 +36,10 @@ type Metric struct {
 	Time    int64              `json:"time"`
 	name    string
 	machine string
-	seen    int
+
+	// interval is how often the metric is gathered, updated is when it was last gathered
+	interval time.Duration
+	updated  time.Time
 }
 
 func (m *Metric) GetLabels() map[string]string   { return m.Labels }
@@ -317,7 +320,9 @@ func (w *Watcher) handleCheck(ctx context.Context, output []byte, err error) err
 		return w.FailureTransition()
 	}
 
-	metric.Time = time.Now().Unix()
+	metric.interval = w.properties.Interval
+	metric.updated = time.Now()
+	metric.Time = metric.updated.Unix()
 	w.mu.Lock()
 	metric.Metrics["choria_runtime_seconds"] = w.previousRunTime.Seconds()
 	w.mu.Unlock()
diff --git a/aagent/watchers/metricwatcher/prometheus.go b/aagent/watchers/metricwatcher/prometheus.go
index dc494da..0a8e5a0 100644
--- a/aagent/watchers/metricwatcher/prometheus.go
+++ b/aagent/watchers/metricwatcher/prometheus.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"strings"
 	"sync"
+	"time"
 
 	"github.com/choria-io/go-choria/internal/util"
 )
@@ -87,11 +88,12 @@ func savePromState(td string, log logger) error {
 	// be the same prom metric but with different labels
 	pmetrics := map[string]*promMetric{}
 	for _, ms := range metrics {
-		ms.seen++
-
 		// if metrics arent being updated we need to eventually stop logging them, this can happen
-		// when someone renames a watcher in a machine - it should call delete but sometimes its missed
-		if ms.seen > 5 {
+		// when someone renames a watcher in a machine - it should call delete but sometimes its missed.
+		//
+		// we save whenever any watcher gathers its metrics so it must be based on time and
+		// not on how many times it was saved, gathering can take some time so we allow for that
+		if time.Since(ms.updated) > 5*ms.interval+10*time.Second {
 			continue
 		}
 
-- 
2.43.0


From f9220b7bede35efc2e530f9386709601c5e106dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:20 +0000
Subject: [PATCH 105/126] fix: do not write invalid Prometheus metrics for
 unusual names and labels

---
 aagent/watchers/metricwatcher/prometheus.go | 32 +++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/aagent/watchers/metricwatcher/prometheus.go b/aagent/watchers/metricwatcher/prometheus.go
index 0a8e5a0..a49706f 100644
--- a/aagent/watchers/metricwatcher/prometheus.go
+++ b/aagent/watchers/metricwatcher/prometheus.go
@@ -62,6 +62,34 @@ func promName(name string) string {
 	return strings.Replace(strings.Replace(strings.Replace(strings.ToLower(name), " ", "_", -1), ",", "_", -1), `"`, "_", -1)
 }
 
+// promIdentifier replaces everything that may not be in the name of a Prometheus metric or label,
+// one name that is not valid would make all the metrics in the file unusable
+func promIdentifier(name string, label bool) string {
+	return strings.Map(func(r rune) rune {
+		switch {
+		case r == ':' && !label:
+			return r
+		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_':
+			return r
+		default:
+			return '_'
+		}
+	}, name)
+}
+
+func promLabelName(name string) string {
+	name = promIdentifier(promName(name), true)
+	if name == "" || (name[0] >= '0' && name[0] <= '9') {
+		name = "_" + name
+	}
+
+	return name
+}
+
+func promLabelValue(value string) string {
+	return strings.NewReplacer(`\`, `\\`, "\n", `\n`).Replace(promName(value))
+}
+
 // lock should be held
 func savePromState(td string, log logger) error {
 	if td == "" {
@@ -98,7 +126,7 @@ func savePromState(td string, log logger) error {
 		}
 
 		for n, v := range ms.Metrics {
-			mname := fmt.Sprintf("choria_machine_metric_watcher_%s_%s", promName(ms.name), n)
+			mname := fmt.Sprintf("choria_machine_metric_watcher_%s_%s", promIdentifier(promName(ms.name), false), promIdentifier(n, false))
 			_, ok := pmetrics[mname]
 			if !ok {
 				pmetrics[mname] = &promMetric{values: []*promValue{}}
@@ -106,7 +134,7 @@ func savePromState(td string, log logger) error {
 
 			var labelArray []string
 			for k, v := range ms.Labels {
-				labelArray = append(labelArray, fmt.Sprintf(`%s="%v"`, promName(k), promName(v)))
+				labelArray = append(labelArray, fmt.Sprintf(`%s="%v"`, promLabelName(k), promLabelValue(v)))
 			}
 
 			pmetrics[mname].values = append(pmetrics[mname].values, &promValue{
-- 
2.43.0


From bd046bd40fcb5e73e8039c1cf96bfa6b0f8dab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:22 +0000
Subject: [PATCH 106/126] fix: keep the stored metrics of other metric watchers
 in the machine

---
 aagent/watchers/metricwatcher/metric.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index fe7bb27..89cd974 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -46,6 +46,9 @@ func (m *Metric) GetLabels() map[string]string   { return m.Labels }
 func (m *Metric) GetMetrics() map[string]float64 { return m.Metrics }
 func (m *Metric) GetTime() int64                 { return m.Time }
 
+// dataMu protects updates to the machine data that metric watchers share
+var dataMu sync.Mutex
+
 type properties struct {
 	// Command is the path to the command to run to retrieve the metric
 	Command string
@@ -364,7 +367,23 @@ func (w *Watcher) storeMetricAsData(metric *Metric) error {
 
 	w.Debugf("Storing metrics to machine data")
 
-	return w.machine.DataPut("metric", map[string]any{w.name: metric})
+	// other metric watchers in the machine store their metrics in the same data item
+	dataMu.Lock()
+	defer dataMu.Unlock()
+
+	stored := map[string]any{}
+	have, ok := w.machine.DataGet("metric")
+	if ok {
+		current, ok := have.(map[string]any)
+		if ok {
+			for k, v := range current {
+				stored[k] = v
+			}
+		}
+	}
+	stored[w.name] = metric
+
+	return w.machine.DataPut("metric", stored)
 }
 
 func (w *Watcher) publishToGraphite(ctx context.Context, metric *Metric) error {
-- 
2.43.0


From b560ebea7adb3a6ed284cfdec220558219dc6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:24 +0000
Subject: [PATCH 107/126] fix: do not append null to the response about unknown
 switches

---
 aagent/http/http.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aagent/http/http.go b/aagent/http/http.go
index 9548671..856b125 100644
--- a/aagent/http/http.go
+++ b/aagent/http/http.go
@@ -203,6 +203,7 @@ func (s *HTTPServer) switchGetHandler(w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		w.WriteHeader(http.StatusBadRequest)
 		w.Write([]byte(err.Error()))
+		return
 	}
 
 	j, err := json.Marshal(resp)
-- 
2.43.0


From 04375ebcbbca0a2a31b0a49692978ad2b45f89f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:26 +0000
Subject: [PATCH 108/126] fix: do not report switches as on after turning them
 off

---
 aagent/http/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/http/http.go b/aagent/http/http.go
index 856b125..567f6fc 100644
--- a/aagent/http/http.go
+++ b/aagent/http/http.go
@@ -300,7 +300,7 @@ func (s *HTTPServer) switchPostImpl(machine string, watcher string, on bool) (bo
 		return false, err
 	}
 
-	return ok, nil
+	return ok && on, nil
 }
 
 // switchPostHandler handles requests for POST /switch/{machine}/{watcher}
-- 
2.43.0


From 4dc3ed90f64665699683c9994bfa2554a8405674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:27 +0000
Subject: [PATCH 109/126] fix: do not remove the replacement of a stopped
 watcher from the HTTP server

---
 aagent/http/http.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aagent/http/http.go b/aagent/http/http.go
index 567f6fc..015121b 100644
--- a/aagent/http/http.go
+++ b/aagent/http/http.go
@@ -358,8 +358,9 @@ func (s *HTTPServer) RemoveSwitchWatcher(machine string, watcher model.HttpSwitc
 	s.Lock()
 	defer s.Unlock()
 
-	_, ok := s.switches[machine]
-	if ok {
+	// a machine that was updated might already have registered a new watcher
+	current, ok := s.switches[machine][watcher.Name()]
+	if ok && current == watcher {
 		s.logger.Infof("Removing switch watcher %s#%s from HTTP", machine, watcher.Name())
 		delete(s.switches[machine], watcher.Name())
 	}
@@ -382,8 +383,9 @@ func (s *HTTPServer) RemoveMetricWatcher(machine string, watcher model.MetricWat
 	s.Lock()
 	defer s.Unlock()
 
-	_, ok := s.metrics[machine]
-	if ok {
+	// a machine that was updated might already have registered a new watcher
+	current, ok := s.metrics[machine][watcher.Name()]
+	if ok && current == watcher {
 		s.logger.Infof("Removing metric watcher %s#%s from HTTP", machine, watcher.Name())
 		delete(s.metrics[machine], watcher.Name())
 	}
-- 
2.43.0


From 3a7586669f6c3fcbbcd7154a24b8c406e5f263d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:29 +0000
Subject: [PATCH 110/126] fix: do not block switches forever when state changes
 and button presses coincide

---
 aagent/watchers/httpswitchwatcher/httpswitch.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aagent/watchers/httpswitchwatcher/httpswitch.go b/aagent/watchers/httpswitchwatcher/httpswitch.go
index 96328a9..76bee17 100644
--- a/aagent/watchers/httpswitchwatcher/httpswitch.go
+++ b/aagent/watchers/httpswitchwatcher/httpswitch.go
@@ -127,7 +127,7 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 	defer wg.Done()
 
 	if w.ShouldWatch() {
-		w.Watcher.StateChangeC() <- struct{}{}
+		w.NotifyStateChance()
 	}
 
 	for {
@@ -145,12 +145,18 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 		case <-w.Watcher.StateChangeC():
 			mstate := w.machine.State()
 
+			// handled here as only this loop reads button presses, sending one from here
+			// would wait forever once a button is pressed
+			var err error
 			switch {
 			case w.shouldBeOn(mstate):
-				w.buttonPress <- OnNoTransition
+				err = w.handleStateChange(OnNoTransition)
 
 			case w.shouldBeOff(mstate):
-				w.buttonPress <- OffNoTransition
+				err = w.handleStateChange(OffNoTransition)
+			}
+			if err != nil {
+				w.Errorf("Could not handle state change: %v", err)
 			}
 
 		case <-ctx.Done():
-- 
2.43.0


From adddf19e14b9213437f63ac6b331034295929b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:32 +0000
Subject: [PATCH 111/126] fix: parse quoted labels in Nagios performance data

---
 aagent/util/nagios.go | 45 +++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/aagent/util/nagios.go b/aagent/util/nagios.go
index 9f70d3c..c779812 100644
--- a/aagent/util/nagios.go
+++ b/aagent/util/nagios.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 // PerfData represents a single item of Nagios performance data
@@ -19,6 +20,16 @@ type PerfData struct {
 
 var valParse = regexp.MustCompile(`^([-*\d+\.]+)(us|ms|s|%|B|KB|MB|TB|c)*`)
 
+// nextPerfData splits off everything up to the next white space
+func nextPerfData(pd string) (item string, rest string) {
+	i := strings.IndexFunc(pd, unicode.IsSpace)
+	if i == -1 {
+		return pd, ""
+	}
+
+	return pd[:i], strings.TrimSpace(pd[i:])
+}
+
 // ParsePerfData parses Nagios format performance data from an output string
 // https://stackoverflow.com/questions/46886118/what-is-the-nagios-performance-data-format
 func ParsePerfData(pd string) (perf []PerfData) {
@@ -27,25 +38,35 @@ func ParsePerfData(pd string) (perf []PerfData) {
 		return perf
 	}
 
-	rawMetrics := strings.Split(strings.TrimSpace(parts[1]), " ")
-	for _, rawMetric := range rawMetrics {
-		metric := strings.TrimSpace(rawMetric)
-		metric = strings.TrimPrefix(metric, "'")
-		metric = strings.TrimSuffix(metric, "'")
+	rest := strings.TrimSpace(parts[1])
+	for rest != "" {
+		var label, metric string
 
-		if len(metric) == 0 {
-			continue
+		// labels that have spaces are quoted
+		quoted, val, ok := strings.Cut(strings.TrimPrefix(rest, "'"), "'=")
+		if ok && strings.HasPrefix(rest, "'") && !strings.Contains(quoted, "=") {
+			label = quoted
+			metric, rest = nextPerfData(val)
+		} else {
+			metric, rest = nextPerfData(rest)
+			metric = strings.TrimPrefix(metric, "'")
+			metric = strings.TrimSuffix(metric, "'")
+			metric, _, _ = strings.Cut(metric, ";")
+
+			label, metric, ok = strings.Cut(metric, "=")
+			if !ok {
+				continue
+			}
 		}
 
 		// throwing away thresholds for now
-		mparts := strings.Split(metric, ";")
-		mparts = strings.Split(mparts[0], "=")
-		if len(mparts) != 2 {
+		metric, _, _ = strings.Cut(metric, ";")
+		if strings.Contains(metric, "=") {
 			continue
 		}
 
-		label := strings.Replace(mparts[0], " ", "_", -1)
-		valParts := valParse.FindStringSubmatch(mparts[1])
+		label = strings.Replace(label, " ", "_", -1)
+		valParts := valParse.FindStringSubmatch(metric)
 		if len(valParts) == 0 {
 			continue
 		}
-- 
2.43.0


From a7ef24e2582d8a3df0fe2f35f011f0b4f37e204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:03 +0000
Subject: [PATCH 112/126] fix: publish the data of every registration plugin
 when several are active

---
 server/registration/registration.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/registration/registration.go b/server/registration/registration.go
index 697dfb5..6b4c576 100644
--- a/server/registration/registration.go
+++ b/server/registration/registration.go
@@ -135,19 +135,22 @@ func (reg *Manager) registrationWorker(ctx context.Context, wg *sync.WaitGroup,
 		}
 	}
 
+	// what was published last is specific to each provider, sharing it would suppress the data of all but one
+	worker := New(reg.choria, reg.si, reg.connector, reg.log)
+
 	wg.Add(1)
 	if reg.cfg.Choria.RegistrationSizeTrigger > 0 {
 		reg.log.Debugf("RegistrationSizeTrigger defined at: %d", reg.cfg.Choria.RegistrationSizeTrigger)
-		go registrator.StartRegistration(ctx, wg, reg.cfg.Choria.RegistrationSizeInterval, reg.datac)
+		go registrator.StartRegistration(ctx, wg, reg.cfg.Choria.RegistrationSizeInterval, worker.datac)
 	} else {
 		reg.log.Debugf("RegistrationSizeTrigger is not defined, using RegisterInterval")
-		go registrator.StartRegistration(ctx, wg, reg.cfg.RegisterInterval, reg.datac)
+		go registrator.StartRegistration(ctx, wg, reg.cfg.RegisterInterval, worker.datac)
 	}
 
 	for {
 		select {
-		case msg := <-reg.datac:
-			reg.publish(msg)
+		case msg := <-worker.datac:
+			worker.publish(msg)
 		case <-ctx.Done():
 			reg.log.Infof("Registration system exiting on shut down")
 			return
-- 
2.43.0


From 83376296f1ca42e20b75f2fcbed9e6207921f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:03 +0000
Subject: [PATCH 113/126] fix: do not consider registration data that could not
 be published as published

---
 server/registration/registration.go | 37 +++++++++++++++++------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/server/registration/registration.go b/server/registration/registration.go
index 6b4c576..b306617 100644
--- a/server/registration/registration.go
+++ b/server/registration/registration.go
@@ -188,10 +188,11 @@ func (reg *Manager) publish(rmsg *data.RegistrationItem) {
 	currentTime := time.Now().Unix()
 	reg.log.Debugf("Time since last publish: %d", (currentTime - reg.lastPublishedTime))
 	if (currentTime - reg.lastPublishedTime) >= int64(reg.cfg.RegisterInterval) {
-		reg.log.Debugf("Passed the RegisterInterval since we last published. Setting last published size as %d and last published time as %d", len(rmsg.Data), currentTime)
-		reg.lastPublishedSize = len(rmsg.Data)
-		reg.lastPublishedTime = currentTime
-		reg.publishMsg(msg, rmsg.Destination)
+		if reg.publishMsg(msg, rmsg.Destination) {
+			reg.log.Debugf("Passed the RegisterInterval since we last published. Setting last published size as %d and last published time as %d", len(rmsg.Data), currentTime)
+			reg.lastPublishedSize = len(rmsg.Data)
+			reg.lastPublishedTime = currentTime
+		}
 		return
 	}
 
@@ -199,23 +200,29 @@ func (reg *Manager) publish(rmsg *data.RegistrationItem) {
 		publishSizeDifference := math.Abs(float64(reg.lastPublishedSize - len(rmsg.Data)))
 		if publishSizeDifference >= float64(reg.cfg.Choria.RegistrationSizeTrigger) {
 			reg.log.Debugf("Published size difference is: %f", publishSizeDifference)
-			reg.log.Debugf("Breached threshold for registration message size. Publishing and Setting lastPublishedSize as %d and lastPublishedTime as %d", len(rmsg.Data), currentTime)
-			reg.lastPublishedSize = len(rmsg.Data)
-			reg.lastPublishedTime = currentTime
-			reg.publishMsg(msg, rmsg.Destination)
+			if reg.publishMsg(msg, rmsg.Destination) {
+				reg.log.Debugf("Breached threshold for registration message size. Publishing and Setting lastPublishedSize as %d and lastPublishedTime as %d", len(rmsg.Data), currentTime)
+				reg.lastPublishedSize = len(rmsg.Data)
+				reg.lastPublishedTime = currentTime
+			}
 			return
 		}
 	}
 }
 
-// publishMsg will publish to message to the appropriate stream
-func (reg *Manager) publishMsg(msg inter.Message, destination string) {
+// publishMsg will publish to message to the appropriate stream, reports if the message was published
+func (reg *Manager) publishMsg(msg inter.Message, destination string) bool {
 	msg.SetReplyTo("dev.null")
 	msg.SetCustomTarget(destination)
-	if reg.connector.IsConnected() {
-		err := reg.connector.Publish(msg)
-		if err != nil {
-			reg.log.Warnf("Could not publish registration Message: %s", err)
-		}
+	if !reg.connector.IsConnected() {
+		return false
+	}
+
+	err := reg.connector.Publish(msg)
+	if err != nil {
+		reg.log.Warnf("Could not publish registration Message: %s", err)
+		return false
 	}
+
+	return true
 }
-- 
2.43.0


From 5c5428f3ca4cf392770431061dbf3bbd2e0e7e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:03 +0000
Subject: [PATCH 114/126] fix: do not skip registration data that is slightly
 early

---
 server/registration/registration.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/server/registration/registration.go b/server/registration/registration.go
index b306617..645cde7 100644
--- a/server/registration/registration.go
+++ b/server/registration/registration.go
@@ -53,7 +53,7 @@ type Manager struct {
 	datac             chan *data.RegistrationItem
 	si                registration.ServerInfoSource
 	lastPublishedSize int
-	lastPublishedTime int64
+	lastPublishedTime time.Time
 }
 
 // New creates a new instance of the registration subsystem manager
@@ -66,7 +66,6 @@ func New(c ChoriaFramework, si registration.ServerInfoSource, conn Connection, l
 		connector:         conn,
 		datac:             make(chan *data.RegistrationItem, 1),
 		lastPublishedSize: 0,
-		lastPublishedTime: 0,
 	}
 
 	return r
@@ -185,11 +184,13 @@ func (reg *Manager) publish(rmsg *data.RegistrationItem) {
 	}
 
 	reg.log.Debugf("Last published size is: %d, current message size is: %d", reg.lastPublishedSize, len(rmsg.Data))
-	currentTime := time.Now().Unix()
-	reg.log.Debugf("Time since last publish: %d", (currentTime - reg.lastPublishedTime))
-	if (currentTime - reg.lastPublishedTime) >= int64(reg.cfg.RegisterInterval) {
+	currentTime := time.Now()
+	// items made every RegisterInterval arrive slightly early or late, rounding avoids skipping the early ones
+	sinceLast := currentTime.Sub(reg.lastPublishedTime).Round(time.Second)
+	reg.log.Debugf("Time since last publish: %v", sinceLast)
+	if sinceLast >= time.Duration(reg.cfg.RegisterInterval)*time.Second {
 		if reg.publishMsg(msg, rmsg.Destination) {
-			reg.log.Debugf("Passed the RegisterInterval since we last published. Setting last published size as %d and last published time as %d", len(rmsg.Data), currentTime)
+			reg.log.Debugf("Passed the RegisterInterval since we last published. Setting last published size as %d and last published time as %v", len(rmsg.Data), currentTime)
 			reg.lastPublishedSize = len(rmsg.Data)
 			reg.lastPublishedTime = currentTime
 		}
@@ -201,7 +202,7 @@ func (reg *Manager) publish(rmsg *data.RegistrationItem) {
 		if publishSizeDifference >= float64(reg.cfg.Choria.RegistrationSizeTrigger) {
 			reg.log.Debugf("Published size difference is: %f", publishSizeDifference)
 			if reg.publishMsg(msg, rmsg.Destination) {
-				reg.log.Debugf("Breached threshold for registration message size. Publishing and Setting lastPublishedSize as %d and lastPublishedTime as %d", len(rmsg.Data), currentTime)
+				reg.log.Debugf("Breached threshold for registration message size. Publishing and Setting lastPublishedSize as %d and lastPublishedTime as %v", len(rmsg.Data), currentTime)
 				reg.lastPublishedSize = len(rmsg.Data)
 				reg.lastPublishedTime = currentTime
 			}
-- 
2.43.0


From 7e5a40030a477f115a3266cec5426972d3a776f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:03 +0000
Subject: [PATCH 115/126] fix: do not crash when registration intervals are 0

---
 server/registration/registration.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/registration/registration.go b/server/registration/registration.go
index 645cde7..3e2ef09 100644
--- a/server/registration/registration.go
+++ b/server/registration/registration.go
@@ -124,6 +124,11 @@ func (reg *Manager) RegisterProvider(ctx context.Context, wg *sync.WaitGroup, pr
 func (reg *Manager) registrationWorker(ctx context.Context, wg *sync.WaitGroup, registrator RegistrationDataProvider) {
 	defer wg.Done()
 
+	if reg.cfg.RegisterInterval <= 0 {
+		reg.log.Warnf("Registration is disabled since registerinterval is %d", reg.cfg.RegisterInterval)
+		return
+	}
+
 	if reg.cfg.RegistrationSplay {
 		sleepTime := time.Duration(rand.N(reg.cfg.RegisterInterval)) * time.Second
 		reg.log.Infof("Sleeping %s seconds before first poll due to RegistrationSplay", sleepTime)
@@ -138,7 +143,7 @@ func (reg *Manager) registrationWorker(ctx context.Context, wg *sync.WaitGroup,
 	worker := New(reg.choria, reg.si, reg.connector, reg.log)
 
 	wg.Add(1)
-	if reg.cfg.Choria.RegistrationSizeTrigger > 0 {
+	if reg.cfg.Choria.RegistrationSizeTrigger > 0 && reg.cfg.Choria.RegistrationSizeInterval > 0 {
 		reg.log.Debugf("RegistrationSizeTrigger defined at: %d", reg.cfg.Choria.RegistrationSizeTrigger)
 		go registrator.StartRegistration(ctx, wg, reg.cfg.Choria.RegistrationSizeInterval, worker.datac)
 	} else {
-- 
2.43.0


From b97e004aacbeffca0d59e56ec6c1510decc84662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:03 +0000
Subject: [PATCH 116/126] fix: do not crash when registration data files are
 not accessible

---
 providers/registration/file_content.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/registration/file_content.go b/providers/registration/file_content.go
index 721cf24..23d4443 100644
--- a/providers/registration/file_content.go
+++ b/providers/registration/file_content.go
@@ -100,6 +100,9 @@ func (fc *FileContent) publish(output chan *data.RegistrationItem) error {
 	if os.IsNotExist(err) {
 		return fmt.Errorf("could not find data file %s", fc.dataFile)
 	}
+	if err != nil {
+		return fmt.Errorf("could not access data file %s: %s", fc.dataFile, err)
+	}
 
 	if fstat.Size() == 0 {
 		return fmt.Errorf("data file %s is empty", fc.dataFile)
-- 
2.43.0


From 2e956cfc6d1b8bfd0a43e2cbd4abbd81f6e7f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:03 +0000
Subject: [PATCH 117/126] fix: do not crash when writing server status is
 disabled

---
 server/infosource.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/server/infosource.go b/server/infosource.go
index c15417a..046d5f2 100644
--- a/server/infosource.go
+++ b/server/infosource.go
@@ -239,12 +239,12 @@ func (srv *Instance) WriteServerStatus(ctx context.Context, wg *sync.WaitGroup)
 	target := srv.cfg.Choria.StatusFilePath
 	freq := srv.cfg.Choria.StatusUpdateSeconds
 
-	writer := func() error {
-		if target == "" || freq == 0 {
-			srv.log.Debug("Server status writing has been disabled")
-			return nil
-		}
+	if target == "" || freq <= 0 {
+		srv.log.Debug("Server status writing has been disabled")
+		return
+	}
 
+	writer := func() error {
 		srv.log.Debugf("Writing server status to %s", target)
 
 		j, err := json.Marshal(srv.Status())
-- 
2.43.0


From c10704d902d764ec3a59baf45360820f990e4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:03 +0000
Subject: [PATCH 118/126] fix: write server status files atomically

---
 server/infosource.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/server/infosource.go b/server/infosource.go
index 046d5f2..6e3826c 100644
--- a/server/infosource.go
+++ b/server/infosource.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
+	"path/filepath"
 	"sync"
 	"time"
 
@@ -252,12 +253,30 @@ func (srv *Instance) WriteServerStatus(ctx context.Context, wg *sync.WaitGroup)
 			return err
 		}
 
-		err = os.WriteFile(target, j, 0644)
+		// readers should never see partial files
+		tf, err := os.CreateTemp(filepath.Dir(target), filepath.Base(target))
 		if err != nil {
 			return err
 		}
+		defer os.Remove(tf.Name())
 
-		return os.Chmod(target, 0644)
+		_, err = tf.Write(j)
+		if err != nil {
+			tf.Close()
+			return err
+		}
+
+		err = tf.Close()
+		if err != nil {
+			return err
+		}
+
+		err = os.Chmod(tf.Name(), 0644)
+		if err != nil {
+			return err
+		}
+
+		return os.Rename(tf.Name(), target)
 	}
 
 	err := writer()
-- 
2.43.0


From d3c4515bfd3b2467ae83db3d8b17552980e59330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:03 +0000
Subject: [PATCH 119/126] fix: do not count replies that could not be published

---
 server/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/processor.go b/server/processor.go
index 039a2d1..6f3474e 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -91,6 +91,7 @@ func (srv *Instance) handleReply(reply *agents.AgentReply) {
 	err = srv.connector.Publish(msg)
 	if err != nil {
 		srv.log.Errorf("Publishing reply Message for %s failed: %s", reply.Message.RequestID(), err)
+		return
 	}
 
 	repliesCtr.WithLabelValues(srv.cfg.Identity).Inc()
-- 
2.43.0


From 30793ed59984619659b5cbec51db2d8659e91534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:03 +0000
Subject: [PATCH 120/126] fix: do not repeat the id and time of the first alive
 event

---
 server/lifecycle.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/lifecycle.go b/server/lifecycle.go
index fb4f183..4c85999 100644
--- a/server/lifecycle.go
+++ b/server/lifecycle.go
@@ -80,19 +80,19 @@ func (srv *Instance) publishAliveEvents(ctx context.Context, wg *sync.WaitGroup)
 	defer wg.Done()
 
 	delay := time.Duration(rand.N(30)) * time.Minute
-	event, err := lifecycle.New(lifecycle.Alive, lifecycle.Identity(srv.cfg.Identity), lifecycle.Version(srv.fw.BuildInfo().Version()), lifecycle.Component(srv.eventComponent()))
-	if err != nil {
-		srv.log.Errorf("Could not create new alive event: %s", err)
-		return
-	}
-
 	srv.log.Debugf("Sleeping %v until first alive event", delay)
-	err = iu.InterruptibleSleep(ctx, delay)
+	err := iu.InterruptibleSleep(ctx, delay)
 	if err != nil {
 		return
 	}
 
 	f := func() {
+		event, err := lifecycle.New(lifecycle.Alive, lifecycle.Identity(srv.cfg.Identity), lifecycle.Version(srv.fw.BuildInfo().Version()), lifecycle.Component(srv.eventComponent()))
+		if err != nil {
+			srv.log.Errorf("Could not create new alive event: %s", err)
+			return
+		}
+
 		srv.log.Debug("Publishing alive event")
 		err = srv.PublishEvent(event)
 		if err != nil {
-- 
2.43.0


From f4363bd2f3407c1f7218f80e2b54fab5899a3027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:03 +0000
Subject: [PATCH 121/126] fix: do not crash on compound filters when data
 providers are not running

---
 server/data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/data.go b/server/data.go
index 4ed2d2f..7fc90d5 100644
--- a/server/data.go
+++ b/server/data.go
@@ -31,5 +31,9 @@ func (srv *Instance) DataFuncMap() (ddl.FuncMap, error) {
 		return nil, fmt.Errorf("data providers not available in provisioning mode")
 	}
 
+	if srv.data == nil {
+		return nil, fmt.Errorf("data providers are not running")
+	}
+
 	return srv.data.FuncMap(srv)
 }
-- 
2.43.0


From f44f1c2838bd695c1dd26d81830215540035a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:47 +0000
Subject: [PATCH 122/126] fix: do not block shutdown forever when registration
 data is waiting to be published

---
 server/registration/registration.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/server/registration/registration.go b/server/registration/registration.go
index 3e2ef09..64b5beb 100644
--- a/server/registration/registration.go
+++ b/server/registration/registration.go
@@ -142,22 +142,36 @@ func (reg *Manager) registrationWorker(ctx context.Context, wg *sync.WaitGroup,
 	// what was published last is specific to each provider, sharing it would suppress the data of all but one
 	worker := New(reg.choria, reg.si, reg.connector, reg.log)
 
-	wg.Add(1)
+	interval := reg.cfg.RegisterInterval
 	if reg.cfg.Choria.RegistrationSizeTrigger > 0 && reg.cfg.Choria.RegistrationSizeInterval > 0 {
 		reg.log.Debugf("RegistrationSizeTrigger defined at: %d", reg.cfg.Choria.RegistrationSizeTrigger)
-		go registrator.StartRegistration(ctx, wg, reg.cfg.Choria.RegistrationSizeInterval, worker.datac)
+		interval = reg.cfg.Choria.RegistrationSizeInterval
 	} else {
 		reg.log.Debugf("RegistrationSizeTrigger is not defined, using RegisterInterval")
-		go registrator.StartRegistration(ctx, wg, reg.cfg.RegisterInterval, worker.datac)
 	}
 
+	wg.Add(1)
+	stopped := make(chan struct{})
+	go func() {
+		defer close(stopped)
+		registrator.StartRegistration(ctx, wg, interval, worker.datac)
+	}()
+
 	for {
 		select {
 		case msg := <-worker.datac:
 			worker.publish(msg)
 		case <-ctx.Done():
 			reg.log.Infof("Registration system exiting on shut down")
-			return
+
+			// the provider might be waiting to hand over data, discard it else it would wait forever
+			for {
+				select {
+				case <-worker.datac:
+				case <-stopped:
+					return
+				}
+			}
 		}
 	}
 }
-- 
2.43.0


From 338fab162449ad8cbd3bb887ddbe71aee1f049d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:07 +0000
Subject: [PATCH 123/126] fix: do not end or lose subscriptions that share a
 name or whose reader is gone

---
 choria/connection.go | 151 +++++++++++++++++++++++--------------------
 1 file changed, 82 insertions(+), 69 deletions(-)

diff --git a/choria/connection.go b/choria/connection.go
index 33277ad..1eeee98 100644
--- a/choria/connection.go
+++ b/choria/connection.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 	"net/url"
 	"os"
+	"slices"
 	"strings"
 	"sync"
 	"time"
@@ -80,7 +81,7 @@ type Connection struct {
 	log               *log.Entry
 	fw                *Framework
 	config            *config.Config
-	chanSubscriptions map[string]*channelSubscription
+	chanSubscriptions map[string][]*channelSubscription
 	outbox            chan *nats.Msg
 	subMu             sync.Mutex
 	conMu             sync.Mutex
@@ -144,7 +145,7 @@ func (fw *Framework) NewConnector(ctx context.Context, servers func() (srvcache.
 		log:               logger.WithField("connection", name),
 		fw:                fw,
 		config:            fw.Config,
-		chanSubscriptions: make(map[string]*channelSubscription),
+		chanSubscriptions: make(map[string][]*channelSubscription),
 		outbox:            make(chan *nats.Msg, 1000),
 		ctx:               ctx,
 	}
@@ -207,41 +208,15 @@ func (conn *Connection) Nats() *nats.Conn {
 //
 // The given name would later be used should a unsubscribe be needed
 func (conn *Connection) ChanQueueSubscribe(name string, subject string, group string, capacity int) (chan inter.ConnectorMessage, error) {
-	var err error
-
 	s := &channelSubscription{
 		in:   make(chan *nats.Msg, capacity),
 		out:  make(chan inter.ConnectorMessage, capacity),
 		quit: make(chan any, 1),
 	}
 
-	conn.subMu.Lock()
-	conn.chanSubscriptions[name] = s
-	conn.subMu.Unlock()
-
-	copier := func(subs *channelSubscription) {
-		for {
-			select {
-			case m := <-subs.in:
-				subs.out <- &ConnectorMessage{data: m.Data, reply: m.Reply, subject: m.Subject, msg: m}
-			case <-subs.quit:
-				return
-			}
-		}
-	}
-
-	go copier(s)
-
-	conn.log.Debugf("Subscribing to %s in group '%s' on server %s", subject, group, conn.ConnectedServer())
-
-	s.subscription, err = conn.nats.ChanQueueSubscribe(subject, group, s.in)
-	if err != nil {
-		return nil, fmt.Errorf("could not subscribe to subscription %s: %s", name, err)
-	}
-
-	err = conn.nats.Flush()
+	err := conn.startSubscription(context.Background(), name, subject, group, s)
 	if err != nil {
-		return nil, fmt.Errorf("could not subscribe to subscription %s: %s", name, err)
+		return nil, err
 	}
 
 	return s.out, nil
@@ -250,42 +225,32 @@ func (conn *Connection) ChanQueueSubscribe(name string, subject string, group st
 // QueueSubscribe is a lot like ChanQueueSubscribe but you provide it the queue to dump messages in,
 // it also takes a context and will unsubscribe when the context is canceled
 func (conn *Connection) QueueSubscribe(ctx context.Context, name string, subject string, group string, output chan inter.ConnectorMessage) error {
-	var err error
-
 	s := &channelSubscription{
 		in:   make(chan *nats.Msg, cap(output)),
 		out:  output,
 		quit: make(chan any, 1),
 	}
 
-	conn.subMu.Lock()
-	conn.chanSubscriptions[name] = s
-	conn.subMu.Unlock()
-
-	copier := func(ctx context.Context, s *channelSubscription) {
-		for {
-			select {
-			case m := <-s.in:
-				s.out <- &ConnectorMessage{data: m.Data, reply: m.Reply, subject: m.Subject, msg: m}
-			case <-ctx.Done():
-				conn.Unsubscribe(name)
-				return
-			case <-s.quit:
-				close(s.in)
-				return
-			}
-		}
-	}
+	return conn.startSubscription(ctx, name, subject, group, s)
+}
 
-	go copier(ctx, s)
+func (conn *Connection) startSubscription(ctx context.Context, name string, subject string, group string, s *channelSubscription) error {
+	var err error
 
 	conn.log.Debugf("Subscribing to %s in group '%s' on server %s", subject, group, conn.ConnectedServer())
 
+	conn.subMu.Lock()
 	s.subscription, err = conn.nats.ChanQueueSubscribe(subject, group, s.in)
+	if err == nil {
+		conn.chanSubscriptions[name] = append(conn.chanSubscriptions[name], s)
+	}
+	conn.subMu.Unlock()
 	if err != nil {
 		return fmt.Errorf("could not subscribe to subscription %s: %s", name, err)
 	}
 
+	go conn.copySubscription(ctx, name, s)
+
 	err = conn.nats.Flush()
 	if err != nil {
 		return fmt.Errorf("could not subscribe to subscription %s: %s", name, err)
@@ -294,30 +259,78 @@ func (conn *Connection) QueueSubscribe(ctx context.Context, name string, subject
 	return nil
 }
 
+// copies received messages to the reader, that might have stopped reading, until the subscription ends
+func (conn *Connection) copySubscription(ctx context.Context, name string, s *channelSubscription) {
+	for {
+		select {
+		case m := <-s.in:
+			if ctx.Err() != nil {
+				continue
+			}
+
+			select {
+			case s.out <- &ConnectorMessage{data: m.Data, reply: m.Reply, subject: m.Subject, msg: m}:
+			case <-ctx.Done():
+			case <-s.quit:
+				return
+			}
+		case <-ctx.Done():
+			// only this one, others might have the same name
+			err := conn.unsubscribe(name, s)
+			if err != nil {
+				conn.log.Warnf("Could not unsubscribe: %s", err)
+			}
+			return
+		case <-s.quit:
+			return
+		}
+	}
+}
+
+// Unsubscribe ends all subscriptions with a specific name
 func (conn *Connection) Unsubscribe(name string) error {
 	conn.subMu.Lock()
-	defer conn.subMu.Unlock()
+	subs := append([]*channelSubscription{}, conn.chanSubscriptions[name]...)
+	conn.subMu.Unlock()
 
-	if sub, ok := conn.chanSubscriptions[name]; ok {
-		if sub.subscription != nil {
-			conn.log.Debugf("Unsubscribing from %v", sub.subscription.Subject)
-
-			err := sub.subscription.Unsubscribe()
-
-			// a number of errors basically mean the subscription is either
-			// not there in reality, invalid or the connection is closed etc
-			// so we treat all those as ok
-			switch {
-			case errors.Is(err, nats.ErrBadSubscription):
-			case errors.Is(err, nats.ErrConnectionDraining):
-			case errors.Is(err, nats.ErrConnectionClosed):
-			case err != nil:
-				return fmt.Errorf("could not unsubscribe from %s: %s", name, err)
-			}
+	for _, sub := range subs {
+		err := conn.unsubscribe(name, sub)
+		if err != nil {
+			return err
 		}
+	}
+
+	return nil
+}
+
+func (conn *Connection) unsubscribe(name string, sub *channelSubscription) error {
+	conn.subMu.Lock()
+	defer conn.subMu.Unlock()
+
+	idx := slices.Index(conn.chanSubscriptions[name], sub)
+	if idx == -1 {
+		return nil
+	}
+
+	conn.log.Debugf("Unsubscribing from %v", sub.subscription.Subject)
+
+	err := sub.subscription.Unsubscribe()
+
+	// a number of errors basically mean the subscription is either
+	// not there in reality, invalid or the connection is closed etc
+	// so we treat all those as ok
+	switch {
+	case errors.Is(err, nats.ErrBadSubscription):
+	case errors.Is(err, nats.ErrConnectionDraining):
+	case errors.Is(err, nats.ErrConnectionClosed):
+	case err != nil:
+		return fmt.Errorf("could not unsubscribe from %s: %s", name, err)
+	}
 
-		sub.quit <- true
+	sub.quit <- true
 
+	conn.chanSubscriptions[name] = slices.Delete(conn.chanSubscriptions[name], idx, idx+1)
+	if len(conn.chanSubscriptions[name]) == 0 {
 		delete(conn.chanSubscriptions, name)
 	}
 
-- 
2.43.0


From 502433dbccb5105123a2cb0bc8fdb25c3698d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:08 +0000
Subject: [PATCH 124/126] fix: support servers with IPv6 addresses

---
 srvcache/server.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/srvcache/server.go b/srvcache/server.go
index adfaff4..2c42897 100644
--- a/srvcache/server.go
+++ b/srvcache/server.go
@@ -6,7 +6,9 @@ package srvcache
 
 import (
 	"fmt"
+	"net"
 	"net/url"
+	"strconv"
 )
 
 // BasicServer is a representation of a network server host and port, implements Server
@@ -36,16 +38,16 @@ func (s *BasicServer) SetScheme(scheme string) { s.scheme = scheme }
 
 // HostPort is a string in hostname:port format
 func (s *BasicServer) HostPort() string {
-	return fmt.Sprintf("%s:%d", s.host, s.port)
+	return net.JoinHostPort(s.host, strconv.Itoa(int(s.port)))
 }
 
 // URL creates a correct url from the server if scheme is known
 func (s *BasicServer) URL() (u *url.URL, err error) {
 	if s.Scheme() == "" {
-		return u, fmt.Errorf("server %s:%d has no scheme, cannot make a URL", s.host, s.port)
+		return u, fmt.Errorf("server %s has no scheme, cannot make a URL", s.HostPort())
 	}
 
-	ustring := fmt.Sprintf("%s://%s:%d", s.scheme, s.host, s.port)
+	ustring := fmt.Sprintf("%s://%s", s.scheme, s.HostPort())
 
 	u, err = url.Parse(ustring)
 	if err != nil {
@@ -58,8 +60,8 @@ func (s *BasicServer) URL() (u *url.URL, err error) {
 // String is a string representation of the server in url format
 func (s *BasicServer) String() string {
 	if s.scheme == "" {
-		return fmt.Sprintf("%s:%d", s.host, s.port)
+		return s.HostPort()
 	}
 
-	return fmt.Sprintf("%s://%s:%d", s.scheme, s.host, s.port)
+	return fmt.Sprintf("%s://%s", s.scheme, s.HostPort())
 }
-- 
2.43.0


From cb4e626f6f2006d5b90275c5fe46372e399dc5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:08 +0000
Subject: [PATCH 125/126] fix: notify about publishing federated direct
 requests

---
 choria/connection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/choria/connection.go b/choria/connection.go
index 1eeee98..4cab248 100644
--- a/choria/connection.go
+++ b/choria/connection.go
@@ -416,6 +416,8 @@ func (conn *Connection) publishFederatedDirect(msg inter.Message, transport prot
 
 			conn.log.Debugf("Sending a federated direct message to NATS target '%s' for message %s with type %s", target, msg.RequestID(), msg.Type())
 
+			msg.NotifyPublish()
+
 			err = conn.PublishRaw(target, j)
 			if err != nil {
 				return
-- 
2.43.0


From 24a745e676abb03db57e5b27bc674dddfeeb3300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:57 +0000
Subject: [PATCH 126/126] fix: do not connect to localhost when no servers are
 known

---
 choria/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/choria/connection.go b/choria/connection.go
index 4cab248..8d43670 100644
--- a/choria/connection.go
+++ b/choria/connection.go
@@ -791,6 +791,10 @@ func (conn *Connection) Connect(ctx context.Context) (err error) {
 		if err != nil {
 			return fmt.Errorf("could not determine servers to connect to: %s", err)
 		}
+		if servers.Count() == 0 && !conn.ipc {
+			// the network library would attempt localhost
+			return fmt.Errorf("could not determine servers to connect to: no servers found")
+		}
 		urls := strings.Join(servers.Strings(), ", ")
 		conn.log.Infof("Attempting to connect to: %s", urls)
 		conn.nats, err = nats.Connect(urls, options...)
-- 
2.43.0

