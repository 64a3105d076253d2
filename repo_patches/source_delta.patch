From d09089bef5c6e481dac34796d32764ef9ec642e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 01/12] fix: treat rusage Usec as microseconds in CPU time
 metrics

---
 go/tricorder/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorder/setup.go b/go/tricorder/setup.go
index b0a4b59..ea14d30 100644
--- a/go/tricorder/setup.go
+++ b/go/tricorder/setup.go
@@ -15,7 +15,7 @@ func getProgramArgs() string {
 }
 
 func timeValToDuration(val *wrapper.Timeval) time.Duration {
-	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Nanosecond
+	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Microsecond
 }
 
 func initDefaultMetrics() {
-- 
2.43.0


From e779584a0846d2723170391f4db900f613c13898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 02/12] fix: copy Isrss in wrapper.Getrusage

---
 go/tricorder/wrapper/syscall_darwin.go | 1 +
 go/tricorder/wrapper/syscall_linux.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/go/tricorder/wrapper/syscall_darwin.go b/go/tricorder/wrapper/syscall_darwin.go
index 2eca0b9..831cd56 100644
--- a/go/tricorder/wrapper/syscall_darwin.go
+++ b/go/tricorder/wrapper/syscall_darwin.go
@@ -40,6 +40,7 @@ func Getrusage(who int, rusage *Rusage) error {
 	rusage.Maxrss = int64(syscallRusage.Maxrss)
 	rusage.Ixrss = int64(syscallRusage.Ixrss)
 	rusage.Idrss = int64(syscallRusage.Idrss)
+	rusage.Isrss = int64(syscallRusage.Isrss)
 	rusage.Minflt = int64(syscallRusage.Minflt)
 	rusage.Majflt = int64(syscallRusage.Majflt)
 	rusage.Nswap = int64(syscallRusage.Nswap)
diff --git a/go/tricorder/wrapper/syscall_linux.go b/go/tricorder/wrapper/syscall_linux.go
index 500b0e6..b5ffd59 100644
--- a/go/tricorder/wrapper/syscall_linux.go
+++ b/go/tricorder/wrapper/syscall_linux.go
@@ -40,6 +40,7 @@ func Getrusage(who int, rusage *Rusage) error {
 	rusage.Maxrss = int64(syscallRusage.Maxrss) << 10
 	rusage.Ixrss = int64(syscallRusage.Ixrss) << 10
 	rusage.Idrss = int64(syscallRusage.Idrss) << 10
+	rusage.Isrss = int64(syscallRusage.Isrss) << 10
 	rusage.Minflt = int64(syscallRusage.Minflt)
 	rusage.Majflt = int64(syscallRusage.Majflt)
 	rusage.Nswap = int64(syscallRusage.Nswap)
-- 
2.43.0


From 49177f19b30d2915db04804f6cec800f9fb18871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 03/12] fix: hold the group while emitting a single metric as
 text

---
 go/tricorder/html.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index 6849d9d..e68e876 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -267,7 +267,9 @@ func textEmitDirectoryOrMetric(
 	if m == nil {
 		return d.GetAllMetrics(&textCollector{W: w}, nil)
 	}
-	return textEmitMetric(m, nil, w)
+	s := newSession()
+	defer s.Close()
+	return textEmitMetric(m, s, w)
 }
 
 func setSecurityHeaders(w http.ResponseWriter) {
-- 
2.43.0


From 577f415cc7245555dbc3f8a4d66998170430717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 04/12] fix: report generation and IsNotCumulative of empty
 distributions

---
 go/tricorder/metric.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 38739b3..ff71684 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -572,9 +572,11 @@ func (d *distribution) Snapshot() *snapshot {
 	}
 	if d.count == 0 {
 		return &snapshot{
-			Count:     d.count,
-			Breakdown: bdn,
-			TimeStamp: d.timeStamp,
+			Count:           d.count,
+			Generation:      d.generation,
+			IsNotCumulative: d.isNotCumulative,
+			Breakdown:       bdn,
+			TimeStamp:       d.timeStamp,
 		}
 	}
 	return &snapshot{
-- 
2.43.0


From f80040816895d35c00a9605f5b581bd6a58f7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 05/12] fix: round negative durations correctly in
 duration.FromFloat

---
 go/tricorder/duration/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/duration/api.go b/go/tricorder/duration/api.go
index 4b65b73..2671d13 100644
--- a/go/tricorder/duration/api.go
+++ b/go/tricorder/duration/api.go
@@ -3,6 +3,7 @@ package duration
 
 import (
 	"github.com/Symantec/tricorder/go/tricorder/units"
+	"math"
 	"time"
 )
 
@@ -95,5 +96,5 @@ func ToFloat(d time.Duration) (seconds float64) {
 
 // FromFloat converts a value in seconds to a duration
 func FromFloat(seconds float64) time.Duration {
-	return time.Duration(seconds*float64(time.Second) + 0.5)
+	return time.Duration(math.Round(seconds * float64(time.Second)))
 }
-- 
2.43.0


From 20d7b2b36499c292414dc54f155ecfb3c08e962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 06/12] fix: describe /proc/cpu/sys as system CPU time

---
 go/tricorder/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorder/setup.go b/go/tricorder/setup.go
index ea14d30..ec5536b 100644
--- a/go/tricorder/setup.go
+++ b/go/tricorder/setup.go
@@ -62,7 +62,7 @@ func initDefaultMetrics() {
 		&sysTime,
 		resourceUsageGroup,
 		units.Second,
-		"User CPU time used")
+		"System CPU time used")
 	RegisterMetricInGroup(
 		"/proc/go/num-goroutines",
 		&numGoroutines,
-- 
2.43.0


From b9852523fedba031f569b94d38e52ec9160c8698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 07/12] fix: make tricorderclient print to standard output

---
 go/tricorderclient/tricorderclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorderclient/tricorderclient.go b/go/tricorderclient/tricorderclient.go
index 76ef28f..55f033f 100644
--- a/go/tricorderclient/tricorderclient.go
+++ b/go/tricorderclient/tricorderclient.go
@@ -19,7 +19,7 @@ func printAsJson(desc string, value interface{}) {
 		log.Fatal("Marshalling:", err)
 	}
 	json.Indent(&buffer, content, "", "\t")
-	buffer.WriteTo(os.Stdin)
+	buffer.WriteTo(os.Stdout)
 	fmt.Println()
 }
 
-- 
2.43.0


From f0735d011c253760852f123104c7f2d34237d062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 08/12] fix: decode each RPC reply of tricorderclient into a
 fresh variable

---
 go/tricorderclient/tricorderclient.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/go/tricorderclient/tricorderclient.go b/go/tricorderclient/tricorderclient.go
index 55f033f..5855e04 100644
--- a/go/tricorderclient/tricorderclient.go
+++ b/go/tricorderclient/tricorderclient.go
@@ -36,11 +36,14 @@ func main() {
 	}
 	printAsJson("All metrics", metrics)
 
-	err = client.Call("MetricsServer.ListMetrics", "/aaa/bbb", &metrics)
+	// gob leaves fields that are zero in the reply as they are, so each call
+	// needs its own reply variable.
+	var dirMetrics messages.MetricList
+	err = client.Call("MetricsServer.ListMetrics", "/aaa/bbb", &dirMetrics)
 	if err != nil {
 		log.Fatal("Calling:", err)
 	}
-	printAsJson("aaa/bbb metrics", metrics)
+	printAsJson("aaa/bbb metrics", dirMetrics)
 
 	var single messages.Metric
 	err = client.Call("MetricsServer.GetMetric", "/proc/foo/bar/baz", &single)
@@ -49,18 +52,20 @@ func main() {
 	}
 	printAsJson("/proc/foo/bar/baz metric", single)
 
-	err = client.Call("MetricsServer.GetMetric", "/proc/foo/ddd", &single)
+	var missing messages.Metric
+	err = client.Call("MetricsServer.GetMetric", "/proc/foo/ddd", &missing)
 	if err != nil {
 		log.Println("Got error for /proc/foo/ddd:", err)
 	} else {
-		printAsJson("/proc/foo/ddd metric", single)
+		printAsJson("/proc/foo/ddd metric", missing)
 	}
 
-	err = client.Call("MetricsServer.GetMetric", "/list/squares", &single)
+	var squares messages.Metric
+	err = client.Call("MetricsServer.GetMetric", "/list/squares", &squares)
 	if err != nil {
 		log.Println("Got error for /list/squares:", err)
 	} else {
-		printAsJson("/list/squares metric", single)
+		printAsJson("/list/squares metric", squares)
 	}
 
 	time.Sleep(5 * time.Second)
-- 
2.43.0


From c3c3c0ac7295ad8d00076557c5214d9c123d6f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 09/12] fix: skip metrics that JSON cannot represent when
 listing metrics

---
 go/tricorder/json.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/json.go b/go/tricorder/json.go
index 1a5ae16..7828683 100644
--- a/go/tricorder/json.go
+++ b/go/tricorder/json.go
@@ -20,7 +20,14 @@ func jsonAsMetric(m *metric, s *session) *messages.Metric {
 type jsonMetricsCollector messages.MetricList
 
 func (c *jsonMetricsCollector) Collect(m *metric, s *session) (err error) {
-	*c = append(*c, jsonAsMetric(m, s))
+	jsonMetric := jsonAsMetric(m, s)
+	// Skip metrics that JSON cannot represent such as distributions or lists
+	// containing NaN or Inf. Otherwise, one of them would fail the request
+	// for all of the others.
+	if _, err := json.Marshal(jsonMetric); err != nil {
+		return nil
+	}
+	*c = append(*c, jsonMetric)
 	return nil
 }
 
-- 
2.43.0


From 55710165b20aa4493b9db734c713cab0791dc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:03 +0000
Subject: [PATCH 10/12] fix: report named types as the Go type of their kind

---
 go/tricorder/metric.go | 62 ++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index ff71684..6c10323 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -608,30 +608,14 @@ func copySlice(value reflect.Value) reflect.Value {
 	return result
 }
 
-// Converts []int or []uint slice to a slice having element type t.
-// If value is an []int, t has to be types.Int32 or types.Int64.
-// If value is an []uint, t has to be types.Uint32 or types.Uint64.
-func convertFromIntOrUintSlice(
-	value reflect.Value, t types.Type) reflect.Value {
-	var newType reflect.Type
-	switch t {
-	case types.Int32:
-		var unused []int32
-		newType = reflect.TypeOf(unused)
-	case types.Int64:
-		var unused []int64
-		newType = reflect.TypeOf(unused)
-	case types.Uint32:
-		var unused []uint32
-		newType = reflect.TypeOf(unused)
-	case types.Uint64:
-		var unused []uint64
-		newType = reflect.TypeOf(unused)
-	default:
-		panic("t is not compatible with int or uint")
-	}
+// Converts slice such as []int or []Color to sliceType, the slice type having
+// element type t e.g []int64 or []string.
+func convertSlice(
+	value reflect.Value,
+	t types.Type,
+	sliceType reflect.Type) reflect.Value {
 	length := value.Len()
-	defensiveCopy := reflect.MakeSlice(newType, length, length)
+	defensiveCopy := reflect.MakeSlice(sliceType, length, length)
 	for i := 0; i < length; i++ {
 		defensiveCopy.Index(i).Set(
 			reflect.ValueOf(
@@ -646,7 +630,9 @@ func convertFromIntOrUintSlice(
 // Returns aSlice as a value and its type. If sliceIsMutable is true,
 // always makes a defensive copy of aSlice. If sliceIsMutable is false,
 // may or may not make a defensive copy of aSlice. If aSlice is an []int
-// or []uint, returned value will be size specific, e.g []int64.
+// or []uint, returned value will be size specific, e.g []int64. If aSlice
+// involves named types, e.g []Color, returned value is the corresponding
+// slice of an unnamed type, e.g []string.
 func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	value reflect.Value, t types.Type) {
 	value = reflect.ValueOf(aSlice)
@@ -658,9 +644,9 @@ func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	if isPtr {
 		panic("Lists cannot contain slices of pointrs.")
 	}
-	elemKind := elemType.Kind()
-	if elemKind == reflect.Int || elemKind == reflect.Uint {
-		value = convertFromIntOrUintSlice(value, t)
+	sliceType := reflect.TypeOf(t.NilSlice())
+	if value.Type() != sliceType {
+		value = convertSlice(value, t, sliceType)
 	} else if sliceIsMutable {
 		value = copySlice(value)
 	}
@@ -1065,12 +1051,24 @@ func valueToInterface(
 	// If we were to just call v.evaluate(s).Interface() we would return
 	// that plain int or uint instead of a sized int or uint and violate
 	// the contract of the API which specifies that the value is always
-	// a sized int or uint.
+	// a sized int or uint. Likewise, the remaining cases are necessary in
+	// case client passed a pointer to a named type such as
+	// type Color string. Named types are not registered with gob.
 	switch {
+	case t == types.Bool && !isValueAPointer:
+		return value.Bool()
+	case t == types.Int8 && !isValueAPointer:
+		return int8(value.Int())
+	case t == types.Int16 && !isValueAPointer:
+		return int16(value.Int())
 	case t == types.Int32 && !isValueAPointer:
 		return int32(value.Int())
 	case t == types.Int64 && !isValueAPointer:
 		return int64(value.Int())
+	case t == types.Uint8 && !isValueAPointer:
+		return uint8(value.Uint())
+	case t == types.Uint16 && !isValueAPointer:
+		return uint16(value.Uint())
 	case t == types.Uint32 && !isValueAPointer:
 		return uint32(value.Uint())
 	case t == types.Uint64 && !isValueAPointer:
@@ -1079,8 +1077,12 @@ func valueToInterface(
 		return valueToTime(value, isValueAPointer)
 	case t == types.GoDuration:
 		return valueToGoDuration(value)
-	case !isValueAPointer:
-		return value.Interface()
+	case t == types.Float32 && !isValueAPointer:
+		return float32(value.Float())
+	case t == types.Float64 && !isValueAPointer:
+		return value.Float()
+	case t == types.String && !isValueAPointer:
+		return value.String()
 	default:
 		panic(panicIncompatibleTypes)
 	}
-- 
2.43.0


From 612b1d8fb7d24a08a6931e53ad0788d1ef91e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:19 +0000
Subject: [PATCH 11/12] fix: synchronise access to the units of flags

---
 go/tricorder/metric.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 6c10323..4f69b3b 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -65,7 +65,8 @@ var (
 )
 
 var (
-	flagUnits = make(map[string]units.Unit)
+	flagUnitsLock sync.RWMutex // Protects flagUnits
+	flagUnits     = make(map[string]units.Unit)
 )
 
 // session represents one request to retrieve various metrics.
@@ -1782,9 +1783,18 @@ func registerFlags() {
 }
 
 func setFlagUnit(name string, unit units.Unit) {
+	flagUnitsLock.Lock()
+	defer flagUnitsLock.Unlock()
 	flagUnits[name] = unit
 }
 
+func getFlagUnit(name string) (unit units.Unit, ok bool) {
+	flagUnitsLock.RLock()
+	defer flagUnitsLock.RUnlock()
+	unit, ok = flagUnits[name]
+	return
+}
+
 func defaultUnit(val interface{}) units.Unit {
 	switch val.(type) {
 	case time.Duration:
@@ -1795,7 +1805,7 @@ func defaultUnit(val interface{}) units.Unit {
 }
 
 func flagUnit(f *flag.Flag) units.Unit {
-	if unit, ok := flagUnits[f.Name]; ok {
+	if unit, ok := getFlagUnit(f.Name); ok {
 		return unit
 	}
 	return defaultUnit(toFlagGetter(f.Value).Get())
-- 
2.43.0


From 7cccf1a111f065c99d772c0c53bc3d08f7b071e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:28 +0000
Subject: [PATCH 12/12] fix: refuse callbacks that need arguments

RegisterMetric accepted a function with parameters, and every report that
reached the metric then panicked calling it without arguments.
---
 go/tricorder/metric.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 4f69b3b..ec54071 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -872,6 +872,10 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 		if funcArgCount != 1 {
 			panic(panicBadFunctionReturnTypes)
 		}
+		// Our functions must be callable with no arguments
+		if t.NumIn() > 1 || (t.NumIn() == 1 && !t.IsVariadic()) {
+			return nil, ErrWrongType
+		}
 		valType, isValAPointer, ok := getPrimitiveType(t.Out(0))
 		if !ok {
 			return nil, ErrWrongType
-- 
2.43.0

