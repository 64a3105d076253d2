T = "tricorder/metric.go"
H = "tricorder/html.go"
API = "tricorder/api.go"
HS = "healthserver/impl.go"
SEEDS = []
def seed(id, prop, needs, breaks, edits, test, **k):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, test=test, **k))

seed("c07-add-panic-lock", "C07", "a value of a refused type added to a distribution, recovered by the client, then any other use of the distribution",
  "AddWithTs converts the value under the lock but releases it without defer, so a refused value leaves the lock held for ever",
  [(T, '''	d.lock.Lock()
	defer d.lock.Unlock()
	d.add(d.valueToFloat(value), ts)
''', '''	d.lock.Lock()
	d.add(d.valueToFloat(value), ts)
	d.lock.Unlock()
''')], '''
package tricorder

import (
	"github.com/Symantec/tricorder/go/tricorder/units"
	"testing"
	"time"
)

func TestSeeded(t *testing.T) {
	d := PowersOfTwo.NewNonCumulativeDistribution()
	if err := RegisterMetric("/seeded/c07", d, units.None, "x"); err != nil {
		t.Fatal(err)
	}
	func() {
		defer func() {
			if recover() == nil {
				t.Error("expected panic")
			}
		}()
		d.Add("not a number")
	}()
	done := make(chan bool)
	go func() {
		d.Add(3.0)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("distribution is locked for ever")
	}
}
''')

seed("c06-list-torn", "C06", "a list changed while another goroutine reads it",
  "ChangeWithTimeStamp stores the time stamp after it released the lock",
  [(T, '''	l.lock.Lock()
	defer l.lock.Unlock()
	l.aSlice = value
	l.timeStamp = ts
''', '''	l.lock.Lock()
	l.aSlice = value
	l.lock.Unlock()
	l.timeStamp = ts
''')], '''
package tricorder

import (
	"testing"
	"time"
)

func TestSeeded(t *testing.T) {
	base := time.Now()
	l := newListWithTimeStamp([]int64{0}, ImmutableSlice, base)
	stop := make(chan bool)
	go func() {
		for i := int64(1); ; i++ {
			select {
			case <-stop:
				return
			default:
				l.ChangeWithTimeStamp([]int64{i}, ImmutableSlice, base.Add(time.Duration(i)))
			}
		}
	}()
	defer close(stop)
	end := time.Now().Add(5 * time.Second)
	for time.Now().Before(end) {
		v, ts := l.AsSlice()
		if got := int64(ts.Sub(base)); got != v.([]int64)[0] {
			t.Fatalf("content of change %d reported with the time of change %d", v.([]int64)[0], got)
		}
	}
}
''')

seed("c01-eager-register", "C01", "an update function registered while a request is using the group, followed by another overlapping request",
  "registering an update function while the group is in use runs it at once, changing values and time under the request that is reading them",
  [(T, '''	r.updateFunc = newFunc
	return true
''', '''	r.updateFunc = newFunc
	if r.lockCount > 0 {
		// Group is in use, bring it up to date with its new function.
		r.updateTime = newFunc()
	}
	return true
''')], '''
package tricorder

import (
	"testing"
	"time"
)

func TestSeeded(t *testing.T) {
	n := 0
	g := NewGroup()
	r := (*region)(g)
	a := r.RLock()
	g.RegisterUpdateFunc(func() time.Time { n++; return time.Unix(int64(n), 0) })
	b := r.RLock()
	if n != 0 || !a.Equal(b) {
		t.Fatalf("update function ran %d times while the group was in use", n)
	}
	r.RUnlock()
	r.RUnlock()
	if c := r.RLock(); n != 1 || !c.Equal(time.Unix(1, 0)) {
		t.Fatalf("new update function not in force")
	}
}
''')

MM = "tricorder/messages/metric.go"
DU = "tricorder/duration/duration.go"
HEAD = "package tricorder\n\n"

seed("c03-panic-leak", "C03", "a listing of a single metric whose callback panics, recovered by the caller, then another listing",
  "the session of a single-metric listing is closed without defer, so a panicking callback leaves its group entered for ever and its update function never runs again",
  [(T, '''			s = newSession()
			defer s.Close()
		}
		return collect(m, s, collector)
''', '''			s = newSession()
			err := collect(m, s, collector)
			s.Close()
			return err
		}
		return collect(m, s, collector)
''')], HEAD + '''
import (
	"github.com/Symantec/tricorder/go/tricorder/units"
	"testing"
	"time"
)

func TestSeeded(t *testing.T) {
	updates := 0
	fail := true
	g := NewGroup()
	g.RegisterUpdateFunc(func() time.Time { updates++; return time.Now() })
	err := g.RegisterMetric("/seeded/c03/m", func() int64 {
		if fail {
			panic("client callback")
		}
		return 1
	}, units.None, "x")
	if err != nil {
		t.Fatal(err)
	}
	func() {
		defer func() { recover() }()
		ReadMyMetrics("/seeded/c03/m")
	}()
	fail = false
	before := updates
	ReadMyMetrics("/seeded/c03/m")
	if updates != before+1 {
		t.Fatalf("update function ran %d times instead of once", updates-before)
	}
}
''')

seed("c09-stale-extremes", "C09", "a distribution that is emptied by removals and then added to",
  "the extremes are started afresh only for the first value ever, not for the first value after the distribution became empty",
  [(T, '''	if d.count == 0 {
		d.min = value
''', '''	if d.generation == 0 {
		d.min = value
''')], HEAD + '''
import (
	"github.com/Symantec/tricorder/go/tricorder/units"
	"testing"
)

func TestSeeded(t *testing.T) {
	nc := PowersOfTwo.NewNonCumulativeDistribution()
	if err := RegisterMetric("/seeded/c09", nc, units.None, "x"); err != nil {
		t.Fatal(err)
	}
	nc.Add(100.0)
	nc.Remove(100.0)
	nc.Add(5.0)
	s := (*distribution)(nc).Snapshot()
	if s.Min != 5.0 || s.Max != 5.0 {
		t.Fatalf("min %v max %v", s.Min, s.Max)
	}
}
''')

seed("c10-torn-snapshot", "C10", "a snapshot taken while another goroutine adds values",
  "the counts of the ranges are copied in a critical section of their own, before the one that reads count and sum",
  [(T, '''	d.lock.RLock()
	defer d.lock.RUnlock()
	for i := range bdn {
		bdn[i].Count = d.counts[i]
	}
''', '''	d.lock.RLock()
	for i := range bdn {
		bdn[i].Count = d.counts[i]
	}
	d.lock.RUnlock()
	d.lock.RLock()
	defer d.lock.RUnlock()
''')], HEAD + '''
import (
	"github.com/Symantec/tricorder/go/tricorder/units"
	"testing"
	"time"
)

func TestSeeded(t *testing.T) {
	nc := PowersOfTwo.NewNonCumulativeDistribution()
	if err := RegisterMetric("/seeded/c10", nc, units.None, "x"); err != nil {
		t.Fatal(err)
	}
	stop := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
					nc.Add(3.0)
				}
			}
		}()
	}
	defer close(stop)
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		s := (*distribution)(nc).Snapshot()
		var sum uint64
		for _, p := range s.Breakdown {
			sum += p.Count
		}
		if sum != s.Count {
			t.Fatalf("ranges hold %d values, count is %d", sum, s.Count)
		}
	}
}
''')

seed("c13-none-unit", "C13", "one distribution registered with units.None first and with another unit later",
  "a distribution registered without a unit does not keep that unit, so a later registration changes it",
  [(T, '''	if !d.unitSet {
		d.unitSet = true
''', '''	if !d.unitSet || d.unit == units.None {
		d.unitSet = true
''')], HEAD + '''
import (
	"github.com/Symantec/tricorder/go/tricorder/units"
	"testing"
)

func TestSeeded(t *testing.T) {
	nc := PowersOfTwo.NewNonCumulativeDistribution()
	if err := RegisterMetric("/seeded/c13/a", nc, units.None, "x"); err != nil {
		t.Fatal(err)
	}
	if err := RegisterMetric("/seeded/c13/b", nc, units.Second, "x"); err != ErrWrongUnit {
		t.Fatalf("registered with a second unit: %v", err)
	}
}
''')

seed("c16-same-size", "C16", "a list changed to a slice of another element type of the same size",
  "only the size of the element types is compared, so a list of int64 can become a list of uint64 that still says int64",
  [(T, '''	if subType != l.subType {
''', '''	if subType != l.subType && (subType.Bits() == 0 || subType.Bits() != l.subType.Bits()) {
''')], HEAD + '''
import "testing"

func TestSeeded(t *testing.T) {
	l := NewList([]int64{1, 2}, ImmutableSlice)
	defer func() {
		if recover() == nil {
			t.Fatal("the element type of a list changed")
		}
	}()
	l.Change([]uint64{7}, ImmutableSlice)
}
''')

seed("c17-replace-empty-dir", "C17", "a metric registered at the path of a directory that is still empty",
  "an empty directory is silently replaced by the metric, and metrics registered through its DirectorySpec afterwards are never seen",
  [(T, '''	if n != nil {
		return ErrPathInUse
	}
	newListEntry :=''', '''	if n != nil && (n.Directory == nil || len(n.Directory.List()) > 0) {
		return ErrPathInUse
	}
	newListEntry :=''')], HEAD + '''
import (
	"github.com/Symantec/tricorder/go/tricorder/units"
	"testing"
)

func TestSeeded(t *testing.T) {
	if _, err := RegisterDirectory("/seeded/c17/dir"); err != nil {
		t.Fatal(err)
	}
	var x int64
	if err := RegisterMetric("/seeded/c17/dir", &x, units.None, "x"); err != ErrPathInUse {
		t.Fatalf("metric registered over a directory: %v", err)
	}
}
''')

seed("c18-stale-unregister", "C18", "a directory that was unregistered by path and registered again, then the old DirectorySpec is unregistered",
  "a directory unregisters whatever directory is registered under its name now",
  [(T, '''	if d.contents[name] == child.enclosingListEntry {
''', '''	if n := d.contents[name]; n != nil && n.Directory != nil {
''')], HEAD + '''
import "testing"

func TestSeeded(t *testing.T) {
	old, err := RegisterDirectory("/seeded/c18/dir")
	if err != nil {
		t.Fatal(err)
	}
	UnregisterPath("/seeded/c18/dir")
	if _, err := RegisterDirectory("/seeded/c18/dir"); err != nil {
		t.Fatal(err)
	}
	old.UnregisterDirectory()
	if _, err := GetDirectory("/seeded/c18/dir"); err != nil {
		t.Fatal("the new directory is gone")
	}
}
''')

seed("c19-fold-case", "C19", "two metrics of one directory whose names differ in case",
  "directories are sorted without regard to case",
  [(T, '''	return b[i].Name < b[j].Name
''', '''	return strings.ToLower(b[i].Name) < strings.ToLower(b[j].Name)
''')], HEAD + '''
import (
	"github.com/Symantec/tricorder/go/tricorder/units"
	"testing"
)

func TestSeeded(t *testing.T) {
	var x int64
	RegisterMetric("/seeded/c19/alpha", &x, units.None, "x")
	RegisterMetric("/seeded/c19/Beta", &x, units.None, "x")
	l := ReadMyMetrics("/seeded/c19")
	if len(l) != 2 || l[0].Path != "/seeded/c19/Beta" {
		t.Fatalf("wrong order: %v %v", l[0].Path, l[1].Path)
	}
}
''')

seed("c23-list-unit", "C23", "a list of durations in milliseconds converted to JSON",
  "durations in lists are always written in seconds",
  [(MM, '''				jsonDurations[i] = durationAsString(
					durations[i], unit)
''', '''				jsonDurations[i] = durationAsString(
					durations[i], units.Second)
''')], '''
package messages

import (
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"testing"
	"time"
)

func TestSeeded(t *testing.T) {
	m := &Metric{Value: []time.Duration{1500 * time.Millisecond}, Kind: types.List, SubType: types.GoDuration, Unit: units.Millisecond}
	m.ConvertToJson()
	if s := m.Value.([]string)[0]; s != "1500.000000000" {
		t.Fatal(s)
	}
}
''', pkg="go/tricorder/messages")

seed("c24-half-converted", "C24", "a JSON metric with a good value and a time stamp that does not parse",
  "the value is converted before the time stamp is looked at, so an error leaves the metric half converted",
  [(MM, '''	var newTimeStamp interface{}
	switch i := m.TimeStamp.(type) {
''', '''	m.Value, m.Kind, m.SubType = v, k, s
	var newTimeStamp interface{}
	switch i := m.TimeStamp.(type) {
''')], '''
package messages

import (
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"testing"
)

func TestSeeded(t *testing.T) {
	m := &Metric{Value: "1.500000000", Kind: types.Duration, Unit: units.Second, TimeStamp: "yesterday"}
	if m.ConvertToGoRPC() == nil {
		t.Fatal("expected an error")
	}
	if m.Kind != types.Duration || m.Value != "1.500000000" {
		t.Fatalf("half converted: %v %v", m.Kind, m.Value)
	}
}
''', pkg="go/tricorder/messages")

seed("c28-path-echo", "C28", "a page request for a path that does not exist and holds markup",
  "the missing path is echoed into the HTML page as it is",
  [(H, '''		fmt.Fprintf(w, "Path does not exist.")
''', '''		fmt.Fprintf(w, "<html><body>Path %s does not exist.</body></html>", path)
''')], HEAD + '''
import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestSeeded(t *testing.T) {
	r := httptest.NewRequest("GET", "/metrics/seeded%3Cscript%3Ealert(1)%3C%2Fscript%3E", nil)
	w := httptest.NewRecorder()
	http.DefaultServeMux.ServeHTTP(w, r)
	if strings.Contains(w.Body.String(), "<script>") {
		t.Fatal(w.Body.String())
	}
}
''')

seed("c30-gzip-truncated", "C30", "a JSON request with compression whose handler panics or returns while the compressor still buffers",
  "the compressing writer is flushed but never closed, so compressed responses have no end",
  [("tricorder/http.go", '''	defer gz.Close()
''', '''	defer gz.Flush()
''')], HEAD + '''
import (
	"compress/gzip"
	"io"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestSeeded(t *testing.T) {
	r := httptest.NewRequest("GET", "/metricsapi/proc", nil)
	r.Header.Set("Accept-Encoding", "gzip")
	w := httptest.NewRecorder()
	http.DefaultServeMux.ServeHTTP(w, r)
	z, err := gzip.NewReader(w.Body)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := io.ReadAll(z); err != nil {
		t.Fatal(err)
	}
}
''')

seed("c35-dotdot", "C35", "a path with a component ..",
  "the parser resolves .. so that a literal component cannot be registered or found and different texts name one metric",
  [(T, '''		if strings.TrimSpace(parts[i]) == "" {
''', '''		if parts[i] == ".." && idx > 0 {
			idx--
			continue
		}
		if strings.TrimSpace(parts[i]) == "" {
''')], HEAD + '''
import (
	"github.com/Symantec/tricorder/go/tricorder/units"
	"testing"
)

func TestSeeded(t *testing.T) {
	var x int64
	if err := RegisterMetric("/seeded/c35/../m", &x, units.None, "x"); err != nil {
		t.Fatal(err)
	}
	if root.GetMetric("/seeded/m") != nil || root.GetMetric("/seeded/c35/../m") == nil {
		t.Fatal(".. is not treated literally")
	}
}
''')
