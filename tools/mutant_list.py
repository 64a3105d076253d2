T = "tricorder/metric.go"
H = "tricorder/html.go"
API = "tricorder/api.go"
HS = "healthserver/impl.go"
M = []
QUIET = set()
def bug(id, props, *edits): M.append((id, props, edits))
def same(id, props, *edits): M.append((id, props, edits)); QUIET.add(id)

# --- locks
bug("l-sum-nolock", "C06", (T, '''func (d *distribution) Sum() float64 {
	d.lock.Lock()
	defer d.lock.Unlock()
''', '''func (d *distribution) Sum() float64 {
'''))
bug("l-snapshot-late", "C06", (T, '''	d.lock.RLock()
	defer d.lock.RUnlock()
	for i := range bdn {
		bdn[i].Count = d.counts[i]
	}
''', '''	for i := range bdn {
		bdn[i].Count = d.counts[i]
	}
	d.lock.RLock()
	defer d.lock.RUnlock()
'''))
bug("l-setunit-rlock", "C06", (T, '''func (d *distribution) SetUnit(unit units.Unit) bool {
	d.lock.Lock()
	defer d.lock.Unlock()''', '''func (d *distribution) SetUnit(unit units.Unit) bool {
	d.lock.RLock()
	defer d.lock.RUnlock()'''))
bug("l-list-len", "C06", (T, '''	d.lock.RLock()
	defer d.lock.RUnlock()
	result := make([]*listEntry, len(d.contents))
''', '''	result := make([]*listEntry, len(d.contents))
	d.lock.RLock()
	defer d.lock.RUnlock()
'''))
bug("l-remove-check", "C06", (T, '''	d.lock.Lock()
	defer d.lock.Unlock()
	if d.contents[name] == child.enclosingListEntry {
		delete(d.contents, name)
	}''', '''	if d.contents[name] == child.enclosingListEntry {
		d.lock.Lock()
		defer d.lock.Unlock()
		delete(d.contents, name)
	}'''))
bug("l-list-ts", "C06", (T, '''	l.lock.Lock()
	defer l.lock.Unlock()
	l.aSlice = value
	l.timeStamp = ts
''', '''	l.lock.Lock()
	l.aSlice = value
	l.lock.Unlock()
	l.timeStamp = ts
'''))
bug("l-health", "C06", (HS, '''	mutex.Lock()
	status := readyStatus
	mutex.Unlock()
''', '''	status := readyStatus
'''))
bug("l-noDefer-add", "C07", (T, '''	d.lock.Lock()
	defer d.lock.Unlock()
	d.add(d.valueToFloat(value), ts)
''', '''	d.lock.Lock()
	d.add(d.valueToFloat(value), ts)
	d.lock.Unlock()
'''))
bug("l-callback-held", "C07", (T, '''	d.lock.RLock()
	defer d.lock.RUnlock()
	return d.contents[name]
}''', '''	d.lock.RLock()
	defer d.lock.RUnlock()
	n := d.contents[name]
	if n != nil && n.Metric != nil && n.Metric.isfunc {
		n.Metric.val.Call(nil)
	}
	return n
}'''))
bug("l-self", "C07", (T, '''	if d.contents[name] == child.enclosingListEntry {
		delete(d.contents, name)
	}''', '''	if d.getListEntry(name) == child.enclosingListEntry {
		delete(d.contents, name)
	}'''))
bug("l-parent-child", "C07", (T, '''	// The directory already exists
	if n.Directory != nil {
''', '''	// The directory already exists
	if n.Directory != nil {
		n.Directory.lock.RLock()
		defer n.Directory.lock.RUnlock()
'''))
same("l-q-explicit", "C06 C07 C17 C18", (T, '''	d.lock.RLock()
	defer d.lock.RUnlock()
	return d.contents[name]
}''', '''	d.lock.RLock()
	n := d.contents[name]
	d.lock.RUnlock()
	return n
}'''), (T, '''	d.lock.Lock()
	defer d.lock.Unlock()
	return d.total
''', '''	d.lock.RLock()
	result := d.total
	d.lock.RUnlock()
	return result
'''))
same("l-q-withlock", "C06 C07 C17 C18", (T, '''	d.lock.Lock()
	defer d.lock.Unlock()
	delete(d.contents, name)
}''', '''	d.withLock(func() {
		delete(d.contents, name)
	})
}

func (d *directory) withLock(f func()) {
	d.lock.Lock()
	defer d.lock.Unlock()
	f()
}'''))
same("l-q-nested", "C06 C07 C16", (T, '''	groupId   int
	subType   types.Type
	lock      sync.RWMutex
	aSlice    reflect.Value
	timeStamp time.Time
}''', '''	groupId int
	subType types.Type
	listState
}

type listState struct {
	lock      sync.RWMutex
	aSlice    reflect.Value
	timeStamp time.Time
}'''), (T, '''	return &listType{
		groupId:   <-idGenerator,
		subType:   subType,
		aSlice:    value,
		timeStamp: ts}
''', '''	result := &listType{
		groupId: <-idGenerator,
		subType: subType}
	result.aSlice = value
	result.timeStamp = ts
	return result
'''))

# --- health pages -----------------------------------------------------------
HS = "healthserver/impl.go"
HA = "healthserver/api.go"
bug("h-swap", "C31", (HS, '''	readyStatus = status
''', '''	readyStatus = status
	if status != "" {
		healthStatus = status
	}
'''))
bug("h-guard", "C31", (HA, '''	if status == "" || status == "OK" {
		panic("OK status not permitted")
	}
	setReady(status)''', '''	if status == "" {
		panic("OK status not permitted")
	}
	setReady(status)'''))
bug("h-effect", "C31", (HA, '''	if status == "" || status == "OK" {
		panic("OK status not permitted")
	}
	setReady(status)''', '''	setReady(status)
	if status == "" || status == "OK" {
		panic("OK status not permitted")
	}'''))
bug("h-sticky", "C31", (HS, '''	healthStatus = status
''', '''	if status != "" && healthStatus != "" {
		return
	}
	healthStatus = status
'''))
bug("h-code", "C31", (HS, '''http.StatusServiceUnavailable)''', '''http.StatusInternalServerError)'''))
bug("h-start", "C31", (HS, '''	readyStatus  string = "not ready"''', '''	readyStatus  string'''))
same("h-q-struct", "C31 C06 C07", (HS, '''	mutex        sync.Mutex // Protect everything below.
	healthStatus string
	readyStatus  string = "not ready"
)
''', '''	health = &page{}
	ready  = &page{status: "not ready"}
)

type page struct {
	mutex  sync.Mutex
	status string
}

func (p *page) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	commonHandler(w, p.get())
}

func (p *page) get() string {
	p.mutex.Lock()
	defer p.mutex.Unlock()
	return p.status
}

func (p *page) set(status string) {
	p.mutex.Lock()
	p.status = status
	p.mutex.Unlock()
}
'''), (HS, '''	http.HandleFunc("/healthz", healthzHandler)
	http.HandleFunc("/readiness", readinessHandler)''', '''	http.Handle("/healthz", health)
	http.Handle("/readiness", ready)'''),
 (HS, '''func healthzHandler(w http.ResponseWriter, r *http.Request) {
	mutex.Lock()
	status := healthStatus
	mutex.Unlock()
	commonHandler(w, status)
}

func readinessHandler(w http.ResponseWriter, r *http.Request) {
	mutex.Lock()
	status := readyStatus
	mutex.Unlock()
	commonHandler(w, status)
}

func setHealth(status string) {
	mutex.Lock()
	defer mutex.Unlock()
	healthStatus = status
}

func setReady(status string) {
	mutex.Lock()
	defer mutex.Unlock()
	readyStatus = status
}''', '''func setHealth(status string) {
	health.set(status)
}

func setReady(status string) {
	ready.set(status)
}'''))
same("h-q-map", "C31 C06 C07", (HS, '''	healthStatus string
	readyStatus  string = "not ready"
)
''', '''	statuses = map[string]string{"ready": "not ready"}
)

func getStatus(name string) string {
	mutex.Lock()
	defer mutex.Unlock()
	return statuses[name]
}
'''), (HS, '''	mutex.Lock()
	status := healthStatus
	mutex.Unlock()
	commonHandler(w, status)''', '''	commonHandler(w, getStatus("health"))'''),
 (HS, '''	mutex.Lock()
	status := readyStatus
	mutex.Unlock()
	commonHandler(w, status)''', '''	commonHandler(w, getStatus("ready"))'''),
 (HS, '''	healthStatus = status''', '''	statuses["health"] = status'''),
 (HS, '''	readyStatus = status''', '''	statuses["ready"] = status'''))
same("h-q-small", "C31 C06 C07", (HS, '''	if status == "" {
		w.Write(okSlice)
	} else {
		http.Error(w, status, http.StatusServiceUnavailable)
	}''', '''	if len(status) > 0 {
		http.Error(w, status, http.StatusServiceUnavailable)
		return
	}
	_, _ = w.Write(okSlice)'''), (HA, '''	if status == "" || status == "OK" {
		panic("OK status not permitted")
	}
	setReady(status)''', '''	checkStatus(status)
	setReady(status)'''), (HA, '''	if status == "" || status == "OK" {
		panic("OK status not permitted")
	}
	setHealth(status)''', '''	checkStatus(status)
	setHealth(status)'''), (HA, '''// SetReady will''', '''func checkStatus(status string) {
	switch status {
	case "", "OK":
		panic("OK status not permitted")
	}
}

// SetReady will'''))

# --- page framing -----------------------------------------------------------
HT = "tricorder/html.go"
JS = "tricorder/json.go"
HP = "tricorder/http.go"
bug("p-hdr-late", "C29", (HT, '''	setSecurityHeaders(w)
	w.Write(hasTricorderBody)''', '''	w.Write(hasTricorderBody)
	setSecurityHeaders(w)'''))
bug("p-hdr-missing-path", "C29", (HT, '''	setSecurityHeaders(w)
	r.ParseForm()
	path := r.URL.Path
	var err error
	if r.Form.Get("format") == "text" {
''', '''	r.ParseForm()
	path := r.URL.Path
	var err error
	if path != "" {
		setSecurityHeaders(w)
	}
	if r.Form.Get("format") == "text" {
'''))
bug("p-ct-late", "C29", (HT, '''		w.Header().Set("Content-Type", "text/plain")
		err = textEmitDirectoryOrMetric(path, w)''', '''		err = textEmitDirectoryOrMetric(path, w)
		w.Header().Set("Content-Type", "text/plain")'''))
bug("p-csp", "C29", (HT, "default-src 'self' ;style-src", "script-src 'self' 'unsafe-inline';default-src 'self' ;style-src"))
same("p-q-hdr", "C29", (HT, '''	w.Header().Set("X-Frame-Options", "DENY")
	w.Header().Set("X-XSS-Protection", "1")
	w.Header().Set("Content-Security-Policy",''', '''	h := w.Header()
	h.Set("X-XSS-Protection", "1")
	h.Set("X-Frame-Options", "DENY")
	h.Set("Content-Security-Policy",'''), (HT, '''	if r.Form.Get("format") == "text" {
		w.Header().Set("Content-Type", "text/plain")
		err = textEmitDirectoryOrMetric(path, w)
	} else {
		err = htmlEmitDirectoryOrMetric(path, w)
	}''', '''	emit := htmlEmitDirectoryOrMetric
	if wantsText(r) {
		w.Header().Set("Content-Type", "text/plain")
		emit = textEmitDirectoryOrMetric
	}
	err = emit(path, w)'''), (HT, '''func hasTricorderHandler(''', '''func wantsText(r *http.Request) bool {
	return r.Form.Get("format") == "text"
}

func hasTricorderHandler('''))
same("p-q-wrap", "C29 C30", (HT, '''	http.HandleFunc(hasTricorderUrl, hasTricorderHandler)''', '''	http.HandleFunc(hasTricorderUrl, secured(hasTricorderHandler))'''),
 (HT, '''	setSecurityHeaders(w)
	w.Write(hasTricorderBody)''', '''	w.Write(hasTricorderBody)'''), (HT, '''func hasTricorderHandler(''', '''func secured(f http.HandlerFunc) http.HandlerFunc {
	return func(w http.ResponseWriter, r *http.Request) {
		setSecurityHeaders(w)
		f(w, r)
	}
}

func hasTricorderHandler('''))
bug("j-404", "C30 C34", (JS, '''			httpError(w, http.StatusNotFound)
			return
''', '''			w.Write([]byte("null"))
			return
'''))
bug("j-gz-noclose", "C30", (HP, '''	defer gz.Close()
	gzr := &gzipResponseWriter{ResponseWriter: w, W: gz}
	h.H.ServeHTTP(gzr, r)''', '''	gzr := &gzipResponseWriter{ResponseWriter: w, W: gz}
	h.H.ServeHTTP(gzr, r)
	gz.Flush()'''))
bug("j-gz-always", "C30", (HP, '''	if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {''', '''	if enc := r.Header.Get("Accept-Encoding"); enc != "" && !strings.Contains(enc, "gzip") {'''))
bug("j-gz-bypass", "C30", (HP, '''	return w.W.Write(b)
}''', '''	if len(b) < 64 {
		return w.ResponseWriter.Write(b)
	}
	return w.W.Write(b)
}'''))
bug("j-hdr-late", "C30", (JS, '''	jsonSetUpHeaders(w.Header())
	path''', '''	path'''), (JS, '''	buffer.WriteTo(w)
}''', '''	buffer.WriteTo(w)
	jsonSetUpHeaders(w.Header())
}'''))
bug("j-hdr-404", "C30", (JS, '''	jsonSetUpHeaders(w.Header())
	path''', '''	path'''), (JS, '''	if err != nil {
		handleError(w, err)
		return
	}
	var buffer''', '''	jsonSetUpHeaders(w.Header())
	if err != nil {
		handleError(w, err)
		return
	}
	var buffer'''))
bug("j-status", "C30", (JS, '''			httpError(w, http.StatusNotFound)''', '''			httpError(w, http.StatusOK)'''))
same("j-q-enc", "C30", (JS, '''	var buffer bytes.Buffer
	json.Indent(&buffer, content, "", "\\t")
	buffer.WriteTo(w)''', '''	writeIndented(w, content)'''), (JS, '''func initJsonHandlers''', '''func writeIndented(w http.ResponseWriter, content []byte) {
	buffer := new(bytes.Buffer)
	json.Indent(buffer, content, "", "\\t")
	w.Write(buffer.Bytes())
}

func initJsonHandlers'''))
same("j-q-split", "C30 C34 C02 C03 C04", (JS, '''	var content []byte
	var err error
	if r.Form.Get("singleton") != "" {
		m := root.GetMetric(path)
		if m == nil {
			httpError(w, http.StatusNotFound)
			return
		}
		content, err = json.Marshal(jsonAsMetric(m, nil))
	} else {
		collector := make(jsonMetricsCollector, 0)
		root.GetAllMetricsByPath(path, &collector, nil)
		content, err = json.Marshal(collector)
	}
	if err != nil {''', '''	content, found, err := jsonContent(path, r.Form.Get("singleton") != "")
	if !found {
		httpError(w, http.StatusNotFound)
		return
	}
	if err != nil {'''), (JS, '''func initJsonHandlers''', '''func jsonContent(path string, singleton bool) (content []byte, found bool, err error) {
	if singleton {
		m := root.GetMetric(path)
		if m == nil {
			return nil, false, nil
		}
		content, err = json.Marshal(jsonAsMetric(m, nil))
		return content, true, err
	}
	collector := jsonMetricsCollector{}
	root.GetAllMetricsByPath(path, &collector, nil)
	content, err = json.Marshal(collector)
	return content, true, err
}

func initJsonHandlers'''))
same("j-q-gz", "C30", (HP, '''	if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
		h.H.ServeHTTP(w, r)
		return
	}
	w.Header().Set("Content-Encoding", "gzip")
	gz := gzip.NewWriter(w)
	defer gz.Close()
	gzr := &gzipResponseWriter{ResponseWriter: w, W: gz}
	h.H.ServeHTTP(gzr, r)''', '''	if acceptsGzip(r) {
		gz := gzip.NewWriter(w)
		defer gz.Close()
		w.Header().Set("Content-Encoding", "gzip")
		w = &gzipResponseWriter{ResponseWriter: w, W: gz}
	}
	h.H.ServeHTTP(w, r)'''), (HP, '''func initHttpFramework''', '''func acceptsGzip(r *http.Request) bool {
	accept := r.Header.Get("Accept-Encoding")
	return strings.Index(accept, "gzip") >= 0
}

func initHttpFramework'''))
bug("j-trunc", "C30", (JS, '''	json.Indent(&buffer, content, "", "\\t")''', '''	if len(content) > 1<<20 {
		content = content[:1<<20]
	}
	json.Indent(&buffer, content, "", "\\t")'''))

# --- ids --------------------------------------------------------------------
bug("i-skip", "C33", (T, '''			result <- id
			id++
''', '''			result <- id
			if id < 1<<20 {
				id++
			}
'''))
bug("i-two", "C33", (T, '''	return result
}

type rpcEncoding''', '''	go func() {
		for id := 1000; ; id++ {
			result <- id
		}
	}()
	return result
}

type rpcEncoding'''))
bug("i-copy", "C33", ("tricorder/api.go", '''	return (*NonCumulativeDistribution)(newDistribution(b, true))''', '''	result := newDistribution(b, true)
	if b.next == nil {
		b.next = result
	}
	result.groupId = b.next.groupId
	return (*NonCumulativeDistribution)(result)'''), ("tricorder/api.go", '''	pieces []*bucketPiece
}''', '''	pieces []*bucketPiece
	next   *distribution
}'''))
bug("i-len", "C33", (T, '''		groupId:   <-idGenerator,
		subType:''', '''		groupId:   value.Len(),
		subType:'''))
bug("i-wrap", "C33", (T, '''			result <- id
			id++
''', '''			result <- id
			id = (id + 1) % 65536
'''))
same("i-q-mutex", "C33 C06 C07 C01 C05", (T, '''	idGenerator   = newIdSequence()
)

func newIdSequence() chan int {
	result := make(chan int)
	go func() {
		id := 0
		for {
			result <- id
			id++
		}
	}()
	return result
}''', ''')

var (
	idLock sync.Mutex
	lastId int
)

func nextId() int {
	idLock.Lock()
	defer idLock.Unlock()
	id := lastId
	lastId++
	return id
}'''), (T, '''		id:                  <-idGenerator,''', '''		id:                  nextId(),'''), (T, '''		groupId:         <-idGenerator,''', '''		groupId:         nextId(),'''), (T, '''		groupId:   <-idGenerator,''', '''		groupId:   nextId(),'''))
same("i-q-helper", "C33 C06 C07 C01 C05", (T, '''	go func() {
		id := 0
		for {
			result <- id
			id++
		}
	}()
	return result
}''', '''	go generateIds(result)
	return result
}

func generateIds(ids chan<- int) {
	for id := 0; ; id++ {
		ids <- id
	}
}

func newId() int {
	return <-idGenerator
}'''), (T, '''		id:                  <-idGenerator,''', '''		id:                  newId(),'''), (T, '''		groupId:   <-idGenerator,''', '''		groupId:   newId(),'''))
same("i-q-atomic", "C33 C06", (T, '''	idGenerator   = newIdSequence()
)

func newIdSequence() chan int {
	result := make(chan int)
	go func() {
		id := 0
		for {
			result <- id
			id++
		}
	}()
	return result
}''', '''	lastId        int64
)

func nextId() int {
	return int(atomic.AddInt64(&lastId, 1) - 1)
}'''), (T, '''		id:                  <-idGenerator,''', '''		id:                  nextId(),'''), (T, '''		groupId:         <-idGenerator,''', '''		groupId:         nextId(),'''), (T, '''		groupId:   <-idGenerator,''', '''		groupId:   nextId(),'''), (T, '''	"sync"
''', '''	"sync"
	"sync/atomic"
'''))

# --- units of distributions
bug("u-refix", "C13", (T, '''	if unit == d.unit {
		// unit already set to what we want just return success
		return true
	}
''', '''	if unit == d.unit || d.generation == 0 {
		// unit already set to what we want just return success
		return true
	}
'''))
bug("u-overwrite", "C13", (T, '''	if !d.unitSet {
		d.unitSet = true
''', '''	if !d.unitSet || d.count == 0 {
		d.unitSet = true
'''))
bug("u-notset", "C13", (T, '''	if !d.unitSet {
		d.unitSet = true
''', '''	if !d.unitSet {
		d.unitSet = unit != units.None
'''))
bug("u-split", "C13", (T, '''	if !d.unitSet {
		d.unitSet = true
		d.unit = unit
''', '''	if !d.unitSet {
		d.unitSet = true
		d.lock.Unlock()
		d.lock.Lock()
		d.unit = unit
'''))
bug("u-ms", "C13", (T, "return float64(dur) / float64(time.Millisecond)", "return float64(dur / time.Millisecond)"))
bug("u-err", "C13", (T, "		return nil, ErrWrongUnit", "		return nil, ErrWrongType"))
bug("u-ignored", "C13", (T, '''	if someDist, ok := spec.(*NonCumulativeDistribution); ok {
		dist := (*distribution)(someDist)
		return newValueForDist(dist, unit)
''', '''	if someDist, ok := spec.(*NonCumulativeDistribution); ok {
		dist := (*distribution)(someDist)
		dist.SetUnit(unit)
		return &value{dist: dist, unit: unit, valType: types.Dist}, nil
'''))
same("u-q1", "C13 C08 C14 C06", (T, '''	// Always set unit on first call
	if !d.unitSet {
		d.unitSet = true
		d.unit = unit
		return true
	}
	if unit == d.unit {
		// unit already set to what we want just return success
		return true
	}
	// Oops, unit already set to something other than what we want
	// return failure
	return false
''', '''	if d.unitSet {
		return d.unit == unit
	}
	d.unit, d.unitSet = unit, true
	return true
'''))
same("u-q2", "C13 C08 C14", (T, '''	switch d.unit {
	case units.Second:
		return float64(dur) / float64(time.Second)
	case units.Millisecond:
		return float64(dur) / float64(time.Millisecond)
	default:
		panic("Durations can't be added to non time based metrics.")
	}
''', '''	if d.unit == units.Second {
		return dur.Seconds()
	}
	if d.unit != units.Millisecond {
		panic("Durations can't be added to non time based metrics.")
	}
	return float64(dur) / 1e6
'''))

# --- refactorings that change no behaviour: everything must stay quiet
HT_ = "tricorder/http.go"
J_ = "tricorder/json.go"
RP_ = "tricorder/rpc.go"
same("r-visit", "ALL", (T, '''	result, ok := s.visitedRegions[r]
	if !ok {
		result = r.RLock()
		s.visitedRegions[r] = result
	}
	return result
''', '''	if ts, visited := s.visitedRegions[r]; visited {
		return ts
	}
	return s.enter(r)
'''), (T, '''// Close signals that the caller has''', '''func (s *session) enter(r *region) time.Time {
	ts := r.RLock()
	s.visitedRegions[r] = ts
	return ts
}

// Close signals that the caller has'''))
same("r-close", "ALL", (T, '''	for visitedRegion := range s.visitedRegions {
		visitedRegion.RUnlock()
	}
	s.visitedRegions = nil
	return nil
''', '''	visited := s.visitedRegions
	s.visitedRegions = nil
	for aRegion := range visited {
		leave(aRegion)
	}
	return nil
'''), (T, '''func fixUpdateFunc(''', '''func leave(r *region) {
	r.RUnlock()
}

func fixUpdateFunc('''))
same("r-lockunlock", "ALL", (T, '''	prevLockCount := r.lockCount
	r.lockCount += lockIncrement
	if r.lockCount < 0 {
		panic("Lock count fell below 0")
	}
	// Update region for first lock holders
	if prevLockCount == 0 && r.lockCount > 0 {
		r.updateTime = r.updateFunc()
	}
	return r.updateTime
''', '''	newLockCount := r.lockCount + lockIncrement
	if newLockCount < 0 {
		panic("Lock count fell below 0")
	}
	isFirst := r.lockCount == 0 && newLockCount > 0
	r.lockCount = newLockCount
	if isFirst {
		r.updateTime = r.updateFunc()
	}
	return r.updateTime
'''), (T, '''	go func() {
		result.handleRequests()
	}()
	return result
''', '''	go result.handleRequests()
	return result
'''), (T, '''func (r *region) RLock() time.Time {
	r.sendCh <- 1
	return <-r.receiveCh
}

func (r *region) RUnlock() {
	r.sendCh <- -1
	<-r.receiveCh
}
''', '''func (r *region) RLock() time.Time {
	return r.request(1)
}

func (r *region) RUnlock() {
	r.request(-1)
}

func (r *region) request(increment int) time.Time {
	r.sendCh <- increment
	return <-r.receiveCh
}
'''))
same("r-adddist", "ALL", (T, '''	idx := findDistributionIndex(d.pieces, value)
	d.timeStamp = ts
	d.counts[idx]++
	d.total += value
	if d.count == 0 {
		d.min = value
		d.max = value
	} else if value < d.min {
		d.min = value
	} else if value > d.max {
		d.max = value
	}
	d.count++
	d.generation++
''', '''	if d.count == 0 {
		d.min, d.max = value, value
	} else {
		d.widen(value)
	}
	d.count++
	d.total += value
	d.counts[findDistributionIndex(d.pieces, value)]++
	d.changed(ts)
'''), (T, '''func decrementCount(count *uint64) {''', '''func (d *distribution) widen(value float64) {
	d.min = math.Min(d.min, value)
	d.max = math.Max(d.max, value)
}

func (d *distribution) changed(ts time.Time) {
	d.timeStamp = ts
	d.generation++
}

func decrementCount(count *uint64) {'''))
same("r-update", "ALL", (T, '''	d.total += (newValue - oldValue)
	if newValue < d.min {
		d.min = newValue
	} else if newValue > d.max {
		d.max = newValue
	}
	d.generation++
''', '''	d.generation++
	d.total = d.total + newValue - oldValue
	switch {
	case newValue < d.min:
		d.min = newValue
	case d.max < newValue:
		d.max = newValue
	}
'''), (T, '''	return sort.Search(len(pieces)-1, func(i int) bool {
		return value < pieces[i].End
	})
''', '''	last := len(pieces) - 1
	for i := 0; i < last; i++ {
		if value < pieces[i].End {
			return i
		}
	}
	return last
'''))
same("r-snapshot", "ALL", (T, '''	bdn := make(breakdown, len(d.pieces))
	for i := range bdn {
		bdn[i].bucketPiece = d.pieces[i]
	}
	d.lock.RLock()
	defer d.lock.RUnlock()
	for i := range bdn {
		bdn[i].Count = d.counts[i]
	}
	if d.count == 0 {
		return &snapshot{
			Count:           d.count,
			Generation:      d.generation,
			IsNotCumulative: d.isNotCumulative,
			Breakdown:       bdn,
			TimeStamp:       d.timeStamp,
		}
	}
	return &snapshot{
		Min:             d.min,
		Max:             d.max,
		Average:         d.total / float64(d.count),
		Median:          d.calculateMedian(),
		Sum:             d.total,
		Count:           d.count,
		Generation:      d.generation,
		IsNotCumulative: d.isNotCumulative,
		TimeStamp:       d.timeStamp,
		Breakdown:       bdn,
	}

''', '''	d.lock.RLock()
	defer d.lock.RUnlock()
	result := &snapshot{
		Count:           d.count,
		Generation:      d.generation,
		IsNotCumulative: d.isNotCumulative,
		TimeStamp:       d.timeStamp,
		Breakdown:       d.breakdown(),
	}
	if d.count > 0 {
		result.Min = d.min
		result.Max = d.max
		result.Average = d.total / float64(d.count)
		result.Median = d.calculateMedian()
		result.Sum = d.total
	}
	return result
'''), (T, '''// Snapshot fetches the''', '''func (d *distribution) breakdown() breakdown {
	var result breakdown
	for i, piece := range d.pieces {
		result = append(result, breakdownPiece{bucketPiece: piece, Count: d.counts[i]})
	}
	return result
}

// Snapshot fetches the'''))
same("r-list", "ALL", (T, '''func (l *listType) get() (value reflect.Value, ts time.Time) {
	l.lock.RLock()
	defer l.lock.RUnlock()
	return l.aSlice, l.timeStamp
}
''', '''func (l *listType) get() (reflect.Value, time.Time) {
	l.lock.RLock()
	value, ts := l.aSlice, l.timeStamp
	l.lock.RUnlock()
	return value, ts
}
'''), (T, '''	l.lock.Lock()
	defer l.lock.Unlock()
	l.aSlice = value
	l.timeStamp = ts
''', '''	l.set(value, ts)
'''), (T, '''func (l *listType) get() (''', '''func (l *listType) set(value reflect.Value, ts time.Time) {
	l.lock.Lock()
	defer l.lock.Unlock()
	l.timeStamp = ts
	l.aSlice = value
}

func (l *listType) get() (''')) if False else None
same("r-list2", "ALL", (T, '''	l.lock.Lock()
	defer l.lock.Unlock()
	l.aSlice = value
	l.timeStamp = ts
}
''', '''	l.set(value, ts)
}

func (l *listType) set(value reflect.Value, ts time.Time) {
	l.lock.Lock()
	l.timeStamp = ts
	l.aSlice = value
	l.lock.Unlock()
}
'''), (T, '''	value, _ := l.get()
	result := make([]string, value.Len())
	for i := range result {
		result[i] = valueToTextString(
			value.Index(i), l.subType, unit, false)
	}
	return result
''', '''	value, _ := l.get()
	var result []string
	for i := 0; i < value.Len(); i++ {
		result = append(result, valueToTextString(
			value.Index(i), l.subType, unit, false))
	}
	return result
'''))
same("r-evaluate", "ALL", (T, '''	if v.region != nil {
		if s == nil {
			s = newSession()
			defer s.Close()
		}
		s.Visit(v.region)
	}
	if !v.isfunc {
		return v.val
	}
	result := v.val.Call(nil)[0]
	// Needed as the Get() method on flag values returns an interface{}.
	if result.Type().Kind() == reflect.Interface {
		return result.Elem()
	}
	return result
''', '''	if v.region != nil {
		if s == nil {
			s = newSession()
			defer s.Close()
		}
		s.Visit(v.region)
	}
	if v.isfunc {
		return v.call()
	}
	return v.val
'''), (T, '''// AsXXX methods return this value as a type XX.''', '''func (v *value) call() reflect.Value {
	results := v.val.Call(nil)
	result := results[0]
	if result.Type().Kind() != reflect.Interface {
		return result
	}
	return result.Elem()
}

// AsXXX methods return this value as a type XX.'''))
same("r-getall", "ALL", (T, '''	dir, m := d.GetDirectoryOrMetric(relativePath)
	if m != nil {
		if s == nil {
			s = newSession()
			defer s.Close()
		}
		return collect(m, s, collector)
	} else if dir != nil {
		return dir.GetAllMetrics(collector, s)
	}
	return nil
''', '''	if s == nil {
		s = newSession()
		defer s.Close()
	}
	dir, m := d.GetDirectoryOrMetric(relativePath)
	switch {
	case m != nil:
		return collect(m, s, collector)
	case dir != nil:
		return dir.GetAllMetrics(collector, s)
	default:
		return nil
	}
'''), (T, '''	for _, entry := range d.List() {
		if entry.Directory != nil {
			err = entry.Directory.GetAllMetrics(collector, s)
		} else {
			err = collect(entry.Metric, s, collector)
		}
		if err != nil {
			return
		}
	}
	return
''', '''	entries := d.List()
	for i := range entries {
		if err = entries[i].collectInto(collector, s); err != nil {
			return err
		}
	}
	return nil
'''), (T, '''func (d *directory) listUnsorted() []*listEntry {''', '''func (n *listEntry) collectInto(collector metricsCollector, s *session) error {
	if n.Directory == nil {
		return collect(n.Metric, s, collector)
	}
	return n.Directory.GetAllMetrics(collector, s)
}

func (d *directory) listUnsorted() []*listEntry {'''))
same("r-listunsorted", "ALL", (T, '''	result := make([]*listEntry, len(d.contents))
	idx := 0
	for _, n := range d.contents {
		result[idx] = n
		idx++
	}
	return result
''', '''	result := make([]*listEntry, 0, len(d.contents))
	for name := range d.contents {
		result = append(result, d.contents[name])
	}
	return result
'''), (T, '''	sort.Sort(byName(listEntries))
	return listEntries
''', '''	sort.Slice(listEntries, func(i, j int) bool {
		return listEntries[i].Name < listEntries[j].Name
	})
	return listEntries
'''))
same("r-createdir", "ALL", (T, '''	n := d.contents[name]

	// We need to create the new directory
	if n == nil {
		newDir := newDirectory()
		newListEntry := &listEntry{
			Name: name, Directory: newDir, parent: d.enclosingListEntry}
		newDir.enclosingListEntry = newListEntry
		d.contents[name] = newListEntry
		return newDir, nil
	}

	// The directory already exists
	if n.Directory != nil {
		return n.Directory, nil
	}

	// name already associated with a metric, return error
	return nil, ErrPathInUse
''', '''	if n, ok := d.contents[name]; ok {
		if n.Directory == nil {
			return nil, ErrPathInUse
		}
		return n.Directory, nil
	}
	entry := d.newEntry(name)
	entry.Directory = newDirectory()
	entry.Directory.enclosingListEntry = entry
	d.contents[name] = entry
	return entry.Directory, nil
'''), (T, '''	n := d.contents[name]
	// Oops something already stored under name, return error
	if n != nil {
		return ErrPathInUse
	}
	newListEntry := &listEntry{Name: name, Metric: m, parent: d.enclosingListEntry}
	m.enclosingListEntry = newListEntry
	d.contents[name] = newListEntry
	return nil
}
''', '''	if _, taken := d.contents[name]; taken {
		return ErrPathInUse
	}
	entry := d.newEntry(name)
	entry.Metric = m
	m.enclosingListEntry = entry
	d.contents[name] = entry
	return nil
}

func (d *directory) newEntry(name string) *listEntry {
	return &listEntry{Name: name, parent: d.enclosingListEntry}
}
'''))
same("r-register", "ALL", (T, '''	current, err := d.registerDirectory(path.Dir())
	if err != nil {
		return
	}
	avalue, err := newValue(value, region, unit)
	if err != nil {
		return
	}
	metric := &metric{
		Description: description,
		value:       avalue}
	return current.storeMetric(path.Base(), metric)
''', '''	parent, err := d.registerDirectory(path.Dir())
	if err != nil {
		return err
	}
	m, err := newMetric(value, region, unit, description)
	if err != nil {
		return err
	}
	return parent.storeMetric(path.Base(), m)
'''), (T, '''func (d *directory) unregisterDirectory() {
	if d.IsRoot() {
		return
	}
	d.Parent().removeChildDirectory(d)
}
''', '''func newMetric(spec interface{}, region *region, unit units.Unit, description string) (*metric, error) {
	v, err := newValue(spec, region, unit)
	if err != nil {
		return nil, err
	}
	return &metric{Description: description, value: v}, nil
}

func (d *directory) unregisterDirectory() {
	if parent := d.Parent(); parent != nil {
		parent.removeChildDirectory(d)
	}
}
'''))
same("r-getdir", "ALL", (T, '''	if path.Empty() {
		return d, nil
	}
	dir := d.getDirectory(path.Dir())
	if dir == nil {
		return nil, nil
	}
	n := dir.getListEntry(path.Base())
	if n == nil {
		return nil, nil
	}
	return n.Directory, n.Metric
''', '''	if len(path) == 0 {
		return d, nil
	}
	if dir := d.getDirectory(path.Dir()); dir != nil {
		if n := dir.getListEntry(path.Base()); n != nil {
			return n.Directory, n.Metric
		}
	}
	return nil, nil
'''), (T, '''	result = d
	for _, part := range path {
		n := result.getListEntry(part)
		if n == nil || n.Directory == nil {
			return nil
		}
		result = n.Directory
	}
	return
''', '''	current := d
	for i := 0; i < len(path) && current != nil; i++ {
		current = current.childDirectory(path[i])
	}
	return current
'''), (T, '''func (d *directory) getDirectory(path pathSpec) (''', '''func (d *directory) childDirectory(name string) *directory {
	n := d.getListEntry(name)
	if n == nil {
		return nil
	}
	return n.Directory
}

func (d *directory) getDirectory(path pathSpec) ('''))
same("r-pathspec", "ALL", (T, '''	parts := strings.Split(path, "/")

	// Filter out empty path parts
	idx := 0
	for i := range parts {
		if strings.TrimSpace(parts[i]) == "" {
			continue
		}
		parts[idx] = parts[i]
		idx++
	}
	return parts[:idx]
''', '''	var result pathSpec
	for _, part := range strings.Split(path, "/") {
		if strings.TrimSpace(part) != "" {
			result = append(result, part)
		}
	}
	return result
'''), (T, '''	pathLen := len(names)
	for i := 0; i < pathLen/2; i++ {
		names[i], names[pathLen-i-1] = names[pathLen-i-1], names[i]
	}
	return names
''', '''	for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
		names[i], names[j] = names[j], names[i]
	}
	return names
'''))
same("r-jsonmetric", "ALL", (T, '''	t := v.Type()
	metric.Kind = t
	metric.SubType = v.SubType()
	metric.Bits = v.Bits()
	metric.Unit = v.Unit()
	switch t {
	case types.Dist:
		dist := v.AsDistribution()
		snapshot := dist.Snapshot()
		metric.Value = &messages.Distribution{
			Min:             snapshot.Min,
			Max:             snapshot.Max,
			Average:         snapshot.Average,
			Median:          snapshot.Median,
			Sum:             snapshot.Sum,
			Count:           snapshot.Count,
			Generation:      snapshot.Generation,
			IsNotCumulative: snapshot.IsNotCumulative,
			Ranges:          asRanges(snapshot.Breakdown)}
		metric.GroupId = dist.GroupId()
		metric.TimeStamp = snapshot.TimeStamp
	case types.List:
		alist := v.AsList()
		metric.Value, metric.TimeStamp = alist.AsSlice()
		metric.GroupId = alist.GroupId()
	default:
''', '''	metric.Kind, metric.SubType = v.Type(), v.SubType()
	metric.Bits, metric.Unit = v.Bits(), v.Unit()
	switch metric.Kind {
	case types.Dist:
		dist := v.AsDistribution()
		snapshot := dist.Snapshot()
		metric.Value = snapshot.asMessage()
		metric.TimeStamp = snapshot.TimeStamp
		metric.GroupId = dist.GroupId()
	case types.List:
		alist := v.AsList()
		metric.GroupId = alist.GroupId()
		metric.Value, metric.TimeStamp = alist.AsSlice()
	default:
'''), (T, '''func asRanges(ranges breakdown) []*messages.RangeWithCount {
	result := make([]*messages.RangeWithCount, len(ranges))
	for i := range ranges {
		result[i] = &messages.RangeWithCount{
			Count: ranges[i].Count,
			Lower: ranges[i].Start,
			Upper: ranges[i].End}
	}
	return result
}
''', '''func asRanges(ranges breakdown) []*messages.RangeWithCount {
	result := make([]*messages.RangeWithCount, 0, len(ranges))
	for _, piece := range ranges {
		result = append(result, &messages.RangeWithCount{
			Count: piece.Count,
			Lower: piece.Start,
			Upper: piece.End})
	}
	return result
}

func (s *snapshot) asMessage() *messages.Distribution {
	return &messages.Distribution{
		Min:             s.Min,
		Max:             s.Max,
		Average:         s.Average,
		Median:          s.Median,
		Sum:             s.Sum,
		Count:           s.Count,
		Generation:      s.Generation,
		IsNotCumulative: s.IsNotCumulative,
		Ranges:          asRanges(s.Breakdown)}
}
'''))
same("r-newvalue", "ALL", (T, '''	if someDist, ok := spec.(*NonCumulativeDistribution); ok {
		dist := (*distribution)(someDist)
		return newValueForDist(dist, unit)
	}
	if someDist, ok := spec.(*CumulativeDistribution); ok {
		dist := (*distribution)(someDist)
		return newValueForDist(dist, unit)
	}
	if dist, ok := spec.(*distribution); ok {
		return newValueForDist(dist, unit)
	}
	if someList, ok := spec.(*List); ok {
		alist := (*listType)(someList)
		return &value{alist: alist, unit: unit, valType: types.List}, nil
	}
	if alist, ok := spec.(*listType); ok {
		return &value{alist: alist, unit: unit, valType: types.List}, nil
	}
''', '''	switch s := spec.(type) {
	case *NonCumulativeDistribution:
		return newValueForDist((*distribution)(s), unit)
	case *CumulativeDistribution:
		return newValueForDist((*distribution)(s), unit)
	case *distribution:
		return newValueForDist(s, unit)
	case *List:
		return newValueForList((*listType)(s), unit), nil
	case *listType:
		return newValueForList(s, unit), nil
	}
'''), (T, '''// unit parameter only used if spec is a *Distribution''', '''func newValueForList(alist *listType, unit units.Unit) *value {
	return &value{alist: alist, unit: unit, valType: types.List}
}

// unit parameter only used if spec is a *Distribution'''))
same("r-bucketer", "ALL", (T, '''	var pieces []*bucketPiece
	lower := endpoints[0]
	pieces = append(pieces, &bucketPiece{First: true, End: lower})
	for _, upper := range endpoints[1:] {
		pieces = append(
			pieces, &bucketPiece{Start: lower, End: upper})
		lower = upper
	}
	pieces = append(
		pieces, &bucketPiece{Last: true, Start: lower})
	return &Bucketer{pieces: pieces}
''', '''	last := len(endpoints) - 1
	pieces := make([]*bucketPiece, 0, len(endpoints)+1)
	pieces = append(pieces, &bucketPiece{First: true, End: endpoints[0]})
	for i := 0; i < last; i++ {
		pieces = append(
			pieces, &bucketPiece{Start: endpoints[i], End: endpoints[i+1]})
	}
	pieces = append(
		pieces, &bucketPiece{Last: true, Start: endpoints[last]})
	return &Bucketer{pieces: pieces}
'''), (T, '''	result := make([]float64, count-1)
	current := start
	for i := 0; i < count-1; i++ {
		result[i] = current
		current *= scale
	}
	return result
''', '''	var result []float64
	for current := start; len(result) < count-1; current *= scale {
		result = append(result, current)
	}
	return result
'''))
same("r-html", "ALL", (H, '''	d, m := root.GetDirectoryOrMetric(path)
	if d == nil && m == nil {
		fmt.Fprintf(w, "Path does not exist.")
		return nil
	}
	s := newSession()
	defer s.Close()
	if m == nil {
		return htmlEmitDirectory(d, s, w)
	}
	return htmlEmitMetric(m, s, w)
''', '''	d, m := root.GetDirectoryOrMetric(path)
	s := newSession()
	defer s.Close()
	switch {
	case m != nil:
		return htmlEmitMetric(m, s, w)
	case d != nil:
		return htmlEmitDirectory(d, s, w)
	}
	_, err := io.WriteString(w, "Path does not exist.")
	return err
'''), (H, '''	if m.Type() == types.Dist {
		return textEmitDistribution(m.AsDistribution().Snapshot(), w)
	}
	if m.Type() == types.List {
		_, err := fmt.Fprintf(
			w,
			"%s\\n",
			strings.Join(m.AsList().TextStrings(m.Unit()), "|"))
		return err
	}
	_, err := fmt.Fprintf(w, "%s\\n", m.AsTextString(s))
	return err
''', '''	var text string
	switch m.Type() {
	case types.Dist:
		return textEmitDistribution(m.AsDistribution().Snapshot(), w)
	case types.List:
		text = strings.Join(m.AsList().TextStrings(m.Unit()), "|")
	default:
		text = m.AsTextString(s)
	}
	_, err := fmt.Fprintln(w, text)
	return err
'''), (H, '''	setSecurityHeaders(w)
	r.ParseForm()
	path := r.URL.Path
	var err error
	if r.Form.Get("format") == "text" {
		w.Header().Set("Content-Type", "text/plain")
		err = textEmitDirectoryOrMetric(path, w)
	} else {
		err = htmlEmitDirectoryOrMetric(path, w)
	}
	if err != nil {
		handleError(w, err)
	}
''', '''	setSecurityHeaders(w)
	r.ParseForm()
	emit := htmlEmitDirectoryOrMetric
	if r.Form.Get("format") == "text" {
		w.Header().Set("Content-Type", "text/plain")
		emit = textEmitDirectoryOrMetric
	}
	if err := emit(r.URL.Path, w); err != nil {
		handleError(w, err)
	}
'''))
same("r-json", "ALL", (J_, '''	if r.Form.Get("singleton") != "" {
		m := root.GetMetric(path)
		if m == nil {
			httpError(w, http.StatusNotFound)
			return
		}
		content, err = json.Marshal(jsonAsMetric(m, nil))
	} else {
		collector := make(jsonMetricsCollector, 0)
		root.GetAllMetricsByPath(path, &collector, nil)
		content, err = json.Marshal(collector)
	}
	if err != nil {
		handleError(w, err)
		return
	}
	var buffer bytes.Buffer
	json.Indent(&buffer, content, "", "\\t")
	buffer.WriteTo(w)
''', '''	if r.Form.Get("singleton") == "" {
		content, err = marshalAll(path)
	} else {
		m := root.GetMetric(path)
		if m == nil {
			httpError(w, http.StatusNotFound)
			return
		}
		content, err = json.Marshal(jsonAsMetric(m, nil))
	}
	if err != nil {
		handleError(w, err)
		return
	}
	buffer := new(bytes.Buffer)
	json.Indent(buffer, content, "", "\\t")
	w.Write(buffer.Bytes())
'''), (J_, '''func initJsonHandlers() {''', '''func marshalAll(path string) ([]byte, error) {
	collector := jsonMetricsCollector{}
	root.GetAllMetricsByPath(path, &collector, nil)
	return json.Marshal(collector)
}

func initJsonHandlers() {'''))
same("r-rpc", "ALL", (RP_, '''	*response = *rpcAsMetric(m, nil)
	return nil
''', '''	m.InitRpcMetric(nil, response)
	return nil
'''), (HT_, '''	if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
		h.H.ServeHTTP(w, r)
		return
	}
	w.Header().Set("Content-Encoding", "gzip")
	gz := gzip.NewWriter(w)
	defer gz.Close()
	gzr := &gzipResponseWriter{ResponseWriter: w, W: gz}
	h.H.ServeHTTP(gzr, r)
''', '''	if acceptsGzip(r) {
		w.Header().Set("Content-Encoding", "gzip")
		gz := gzip.NewWriter(w)
		defer gz.Close()
		w = &gzipResponseWriter{ResponseWriter: w, W: gz}
	}
	h.H.ServeHTTP(w, r)
'''), (HT_, '''func initHttpFramework() {''', '''func acceptsGzip(r *http.Request) bool {
	return strings.Contains(r.Header.Get("Accept-Encoding"), "gzip")
}

func initHttpFramework() {'''))
same("r-health", "ALL", (HS, '''func healthzHandler(w http.ResponseWriter, r *http.Request) {
	mutex.Lock()
	status := healthStatus
	mutex.Unlock()
	commonHandler(w, status)
}

func readinessHandler(w http.ResponseWriter, r *http.Request) {
	mutex.Lock()
	status := readyStatus
	mutex.Unlock()
	commonHandler(w, status)
}

func setHealth(status string) {
	mutex.Lock()
	defer mutex.Unlock()
	healthStatus = status
}

func setReady(status string) {
	mutex.Lock()
	defer mutex.Unlock()
	readyStatus = status
}
''', '''func healthzHandler(w http.ResponseWriter, r *http.Request) {
	commonHandler(w, get(&healthStatus))
}

func readinessHandler(w http.ResponseWriter, r *http.Request) {
	commonHandler(w, get(&readyStatus))
}

func get(p *string) string {
	mutex.Lock()
	defer mutex.Unlock()
	return *p
}

func set(p *string, status string) {
	mutex.Lock()
	*p = status
	mutex.Unlock()
}

func setHealth(status string) {
	set(&healthStatus, status)
}

func setReady(status string) {
	set(&readyStatus, status)
}
'''))
same("r-ids", "ALL", (T, '''	go func() {
		id := 0
		for {
			result <- id
			id++
		}
	}()
	return result
''', '''	go generateIds(result)
	return result
'''), (T, '''type rpcEncoding int
''', '''func generateIds(ch chan<- int) {
	for id := 0; ; id++ {
		ch <- id
	}
}

type rpcEncoding int
'''), (T, '''	value, subType := asSliceValue(aSlice, sliceIsMutable)
	return &listType{
		groupId:   <-idGenerator,
		subType:   subType,
		aSlice:    value,
		timeStamp: ts}
''', '''	result := &listType{timeStamp: ts}
	result.aSlice, result.subType = asSliceValue(aSlice, sliceIsMutable)
	result.groupId = nextId()
	return result
'''), (T, '''func (l *listType) ChangeWithTimeStamp(''', '''func nextId() int {
	return <-idGenerator
}

func (l *listType) ChangeWithTimeStamp('''))
M = [m for m in M if m[0] != "r-list"]
# --- type tables
TY = "tricorder/types/api.go"
MS = "tricorder/messages/api.go"
MM = "tricorder/messages/metric.go"
bug("t-bits", "C22", (TY, "	case Int16, Uint16:\n		return 16\n	case Int32, Uint32, Float32:", "	case Int16:\n		return 16\n	case Int32, Uint32, Uint16, Float32:"))
bug("t-nilslice", "C22", (TY, "return ([]time.Duration)(nil), nil", "return ([]int64)(nil), nil"))
bug("t-uint", "C22", (TY, "t == Uint8 || t == Uint16 || t == Uint32 || t == Uint64", "t == Uint8 || t == Uint16 || t == Uint32 || t == Uint64 || t == GoDuration"))
bug("t-kindof", "C22", (TY, "	case []uint16:\n		kind = List\n		subType = Uint16", "	case []uint16:\n		kind = List\n		subType = Uint32"))
bug("t-guess", "C22", (TY, "		subType = GoDuration\n	default:\n	}", "		subType = GoDuration\n	case []interface{}:\n		kind = List\n	case int:\n		kind = Int64\n	default:\n	}"))
bug("t-tofloat", "C22", (TY, "		return float64(x.(uint32))", "		return float64(int32(x.(uint32)))"))
bug("t-zerodur", "C22", (TY, "		return time.Duration(0), nil", "		return int64(0), nil"))
bug("t-unknownzero", "C22", (TY, '''		return nil, fmt.Errorf("Cannot create zero value for type '%s'", t)''', '''		return "", nil'''))
bug("t-gob1", "C25", (MS, "	gob.Register(durl)\n", ""))
bug("t-gob2", "C25", (MS, "	gob.Register(dist)\n", "	gob.Register(*new(Distribution))\n"))
bug("t-gob3", "C25", (MS, "	gob.Register(tml)\n", "	if len(tml) > 0 {\n		gob.Register(tml)\n	}\n"))
same("t-same-gob", "C25 C22", (MS, '''	gob.Register(tm)
	gob.Register(dur)
	gob.Register(tml)
	gob.Register(durl)
	gob.Register(dist)
''', '''	for _, v := range []interface{}{tm, dur, tml, durl, dist} {
		gob.Register(v)
	}
'''))
bug("t-gob-loop", "C25", (MS, '''	gob.Register(tm)
	gob.Register(dur)
	gob.Register(tml)
	gob.Register(durl)
	gob.Register(dist)
''', '''	for _, v := range []interface{}{tm, dur, tml, dist, durl}[:4] {
		gob.Register(v)
	}
'''))
same("t-same-bits", "C22", (TY, '''	switch t {
	case Int8, Uint8:
		return 8
	case Int16, Uint16:
		return 16
	case Int32, Uint32, Float32:
		return 32
	case Int64, Uint64, Float64:
		return 64
	default:
		return 0
	}
}
''', '''	return bitsByType[t]
}

var bitsByType = map[Type]int{
	Int8: 8, Uint8: 8,
	Int16: 16, Uint16: 16,
	Int32: 32, Uint32: 32, Float32: 32,
	Int64: 64, Uint64: 64, Float64: 64,
}
'''), (TY, "	return t == Int8 || t == Int16 || t == Int32 || t == Int64", '''	switch t {
	case Int8, Int16, Int32, Int64:
		return true
	}
	return false'''), (TY, '''	result, err := t.SafeNilSlice()
	if err != nil {
		panic(err)
	}
	return result
''', '''	return must(t.SafeNilSlice())
'''), (TY, '''	result, err := t.SafeZeroValue()
	if err != nil {
		panic(err)
	}
	return result
''', '''	return must(t.SafeZeroValue())
'''), (TY, '''// CanToFromFloat returns''', '''func must(result interface{}, err error) interface{} {
	if err != nil {
		panic(err)
	}
	return result
}

// CanToFromFloat returns'''))

# --- durations and units
DU = "tricorder/duration/duration.go"
DA = "tricorder/duration/api.go"
UN = "tricorder/units/api.go"
bug("d-epoch", "C26", (DU, "	if result.Seconds < 0 && result.Nanoseconds > 0 {", "	if result.Seconds < -1 && result.Nanoseconds > 0 {"))
bug("d-epoch-billion", "C26", (DU, "		result.Nanoseconds -= oneBillion", "		result.Nanoseconds -= oneBillion - 1"))
bug("d-pad", "C26", (DU, '	return fmt.Sprintf("%d.%09d", d.Seconds', '	return fmt.Sprintf("%d.%9d", d.Seconds'))
bug("d-pad8", "C26", (DU, '"-%d.%09d"', '"-%d.%08d"'))
bug("d-sign", "C26", (DU, "	return d.Nanoseconds < 0 || d.Seconds < 0", "	return d.Seconds < 0"))
bug("d-sign-text", "C26", (DU, '"-%d.%09d"', '"%d.%09d"'))
bug("d-round", "C26", (DU, "int32(ff * 1e9)", "int32(math.Round(ff * 1e9))"))
bug("d-floor", "C26", (DU, "	ii, ff := math.Modf(f)", "	ii := math.Floor(f)\n	ff := f - ii"))
bug("d-mult-carry", "C26 C27", (DU, "	wholeprod := d.Seconds*scalar + fracprod/oneBillion", "	wholeprod := d.Seconds * scalar"))
bug("d-mult-rem", "C26 C27", (DU, "	fracprod = fracprod % oneBillion\n", ""))
bug("d-div-rem", "C27", (DU, "(int64(d.Nanoseconds) + wholerem*oneBillion) / scalar", "int64(d.Nanoseconds) / scalar"))
bug("d-inv", "C27", (DU, "	num := toNum * fromDen\n	den := toDen * fromNum", "	num := toDen * fromNum\n	den := toNum * fromDen"))
bug("d-factor", "C27", (UN, "return 1000, 1", "return 1024, 1"))
bug("d-unit-order", "C27", (DA, "inUnit.convert(unit, units.Second)", "inUnit.convert(units.Second, unit)"))
bug("d-parse-neg", "C26", (DU, "		result.Nanoseconds = -1 * int32(frac)", "		result.Nanoseconds = int32(frac)"))
bug("d-gotime", "C26", (DU, "time.Unix(d.Seconds, int64(d.Nanoseconds))", "time.Unix(d.Seconds, int64(d.Nanoseconds/1000)*1000)"))
bug("d-newdur", "C26", (DU, "int32((d % time.Second) / time.Nanosecond)", "int32((d % time.Second) / time.Microsecond * 1000)"))
same("d-q-format", "C26 C27", (DU, '''		posd := d.mult(-1)
		return fmt.Sprintf("-%d.%09d", posd.Seconds, posd.Nanoseconds)
	}
	return fmt.Sprintf("%d.%09d", d.Seconds, d.Nanoseconds)''', '''		return "-" + d.mult(-1).digits()
	}
	return d.digits()'''), (DU, '''func (d Duration) asFloat()''', '''func (d Duration) digits() string {
	return strconv.FormatInt(d.Seconds, 10) + fmt.Sprintf(".%09d", d.Nanoseconds)
}

func (d Duration) asFloat()'''))
same("d-q-format2", "C26 C27", (DU, '''	if d.isNegative() {
		posd := d.mult(-1)
		return fmt.Sprintf("-%d.%09d", posd.Seconds, posd.Nanoseconds)
	}
	return fmt.Sprintf("%d.%09d", d.Seconds, d.Nanoseconds)''', '''	sign := ""
	if d.isNegative() {
		sign = "-"
		d.Seconds, d.Nanoseconds = -d.Seconds, -d.Nanoseconds
	}
	return fmt.Sprintf("%s%d.%09d", sign, d.Seconds, d.Nanoseconds)'''))
same("d-q-mult", "C26 C27", (DU, '''	fracprod := int64(d.Nanoseconds) * scalar
	wholeprod := d.Seconds*scalar + fracprod/oneBillion
	fracprod = fracprod % oneBillion
	result.Seconds = wholeprod
	result.Nanoseconds = int32(fracprod)
	return
''', '''	return normalized(d.Seconds*scalar, int64(d.Nanoseconds)*scalar)
'''), (DU, '''func (d Duration) div(''', '''func normalized(seconds, nanos int64) Duration {
	carry := nanos / oneBillion
	return Duration{Seconds: seconds + carry, Nanoseconds: int32(nanos - carry*oneBillion)}
}

func (d Duration) div('''), (DU, '''	result.Seconds = int64(d / time.Second)
	result.Nanoseconds = int32((d % time.Second) / time.Nanosecond)
	return
''', '''	nanos := d.Nanoseconds()
	return Duration{Seconds: nanos / oneBillion, Nanoseconds: int32(nanos % oneBillion)}
'''))
same("d-q-convert", "C26 C27", (DU, '''	fromNum, fromDen := units.FromSecondsRational(from)
	toNum, toDen := units.FromSecondsRational(to)
	num := toNum * fromDen
	den := toDen * fromNum
	return d.mult(num).div(den)''', '''	if from == to {
		return d
	}
	fromNum, fromDen := units.FromSecondsRational(from)
	toNum, toDen := units.FromSecondsRational(to)
	return d.mult(toNum * fromDen).div(fromNum * toDen)'''), (DU, '''	result.Seconds = t.Unix()
	result.Nanoseconds = int32(t.Nanosecond())
	if result.Seconds < 0 && result.Nanoseconds > 0 {
		result.Seconds++
		result.Nanoseconds -= oneBillion
	}
	return
''', '''	secs, nanos := t.Unix(), t.Nanosecond()
	if secs < 0 && nanos != 0 {
		secs, nanos = secs+1, nanos-oneBillion
	}
	return Duration{secs, int32(nanos)}
'''))
same("d-q-parse", "C26 C27", (DU, '''	if bNegative {
		result.Seconds = -1 * whole
		result.Nanoseconds = -1 * int32(frac)
	} else {
		result.Seconds = whole
		result.Nanoseconds = int32(frac)
	}
	return
''', '''	result = Duration{Seconds: whole, Nanoseconds: int32(frac)}
	if bNegative {
		result = result.mult(-1)
	}
	return result, nil
'''), (DA, '''	inUnit, err := parse(str)
	if err != nil {
		return
	}
	dur = inUnit.convert(unit, units.Second)
	return
''', '''	inUnit, err := parse(str)
	if err != nil {
		return Duration{}, err
	}
	return inUnit.convert(unit, units.Second), nil
'''))

# --- directory tree
bug("g-overwrite", "C17", (T, '''	// Oops something already stored under name, return error
	if n != nil {''', '''	// Oops something already stored under name, return error
	if n != nil && n.Metric != nil {'''))
bug("g-toctou", "C17", (T, '''	d.lock.Lock()
	defer d.lock.Unlock()
	n := d.contents[name]
	// Oops something already stored under name, return error
	if n != nil {
		return ErrPathInUse
	}
''', '''	if d.getListEntry(name) != nil {
		return ErrPathInUse
	}
	d.lock.Lock()
	defer d.lock.Unlock()
'''))
bug("g-toctou-dir", "C17", (T, '''	d.lock.Lock()
	defer d.lock.Unlock()
	n := d.contents[name]

	// We need''', '''	n := d.getListEntry(name)
	d.lock.Lock()
	defer d.lock.Unlock()

	// We need'''))
bug("g-dirasmetric", "C17", (T, '''	// name already associated with a metric, return error
	return nil, ErrPathInUse''', '''	// name already associated with a metric
	return d, nil'''))
bug("g-parent", "C17", (T, "&listEntry{Name: name, Metric: m, parent: d.enclosingListEntry}", "&listEntry{Name: name, Metric: m, parent: d.enclosingListEntry.parent}"))
bug("g-name", "C17", (T, "Name: name, Directory: newDir,", "Name: strings.ToLower(name), Directory: newDir,"))
bug("g-nolink", "C17", (T, "		newDir.enclosingListEntry = newListEntry\n", ""))
bug("g-wrongdir", "C17", (T, '''	current, err := d.registerDirectory(path.Dir())
''', '''	current, err := root.registerDirectory(path.Dir())
'''))
bug("g-empty", "C17", (T, '''	if path.Empty() {
		return ErrPathInUse
	}
	current''', '''	if path.Empty() {
		return nil
	}
	current'''))
bug("g-swallow", "C17", (T, '''	return current.storeMetric(path.Base(), metric)''', '''	if err = current.storeMetric(path.Base(), metric); err == ErrPathInUse {
		err = nil
	}
	return'''))
bug("g-shortcut", "C17", (T, '''		result, err = result.createDirIfNeeded(part)
		if err != nil {
			return
		}
''', '''		var next *directory
		next, err = result.createDirIfNeeded(part)
		if err != nil {
			return
		}
		if len(next.contents) > 0 {
			result = next
		}
'''))
same("g-q-store", "C17 C18 C34", (T, '''	n := d.contents[name]
	// Oops something already stored under name, return error
	if n != nil {
		return ErrPathInUse
	}
	newListEntry := &listEntry{Name: name, Metric: m, parent: d.enclosingListEntry}
	m.enclosingListEntry = newListEntry
	d.contents[name] = newListEntry
	return nil''', '''	if _, taken := d.contents[name]; taken {
		return ErrPathInUse
	}
	m.enclosingListEntry = d.insert(name, m, nil)
	return nil'''), (T, '''		newDir := newDirectory()
		newListEntry := &listEntry{
			Name: name, Directory: newDir, parent: d.enclosingListEntry}
		newDir.enclosingListEntry = newListEntry
		d.contents[name] = newListEntry
		return newDir, nil''', '''		newDir := newDirectory()
		newDir.enclosingListEntry = d.insert(name, nil, newDir)
		return newDir, nil'''), (T, '''func (d *directory) registerDirectory(path''', '''func (d *directory) insert(name string, m *metric, dir *directory) *listEntry {
	entry := &listEntry{Name: name, Directory: dir, Metric: m, parent: d.enclosingListEntry}
	d.contents[name] = entry
	return entry
}

func (d *directory) registerDirectory(path'''))
same("g-q-walk", "C17 C18 C34 C35", (T, '''	result = d
	for _, part := range path {
		result, err = result.createDirIfNeeded(part)
		if err != nil {
			return
		}
	}
	return
''', '''	current := d
	for i := 0; i < len(path); i++ {
		next, err := current.createDirIfNeeded(path[i])
		if err != nil {
			return nil, err
		}
		current = next
	}
	return current, nil
'''), (T, '''	result = d
	for _, part := range path {
		n := result.getListEntry(part)
		if n == nil || n.Directory == nil {
			return nil
		}
		result = n.Directory
	}
	return
''', '''	result = d
	for i := 0; i < len(path); i++ {
		n := result.getListEntry(path[i])
		if n == nil {
			return nil
		}
		if n.Directory == nil {
			return nil
		}
		result = n.Directory
	}
	return
'''))
same("g-q-reg", "C17 C18", (T, '''	if path.Empty() {
		return ErrPathInUse
	}
	current, err := d.registerDirectory(path.Dir())
	if err != nil {
		return
	}
	avalue, err := newValue(value, region, unit)
	if err != nil {
		return
	}
	metric := &metric{
		Description: description,
		value:       avalue}
	return current.storeMetric(path.Base(), metric)''', '''	plen := len(path)
	if plen == 0 {
		return ErrPathInUse
	}
	dirPath, name := path[:plen-1], path[plen-1]
	parent, err := d.registerDirectory(dirPath)
	if err != nil {
		return err
	}
	m := &metric{Description: description}
	if m.value, err = newValue(value, region, unit); err != nil {
		return err
	}
	return parent.storeMetric(name, m)'''))
bug("g-rm-any", "C18", (T, '''	if d.contents[name] == child.enclosingListEntry {
		delete(d.contents, name)
	}''', '''	if d.contents[name] != nil {
		delete(d.contents, name)
	}'''))
bug("g-rm-isdir", "C18", (T, '''	if d.contents[name] == child.enclosingListEntry {''', '''	if n := d.contents[name]; n != nil && n.Directory != nil {'''))
bug("g-rm-noroot", "C18", (T, '''	if d.IsRoot() {
		return
	}
	d.Parent()''', '''	d.Parent()'''))
bug("g-rm-emptyonly", "C18", (T, '''	dir.removeListEntry(path.Base())''', '''	if n := dir.getListEntry(path.Base()); n != nil && n.Directory != nil && len(n.Directory.List()) > 0 {
		return
	}
	dir.removeListEntry(path.Base())'''))
bug("g-rm-prune", "C18", (T, '''	dir.removeListEntry(path.Base())''', '''	dir.removeListEntry(path.Base())
	if len(dir.List()) == 0 && !dir.IsRoot() {
		dir.Parent().removeListEntry(dir.enclosingListEntry.Name)
	}'''))
bug("g-rm-first", "C18", (T, '''	dir.removeListEntry(path.Base())''', '''	dir.removeListEntry(path[0])'''))
bug("g-rm-base", "C18", (T, '''	dir := d.getDirectory(path.Dir())
	if dir == nil {
		return
	}
	dir.remove''', '''	dir := d.getDirectory(path.Dir())
	if dir == nil {
		dir = d
	}
	dir.remove'''))
bug("g-rm-rename", "C18", (T, '''	delete(d.contents, name)
}

func (d *directory) removeChild''', '''	if n := d.contents[name]; n != nil {
		n.parent = nil
	}
	delete(d.contents, name)
}

func (d *directory) removeChild'''))
bug("g-abs-norev", "C18", (T, "	for i := 0; i < pathLen/2; i++ {", "	for i := 0; i < pathLen/2-1; i++ {"))
bug("g-abs-skip", "C18", (T, "	for ; current != nil && current != from; current = current.parent {", "	for ; current != nil && current.parent != from; current = current.parent {"))
bug("g-abs-empty", "C18", (T, "		names = append(names, current.Name)\n", "		if current.Directory != nil || current.parent == nil {\n			names = append(names, current.Name)\n		}\n"))
bug("g-abs-sep", "C18", (T, '	return strings.Join(p, "/")', '	return strings.Join(p, ".")'))
bug("g-parentdir", "C18", (T, '''	if n.parent == nil {
		return root
	}
	return n.parent.Directory''', '''	if n.parent == nil || n.parent.parent == nil {
		return root
	}
	return n.parent.Directory'''))
same("g-q-abs1", "C18", (T, '''	pathLen := len(names)
	for i := 0; i < pathLen/2; i++ {
		names[i], names[pathLen-i-1] = names[pathLen-i-1], names[i]
	}''', '''	for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
		names[i], names[j] = names[j], names[i]
	}'''))
same("g-q-abs2", "C18", (T, '''	return "/" + n.pathFrom(root).String()''', '''	if n == nil {
		return "/"
	}
	path := ""
	for current := n; current != nil; current = current.parent {
		path = "/" + current.Name + path
	}
	return path'''))
same("g-q-abs3", "C18", (T, '''	names[i], names[pathLen-i-1] = names[pathLen-i-1], names[i]
''', '''	opposite := pathLen - 1 - i
		swapped := names[i]
		names[i] = names[opposite]
		names[opposite] = swapped
'''), (T, '''	for ; current != nil && current != from; current = current.parent {
		names = append(names, current.Name)
	}''', '''	for current != nil && current != from {
		names = append(names, current.Name)
		current = current.parent
	}'''))
same("g-q-rm", "C18", (T, '''	if d.contents[name] == child.enclosingListEntry {
		delete(d.contents, name)
	}''', '''	current, ok := d.contents[name]
	if !ok || current != child.enclosingListEntry {
		return
	}
	delete(d.contents, name)'''), (T, '''	if d.IsRoot() {
		return
	}
	d.Parent().removeChildDirectory(d)''', '''	if parent := d.Parent(); parent != nil {
		parent.removeChildDirectory(d)
	}'''))
same("g-q-rm2", "C18", (T, '''	dir := d.getDirectory(path.Dir())
	if dir == nil {
		return
	}
	dir.removeListEntry(path.Base())''', '''	if dir := d.getDirectory(path.Dir()); dir != nil {
		dir.removeListEntry(path.Base())
	}'''))

# --- look-ups (C34) and path parsing (C35) ----------------------------------
J = "tricorder/json.go"
R = "tricorder/rpc.go"
HT = "tricorder/html.go"
bug("k-json-404", "C34", (J, "		if m == nil {\n			httpError(w, http.StatusNotFound)\n			return\n		}", "		if m == nil {\n			httpError(w, http.StatusBadRequest)\n			return\n		}"))
bug("k-rpc-nil", "C34", (R, "		return messages.ErrMetricNotFound", "		return nil"))
bug("k-getdir-err", "C34", (T, '''		if n == nil {
			return nil, ErrNotFound
		}
		if n.Directory == nil {
			return nil, ErrPathInUse
		}''', '''		if n == nil || n.Directory == nil {
			return nil, ErrPathInUse
		}'''))
bug("k-getdir-parent", "C34", (T, '''		if n == nil {
			return nil, ErrNotFound
		}
		if n.Directory == nil {
			return nil, ErrPathInUse
		}''', '''		if n == nil {
			return nil, ErrNotFound
		}
		if n.Directory == nil {
			return result, nil
		}'''))
bug("k-dom-parent", "C34", (T, '''	if n == nil {
		return nil, nil
	}
	return n.Directory, n.Metric''', '''	if n == nil {
		return dir, nil
	}
	return n.Directory, n.Metric'''))
bug("k-list-err", "C34", (T, '''	dir, m := d.GetDirectoryOrMetric(relativePath)
''', '''	dir, m := d.GetDirectoryOrMetric(relativePath)
	if dir == nil && m == nil {
		return ErrNotFound
	}
'''))
bug("k-html-blank", "C34", (HT, '''		fmt.Fprintf(w, "Path does not exist.")
''', ''))
bug("k-html-swap", "C34", (HT, '''	if m == nil {
		return htmlEmitDirectory(d, s, w)
	}
	return htmlEmitMetric(m, s, w)''', '''	if d == nil {
		return htmlEmitDirectory(d, s, w)
	}
	return htmlEmitMetric(m, s, w)'''))
bug("k-dir-trail", "C34", (T, '''	if path.Empty() {
		return d, nil
	}
	dir := d.getDirectory(path.Dir())''', '''	if len(path) <= 1 && d.getListEntry("") == nil && path.Empty() {
		return d, nil
	}
	dir := d.getDirectory(path[:len(path)-1:len(path)])
	if dir == nil && len(path) > 1 {
		dir = d.getDirectory(path[:1])
	}'''))
same("k-q-look", "C34 C35", (T, '''	dir := d.getDirectory(path.Dir())
	if dir == nil {
		return nil, nil
	}
	n := dir.getListEntry(path.Base())
	if n == nil {
		return nil, nil
	}
	return n.Directory, n.Metric''', '''	if dir := d.getDirectory(path.Dir()); dir != nil {
		if n := dir.getListEntry(path.Base()); n != nil {
			return n.Directory, n.Metric
		}
	}
	return nil, nil'''), (R, '''	m := root.GetMetric(path)
	if m == nil {
		return messages.ErrMetricNotFound
	}
	*response = *rpcAsMetric(m, nil)
	return nil''', '''	if m := root.GetMetric(path); m != nil {
		m.InitRpcMetric(nil, response)
		return nil
	}
	return messages.ErrMetricNotFound'''), (J, '''		m := root.GetMetric(path)
		if m == nil {''', '''		_, m := root.GetDirectoryOrMetric(path)
		if m == nil {'''))
same("k-q-page", "C34 C35", (HT, '''	d, m := root.GetDirectoryOrMetric(path)
	if d == nil && m == nil {
		fmt.Fprintf(w, "Path does not exist.")
		return nil
	}
	s := newSession()
	defer s.Close()
	if m == nil {
		return htmlEmitDirectory(d, s, w)
	}
	return htmlEmitMetric(m, s, w)''', '''	d, m := root.GetDirectoryOrMetric(path)
	s := newSession()
	defer s.Close()
	switch {
	case d != nil:
		return htmlEmitDirectory(d, s, w)
	case m != nil:
		return htmlEmitMetric(m, s, w)
	}
	_, err := io.WriteString(w, "Path does not exist.")
	return err'''))
NP = '''	parts := strings.Split(path, "/")

	// Filter out empty path parts
	idx := 0
	for i := range parts {
		if strings.TrimSpace(parts[i]) == "" {
			continue
		}
		parts[idx] = parts[i]
		idx++
	}
	return parts[:idx]'''
bug("n-trim", "C35", (T, "		parts[idx] = parts[i]\n		idx++", "		parts[idx] = strings.TrimSpace(parts[i])\n		idx++"))
bug("n-empty", "C35", (T, '		if strings.TrimSpace(parts[i]) == "" {', '		if parts[i] == "" {'))
bug("n-dot", "C35", (T, '		if strings.TrimSpace(parts[i]) == "" {', '		if strings.TrimSpace(parts[i]) == "" || parts[i] == "." {'))
bug("n-dotdot", "C35", (T, '		if strings.TrimSpace(parts[i]) == "" {', '		if parts[i] == ".." && idx > 0 {\n			idx--\n			continue\n		}\n		if strings.TrimSpace(parts[i]) == "" {'))
bug("n-lower", "C35", (T, '	parts := strings.Split(path, "/")\n\n	// Filter', '	parts := strings.Split(strings.ToLower(path), "/")\n\n	// Filter'))
bug("n-last", "C35", (T, "	for i := range parts {\n		if strings.TrimSpace(parts[i])", "	for i := 0; i < len(parts)-1 || i == 0; i++ {\n		if strings.TrimSpace(parts[i])"))
bug("n-splitn", "C35", (T, '	parts := strings.Split(path, "/")\n\n	// Filter', '	parts := strings.SplitN(path, "/", 64)\n\n	// Filter'))
bug("n-dup", "C35", (T, "		parts[idx] = parts[i]\n		idx++", "		if idx > 0 && parts[idx-1] == parts[i] {\n			continue\n		}\n		parts[idx] = parts[i]\n		idx++"))
bug("n-rpc", "C35", (R, "	m := root.GetMetric(path)", '	m := root.GetMetric(strings.Replace(path, "//", "/_/", -1))'), (R, '	"net/rpc"\n', '	"net/rpc"\n	"strings"\n'))
bug("n-json", "C35", (J, "	path := r.URL.Path\n", "	path := r.URL.EscapedPath()\n"))
bug("n-json2", "C35", (J, 'http.StripPrefix(jsonUrl, gzip', 'http.StripPrefix(jsonUrl+"/proc", gzip'))
bug("n-html", "C35", (HT, "	path := r.URL.Path\n	var err", "	path := path.Clean(r.URL.Path)\n	var err"), (HT, '	"net/http"\n', '	"net/http"\n	"path"\n'))
bug("n-rmpath", "C35", (T, "	dir.removeListEntry(path.Base())", "	dir.removeListEntry(strings.TrimSpace(path.Base()))"))
same("n-q-append", "C35 C34 C17 C18", (T, NP, '''	var result pathSpec
	for _, part := range strings.Split(path, "/") {
		if strings.TrimSpace(part) != "" {
			result = append(result, part)
		}
	}
	return result'''))
same("n-q-len", "C35 C34 C17 C18", (T, NP, '''	parts := strings.Split(path, "/")
	kept := parts[:0]
	for i := 0; i < len(parts); i++ {
		if part := parts[i]; !isBlank(part) {
			kept = append(kept, part)
		}
	}
	return pathSpec(kept)'''), (T, "func newPathSpec(path string) pathSpec {", '''func isBlank(s string) bool {
	return len(strings.TrimSpace(s)) == 0
}

func newPathSpec(path string) pathSpec {'''))
same("n-q-idx", "C35 C34 C17 C18", (T, NP, '''	parts := strings.Split(strings.Trim(path, "/"), "/")
	idx := 0
	for _, part := range parts {
		if len(strings.TrimSpace(part)) > 0 {
			parts[idx] = part
			idx += 1
		}
	}
	return parts[0:idx]'''))
same("n-q-make", "C35 C34 C17 C18", (T, NP, '''	parts := strings.Split(path, "/")
	result := make(pathSpec, 0, len(parts))
	for _, part := range parts {
		if strings.TrimSpace(part) == "" {
			continue
		}
		result = append(result, part)
	}
	return result'''))

# ---- C10: reports of distributions
SN = '''	bdn := make(breakdown, len(d.pieces))
	for i := range bdn {
		bdn[i].bucketPiece = d.pieces[i]
	}
	d.lock.RLock()
	defer d.lock.RUnlock()
	for i := range bdn {
		bdn[i].Count = d.counts[i]
	}
	if d.count == 0 {'''
bug("o-torn", "C10", (T, SN, '''	bdn := make(breakdown, len(d.pieces))
	d.lock.RLock()
	for i := range bdn {
		bdn[i].bucketPiece = d.pieces[i]
		bdn[i].Count = d.counts[i]
	}
	d.lock.RUnlock()
	d.lock.RLock()
	defer d.lock.RUnlock()
	if d.count == 0 {'''))
bug("o-swap", "C10", (T, "			Max:             snapshot.Max,\n", "			Max:             snapshot.Min,\n"))
bug("o-rangelast", "C10", (T, "	for i := range bdn {\n		bdn[i].Count = d.counts[i]\n	}\n", "	for i := 1; i < len(bdn); i++ {\n		bdn[i].Count = d.counts[i]\n	}\n"))
bug("o-shift", "C10", (T, "bdn[i].Count = d.counts[i]", "bdn[len(bdn)-1-i].Count = d.counts[i]"))
bug("o-drop", "C10", (T, "			Breakdown:       bdn,\n			TimeStamp:       d.timeStamp,\n", "			Breakdown:       bdn,\n"))
bug("o-gen", "C10", (T, "			Count:           d.count,\n			Generation:      d.generation,\n", "			Count:           d.count,\n"))
bug("o-tslive", "C10", (T, "		metric.TimeStamp = snapshot.TimeStamp\n", '''		metric.TimeStamp = dist.lastChange()
'''), (T, "type listType struct {", '''func (d *distribution) lastChange() time.Time {
	d.lock.RLock()
	defer d.lock.RUnlock()
	return d.timeStamp
}

type listType struct {'''))
bug("o-count", "C10", (T, "			Count:           snapshot.Count,\n", "			Count:           dist.Count(),\n"))
bug("o-avg", "C10", (T, "Average:         d.total / float64(d.count),", "Average:         d.total / float64(d.count+1),"))
bug("o-gate", "C10", (T, "	if d.count == 0 {\n		return &snapshot{", "	if d.generation == 0 {\n		return &snapshot{"))
same("o-q-one", "C10", (T, SN, '''	d.lock.RLock()
	defer d.lock.RUnlock()
	bdn := make(breakdown, len(d.pieces))
	for i, piece := range d.pieces {
		bdn[i] = breakdownPiece{bucketPiece: piece, Count: d.counts[i]}
	}
	if d.count == 0 {'''))
same("o-q-append", "C10", (T, SN, '''	d.lock.RLock()
	defer d.lock.RUnlock()
	var bdn breakdown
	for i, piece := range d.pieces {
		bdn = append(bdn, breakdownPiece{bucketPiece: piece, Count: d.counts[i]})
	}
	if d.count == 0 {'''))
same("o-q-merge", "C10", (T, '''	if d.count == 0 {
		return &snapshot{
			Count:           d.count,
			Generation:      d.generation,
			IsNotCumulative: d.isNotCumulative,
			Breakdown:       bdn,
			TimeStamp:       d.timeStamp,
		}
	}
	return &snapshot{
		Min:             d.min,
		Max:             d.max,
		Average:         d.total / float64(d.count),
		Median:          d.calculateMedian(),
		Sum:             d.total,
		Count:           d.count,
		Generation:      d.generation,
		IsNotCumulative: d.isNotCumulative,
		TimeStamp:       d.timeStamp,
		Breakdown:       bdn,
	}
''', '''	result := &snapshot{
		Count:           d.count,
		Generation:      d.generation,
		IsNotCumulative: d.isNotCumulative,
		Breakdown:       bdn,
		TimeStamp:       d.timeStamp,
	}
	if d.count > 0 {
		result.Min = d.min
		result.Max = d.max
		result.Sum = d.total
		result.Average = result.Sum / float64(result.Count)
		result.Median = d.calculateMedian()
	}
	return result
'''))
same("o-q-helper", "C10", (T, '''		metric.Value = &messages.Distribution{
			Min:             snapshot.Min,
			Max:             snapshot.Max,
			Average:         snapshot.Average,
			Median:          snapshot.Median,
			Sum:             snapshot.Sum,
			Count:           snapshot.Count,
			Generation:      snapshot.Generation,
			IsNotCumulative: snapshot.IsNotCumulative,
			Ranges:          asRanges(snapshot.Breakdown)}
''', '''		metric.Value = snapshot.asMessage()
'''), (T, "type listType struct {", '''func (s *snapshot) asMessage() *messages.Distribution {
	var result messages.Distribution
	result.Min, result.Max = s.Min, s.Max
	result.Average = s.Average
	result.Median = s.Median
	result.Sum = s.Sum
	result.Count = s.Count
	result.Generation = s.Generation
	result.IsNotCumulative = s.IsNotCumulative
	result.Ranges = asRanges(s.Breakdown)
	return &result
}

type listType struct {'''))
bug("o-swap2", "C10", (T, "			Max:             snapshot.Max,\n", "			Max:             snapshot.Min,\n"), (T, "			Min:             snapshot.Min,\n", "			Min:             snapshot.Max,\n"))

# ---- C12: bucketers
bug("u-scale", "C12", (T, "start <= 0.0 || scale <= 1.0", "start <= 0.0 || scale < 1.0"))
bug("u-start", "C12", (T, "start <= 0.0 || scale", "start < 0.0 || scale"))
bug("u-incr", "C12", (T, "count < 2 || increment <= 0.0", "count < 2 || increment < 0.0"))
bug("u-and", "C12", (T, "count < 2 || increment <= 0.0", "count < 2 && increment <= 0.0"))
bug("u-geo", "C12", (T, "lower <= 0 || upper < lower", "lower < 0 || upper < lower"))
bug("u-geo2", "C12", (T, "lower <= 0 || upper < lower", "lower <= 0 || upper <= 0"))
bug("u-geo3", "C12", (T, "lower <= 0 || upper < lower", "lower <= 0 || upper <= lower"))
bug("u-none", "C12", (API, "	return newBucketerFromEndpoints(endpoints)\n", "	if len(endpoints) == 0 {\n		endpoints = []float64{0}\n	}\n	return newBucketerFromEndpoints(endpoints)\n"))
bug("u-grow", "C12", (T, "	d.total += value\n	if d.count == 0 {", "	d.total += value\n	if last := d.pieces[len(d.pieces)-1]; value > last.End {\n		last.End = value\n	}\n	if d.count == 0 {"))
bug("u-snap", "C12", (T, "		bdn[i].bucketPiece = d.pieces[i]\n", "		bdn[i].bucketPiece = d.pieces[i]\n		if bdn[i].Last {\n			bdn[i].End = math.Inf(1)\n		}\n"), (T, "\"math\"", "\"math\"") )
bug("u-lazy", "C12", (T, "	d.lock.RLock()\n	defer d.lock.RUnlock()\n	for i := range bdn {", "	d.lock.RLock()\n	defer d.lock.RUnlock()\n	d.pieces[0].Start = d.min\n	for i := range bdn {"))
same("u-q-explicit", "C12 C11", (API, "	return newBucketerFromEndpoints(endpoints)\n", "	if len(endpoints) == 0 {\n		panic(\"at least one endpoint\")\n	}\n	return newBucketerFromEndpoints(endpoints)\n"))
same("u-q-helper", "C12 C11", (T, "	if count < 2 || increment <= 0.0 {\n		panic(\"count >= 2 && increment > 0\")\n	}\n", "	checkArgs(count >= 2 && increment > 0.0, \"count >= 2 && increment > 0\")\n"), (T, "func newLinearBucketerStream(", "func checkArgs(ok bool, message string) {\n	if !ok {\n		panic(message)\n	}\n}\n\nfunc newLinearBucketerStream("))
same("u-q-split", "C12 C11", (T, "	if lower <= 0 || upper < lower {\n		panic(\"lower must > 0 and upper >= lower\")\n	}\n", "	if lower <= 0 {\n		panic(\"lower must be > 0\")\n	}\n	if !(lower <= upper) {\n		panic(\"upper must be >= lower\")\n	}\n"))
same("u-q-idx", "C12", (T, "count < 2 || increment <= 0.0", "count < 1 || increment <= 0.0"))
same("u-q-copy", "C12 C11", (API, "	return newBucketerFromEndpoints(endpoints)\n", "	return newBucketerFromEndpoints(append([]float64(nil), endpoints...))\n"))

# ---- C11: ranges
BB = '''	var pieces []*bucketPiece
	lower := endpoints[0]
	pieces = append(pieces, &bucketPiece{First: true, End: lower})
	for _, upper := range endpoints[1:] {
		pieces = append(
			pieces, &bucketPiece{Start: lower, End: upper})
		lower = upper
	}
	pieces = append(
		pieces, &bucketPiece{Last: true, Start: lower})
	return &Bucketer{pieces: pieces}
'''
bug("v-gap", "C11", (T, "		lower = upper\n	}\n	pieces = append(\n		pieces, &bucketPiece{Last", "		if upper > lower {\n			lower = upper\n		}\n	}\n	pieces = append(\n		pieces, &bucketPiece{Last"))
bug("v-last", "C11", (T, "&bucketPiece{Last: true, Start: lower})", "&bucketPiece{Last: true, Start: endpoints[0]})"))
bug("v-skip", "C11", (T, "	for _, upper := range endpoints[1:] {\n", "	for _, upper := range endpoints[1:] {\n		if upper == lower {\n			lower = 0\n			continue\n		}\n"))
bug("v-flag", "C11", (T, "&bucketPiece{Start: lower, End: upper})", "&bucketPiece{Start: lower, End: upper, Last: upper == endpoints[0]})"))
bug("v-nolast", "C11", (T, "&bucketPiece{Last: true, Start: lower})", "&bucketPiece{Start: lower, End: lower})"))
bug("v-rng", "C11", (T, "			Lower: ranges[i].Start,\n			Upper: ranges[i].End}", "			Lower: ranges[i].Start,\n			Upper: ranges[(i+1)%len(ranges)].Start}"))
bug("v-idx", "C11", (T, BB, '''	n := len(endpoints)
	pieces := make([]*bucketPiece, n+1)
	pieces[0] = &bucketPiece{First: true, End: endpoints[0]}
	for i := 2; i < n; i++ {
		pieces[i] = &bucketPiece{Start: endpoints[i-1], End: endpoints[i]}
	}
	pieces[n] = &bucketPiece{Last: true, Start: endpoints[n-1]}
	return &Bucketer{pieces: pieces}
'''))
bug("v-idx2", "C11", (T, BB, '''	n := len(endpoints)
	pieces := make([]*bucketPiece, n+1)
	pieces[0] = &bucketPiece{First: true, End: endpoints[0]}
	for i := 1; i < n; i++ {
		pieces[i] = &bucketPiece{Start: endpoints[0], End: endpoints[i]}
	}
	pieces[n] = &bucketPiece{Last: true, Start: endpoints[n-1]}
	return &Bucketer{pieces: pieces}
'''))
same("v-q-idx", "C11 C12", (T, BB, '''	n := len(endpoints)
	pieces := make([]*bucketPiece, n+1)
	pieces[0] = &bucketPiece{First: true, End: endpoints[0]}
	for i := 1; i < n; i++ {
		pieces[i] = &bucketPiece{Start: endpoints[i-1], End: endpoints[i]}
	}
	pieces[n] = &bucketPiece{Last: true, Start: endpoints[n-1]}
	return &Bucketer{pieces: pieces}
'''))
same("v-q-idx2", "C11 C12", (T, BB, '''	pieces := make([]*bucketPiece, len(endpoints)+1)
	lower := endpoints[0]
	pieces[0] = &bucketPiece{First: true, End: lower}
	for i := 1; i < len(endpoints); i++ {
		upper := endpoints[i]
		pieces[i] = &bucketPiece{Start: lower, End: upper}
		lower = upper
	}
	pieces[len(endpoints)] = &bucketPiece{Last: true, Start: lower}
	return &Bucketer{pieces: pieces}
'''))
same("v-q-for", "C11 C12", (T, BB, '''	last := len(endpoints) - 1
	pieces := make([]*bucketPiece, 0, len(endpoints)+1)
	pieces = append(pieces, &bucketPiece{First: true, End: endpoints[0]})
	for i := 0; i < last; i++ {
		piece := &bucketPiece{
			Start: endpoints[i],
			End:   endpoints[i+1],
		}
		pieces = append(pieces, piece)
	}
	pieces = append(pieces, &bucketPiece{Last: true, Start: endpoints[last]})
	return &Bucketer{pieces: pieces}
'''))
same("v-q-range", "C11 C12", (T, BB, '''	pieces := []*bucketPiece{{First: true, End: endpoints[0]}}
	for i := range endpoints[1:] {
		pieces = append(pieces, newPiece(endpoints[i], endpoints[i+1]))
	}
	pieces = append(pieces, &bucketPiece{Last: true, Start: endpoints[len(endpoints)-1]})
	return &Bucketer{pieces: pieces}
'''), (T, "func newBucketerFromEndpoints(", '''func newPiece(start, end float64) *bucketPiece {
	result := &bucketPiece{}
	result.Start = start
	result.End = end
	return result
}

func newBucketerFromEndpoints('''))
same("v-q-guard", "C11", (T, BB, '''	n := len(endpoints)
	pieces := make([]*bucketPiece, n+1)
	for i := range pieces {
		piece := &bucketPiece{First: i == 0, Last: i == n}
		if i > 0 {
			piece.Start = endpoints[i-1]
		}
		if i < n {
			piece.End = endpoints[i]
		}
		pieces[i] = piece
	}
	return &Bucketer{pieces: pieces}
'''))

# --- lists (C15, C16) ---------------------------------------------------------
bug("w-mutable-flipped", "C15", (T, "	} else if sliceIsMutable {\n", "	} else if !sliceIsMutable {\n"))
bug("w-short-copy", "C15", (T, "	reflect.Copy(result, value)\n", "	reflect.Copy(result, value.Slice(0, value.Cap()))\n"))
bug("w-change-trusts", "C15", (T, """	value, subType := asSliceValue(aSlice, sliceIsMutable)
	if subType != l.subType {""", """	value, subType := asSliceValue(aSlice, false)
	if subType != l.subType {"""))
bug("w-reversed", "C15", (T, "					value.Index(i),\n", "					value.Index(length-1-i),\n"))
bug("w-by-kind", "C15", (T, "	if value.Type() != sliceType {", "	if value.Type().Elem().Kind() != sliceType.Elem().Kind() {"))
bug("w-cap-only", "C15", (T, "	} else if sliceIsMutable {\n		value = copySlice(value)", "	} else if sliceIsMutable && value.Len() == value.Cap() {\n		value = copySlice(value)"))
bug("w-narrow16", "C15", (T, "		return int16(value.Int())", "		return int16(int8(value.Int()))"))
bug("w-first-skipped", "C15", (T, "	for i := 0; i < length; i++ {\n		defensiveCopy", "	for i := 1; i < length; i++ {\n		defensiveCopy"))
bug("w-reslice", "C15", (T, "		value = copySlice(value)\n", "		value = value.Slice(0, value.Len())\n"))
bug("w-store-first", "C16", (T, """	if subType != l.subType {
		panic(panicListSubTypeChanging)
	}
	l.lock.Lock()
	defer l.lock.Unlock()
	l.aSlice = value
	l.timeStamp = ts
""", """	l.lock.Lock()
	defer l.lock.Unlock()
	l.timeStamp = ts
	if subType != l.subType {
		panic(panicListSubTypeChanging)
	}
	l.aSlice = value
"""))
bug("w-kind-follows", "C16", (T, """	if subType != l.subType {
		panic(panicListSubTypeChanging)
	}
	l.lock.Lock()
	defer l.lock.Unlock()
""", """	l.lock.Lock()
	defer l.lock.Unlock()
	if subType != l.subType {
		if l.aSlice.Len() > 0 {
			panic(panicListSubTypeChanging)
		}
		l.subType = subType
	}
"""))
bug("w-two-reads", "C16", (T, """	l.lock.RLock()
	defer l.lock.RUnlock()
	return l.aSlice, l.timeStamp
""", """	l.lock.RLock()
	value = l.aSlice
	l.lock.RUnlock()
	l.lock.RLock()
	defer l.lock.RUnlock()
	return value, l.timeStamp
"""))
bug("w-two-writes", "C16", (T, """	defer l.lock.Unlock()
	l.aSlice = value
	l.timeStamp = ts
""", """	l.aSlice = value
	l.lock.Unlock()
	l.lock.Lock()
	defer l.lock.Unlock()
	l.timeStamp = ts
"""))
bug("w-as-slice-twice", "C16", (T, """	value, ts := l.get()
	return value.Interface(), ts
""", """	value, _ := l.get()
	_, ts := l.get()
	return value.Interface(), ts
"""))
bug("w-bits-only", "C16", (T, "	if subType != l.subType {\n", "	if subType.Bits() != l.subType.Bits() {\n"))
bug("w-lock-left", "C16", (T, """	if subType != l.subType {
		panic(panicListSubTypeChanging)
	}
	l.lock.Lock()
	defer l.lock.Unlock()
	l.aSlice = value
	l.timeStamp = ts
""", """	l.lock.Lock()
	if subType != l.subType {
		panic(panicListSubTypeChanging)
	}
	l.aSlice = value
	l.timeStamp = ts
	l.lock.Unlock()
"""))
bug("w-empty-untimed", "C16", (T, """	l.aSlice = value
	l.timeStamp = ts
""", """	l.aSlice = value
	if value.Len() > 0 {
		l.timeStamp = ts
	}
"""))
LISTS = "C15 C16 C06"
same("w-append-copy", LISTS, (T, """	result := reflect.MakeSlice(value.Type(), value.Len(), value.Len())
	reflect.Copy(result, value)
	return result
""", """	empty := reflect.MakeSlice(value.Type(), 0, value.Len())
	return reflect.AppendSlice(empty, value)
"""))
same("w-convert-method", LISTS, (T, """		defensiveCopy.Index(i).Set(
			reflect.ValueOf(
				valueToInterface(
					value.Index(i),
					t,
					false)))
""", """		defensiveCopy.Index(i).Set(value.Index(i).Convert(sliceType.Elem()))
"""))
same("w-append-convert", LISTS, (T, """	defensiveCopy := reflect.MakeSlice(sliceType, length, length)
	for i := 0; i < length; i++ {
		defensiveCopy.Index(i).Set(
			reflect.ValueOf(
				valueToInterface(
					value.Index(i),
					t,
					false)))
	}
""", """	defensiveCopy := reflect.MakeSlice(sliceType, 0, length)
	for i := 0; i < length; i++ {
		elem := valueToInterface(value.Index(i), t, false)
		defensiveCopy = reflect.Append(defensiveCopy, reflect.ValueOf(elem))
	}
"""))
same("w-early-return", LISTS, (T, """	if value.Type() != sliceType {
		value = convertSlice(value, t, sliceType)
	} else if sliceIsMutable {
		value = copySlice(value)
	}
	return
""", """	switch {
	case value.Type() != sliceType:
		return convertSlice(value, t, sliceType), t
	case sliceIsMutable:
		return copySlice(value), t
	}
	return value, t
"""))
same("w-explicit-unlock", LISTS, (T, """	l.lock.Lock()
	defer l.lock.Unlock()
	l.aSlice = value
	l.timeStamp = ts
}
""", """	l.set(value, ts)
}

func (l *listType) set(value reflect.Value, ts time.Time) {
	l.lock.Lock()
	l.timeStamp = ts
	l.aSlice = value
	l.lock.Unlock()
}
"""), (T, """	l.lock.RLock()
	defer l.lock.RUnlock()
	return l.aSlice, l.timeStamp
""", """	l.lock.RLock()
	value, ts = l.aSlice, l.timeStamp
	l.lock.RUnlock()
	return
"""))
same("w-check-locked", LISTS, (T, """	if subType != l.subType {
		panic(panicListSubTypeChanging)
	}
	l.lock.Lock()
	defer l.lock.Unlock()
""", """	l.lock.Lock()
	defer l.lock.Unlock()
	if l.subType != subType {
		panic(panicListSubTypeChanging)
	}
"""))
same("w-always-copy", LISTS, (T, "	} else if sliceIsMutable {\n", "	} else if sliceIsMutable || value.Len() < 16 {\n"))
same("w-down", LISTS, (T, "	for i := 0; i < length; i++ {\n		defensiveCopy", "	for i := length - 1; i >= 0; i-- {\n		defensiveCopy"))

# --- C20 ---
bug("v-bits-list", "C20", (T, "		return v.alist.SubType().Bits()\n", "		return v.valType.Bits()\n"))
bug("v-named-int8", "C20", (T, "		return int8(value.Int())\n", "		return value.Interface()\n"))
bug("v-f32", "C20", (T, "		return float32(value.Float())\n", "		return value.Float()\n"))
bug("v-u16-narrow", "C20", (T, "		return uint16(value.Uint())\n", "		return uint16(uint8(value.Uint()))\n"))
bug("v-int-32", "C20", (T, "			case 64:\n				return types.Int64, false, true\n", "			case 64:\n				return types.Int32, false, true\n"))
bug("v-uint-as-int", "C20", (T, "		case reflect.Uint16:\n			return types.Uint16, false, true\n", "		case reflect.Uint16:\n			return types.Uint32, false, true\n"))
bug("v-flag-ptr", "C20", (T, "		return &value{\n			val:           valFunc,\n			unit:          unit,\n			region:        region,\n			valType:       valType,\n			isfunc:        true,\n			isValAPointer: isValAPointer}, nil\n", "		return &value{\n			val:           valFunc,\n			unit:          unit,\n			region:        region,\n			valType:       valType,\n			isfunc:        true}, nil\n"))
bug("v-flag-text", "C20", (T, "			valFunc = reflect.ValueOf(flagGetter.String)\n", "			valFunc = reflect.ValueOf(flagGetter.Get)\n"))
bug("v-func-args", "C20", (T, "		if t.NumIn() > 1 || (t.NumIn() == 1 && !t.IsVariadic()) {\n			return nil, ErrWrongType\n		}\n", ""))
bug("v-nil-time", "C20", (T, "		if p == nil {\n			return\n		}\n		return *p\n", "		return *p\n"))
bug("v-sub", "C20", (T, "	metric.SubType = v.SubType()\n", ""))
bug("v-uintptr", "C20", (T, "		case reflect.Uint64:\n			return types.Uint64", "		case reflect.Uint64, reflect.Complex64:\n			return types.Uint64"))
same("v-q-uintptr", "C20", (T, "		case reflect.Uint64:\n			return types.Uint64", "		case reflect.Uint64, reflect.Uintptr:\n			return types.Uint64"))
same("v-q-conv", "C20", (T, "		return int8(value.Int())\n", "		n := value.Int()\n		return int8(int16(n))\n"))
same("v-q-convert", "C20", (T, "		return value.String()\n	default", "		return value.Convert(reflect.TypeOf(\"\")).Interface()\n	default"))
same("v-q-elem", "C20", (T, "	v = v.Elem()\n	valType, isValAPointer, ok := getPrimitiveType(v.Type())\n", "	v = reflect.Indirect(v)\n	t = v.Type()\n	valType, isValAPointer, ok := getPrimitiveType(t)\n"))

# --- C21 ---
bug("s-text-dur", "C21", (T, "	case t == types.GoDuration && !isValueAPointer:\n		return duration.New(\n			valueToGoDuration(value)).StringUsingUnits(u)\n", ""))
bug("s-html-time", "C21", (T, "		t := valueToTime(value, isValueAPointer).UTC()\n", "		t := valueToTime(value, false).UTC()\n"))
bug("s-html-uint", "C21", (T, "			return uCompactForm(\n				value.Uint(), 1000, suffixes)\n", "			return iCompactForm(\n				value.Int(), 1000, suffixes)\n"))
bug("s-text-ptr", "C21", (T, "	case t == types.GoTime:\n		return timeToDuration(", "	case t == types.GoTime && !isValueAPointer:\n		return timeToDuration("))
bug("s-list-text", "C21", (T, "		result[i] = valueToTextString(\n			value.Index(i), l.subType, unit, false)\n", "		result[i] = valueToTextString(\n			value.Index(i), l.subType, unit, l.subType == types.GoTime)\n"))
same("s-q-text", "C21", (T, "	case t == types.Bool:\n		if value.Bool() {\n			return \"true\"\n		}\n		return \"false\"\n", "	case t == types.Bool:\n		return strconv.FormatBool(value.Bool())\n"))
same("s-q-merge", "C21", (T, "	case t == types.Float32 && !isValueAPointer:\n		return strconv.FormatFloat(value.Float(), 'f', -1, 32)\n	case t == types.Float64 && !isValueAPointer:\n		return strconv.FormatFloat(value.Float(), 'f', -1, 64)\n", "	case t.IsFloat() && !isValueAPointer:\n		return strconv.FormatFloat(value.Float(), 'f', -1, t.Bits())\n"))
same("s-q-helper", "C21", (T, "func (v *value) AsHtmlString(s *session) string {\n	if !v.canEvaluate() {\n		panic(panicSingleValueExpected)\n	}\n", "func (v *value) mustBeSingle() {\n	if !v.canEvaluate() {\n		panic(panicSingleValueExpected)\n	}\n}\n\nfunc (v *value) AsHtmlString(s *session) string {\n	v.mustBeSingle()\n"))
bug("s-table-short", "C21", (T, " PiB\", \" EiB\"", " PiB\""))
same("s-q-table", "C21", (T, "	for fx >= fradix {\n		fx /= fradix\n		idx++\n	}\n	switch {\n	case fx < 9.995", "	for ; fx >= fradix; idx++ {\n		fx = fx / fradix\n	}\n	switch {\n	case fx < 9.995"))
same("s-q-table2", "C21", (T, "	for fx >= fradix {\n		fx /= fradix\n		idx++\n	}\n	switch {\n	case fx < 9.995", "	for idx < len(suffixes)-1 && fx >= fradix {\n		fx = fx / fradix\n		idx++\n	}\n	switch {\n	case fx < 9.995"))
bug("s-table-loop", "C21", (T, "	for fx >= fradix {\n		fx /= fradix\n		idx++\n	}\n	switch {\n	case fx < 9.995", "	for fx >= 100 {\n		fx /= 100\n		idx++\n	}\n	switch {\n	case fx < 9.995"))

# --- C23, C24 ---
MM = "tricorder/messages/metric.go"
bug("m-json-unit", "C23", (MM, "				jsonDurations[i] = durationAsString(\n					durations[i], unit)\n", "				jsonDurations[i] = durationAsString(\n					durations[i], units.Second)\n"))
bug("m-json-subkind", "C23", (MM, "			jsonSubType = types.Time\n", "			jsonSubType = subType\n"))
bug("m-json-nil", "C23", (MM, "			if reflect.ValueOf(value).IsNil() {\n				jsonValue = reflect.MakeSlice(reflect.TypeOf(value), 0, 0).Interface()\n			} else {\n				jsonValue = value\n			}\n", "			jsonValue = value\n"))
bug("m-json-off", "C23", (MM, "			for i := range jsonTimes {\n				jsonTimes[i] = timeAsString(times[i], unit)\n", "			for i := range jsonTimes {\n				if i > 0 && times[i] == times[0] {\n					continue\n				}\n				jsonTimes[i] = timeAsString(times[i], unit)\n"))
bug("m-json-stamp", "C23", (MM, "		m.TimeStamp = duration.SinceEpoch(i).String()\n", "		m.TimeStamp = timeAsString(i, m.Unit)\n"))
bug("m-json-zero", "C23", (MM, "	if !gotime.IsZero() {\n		dur = duration.SinceEpoch(gotime)\n	}\n", "	dur = duration.SinceEpoch(gotime)\n"))
bug("m-json-twice", "C23", (MM, "	case string:\n		// Do nothing we are already in json format\n", "	case string:\n		if t, err := stringAsTime(i, units.Second); err == nil {\n			m.TimeStamp = timeAsString(t, m.Unit)\n		}\n"))
bug("m-json-bits", "C23", (MM, "	m.Value, m.Kind, m.SubType = asJson(m.Value, m.Kind, m.SubType, m.Unit)\n", "	m.Value, m.Kind, m.SubType = asJson(m.Value, m.Kind, m.SubType, m.Unit)\n	if m.Kind == types.Duration {\n		m.Bits = 0\n	}\n"))
same("m-q-helper", "C23 C24", (MM, "func (m *Metric) convertToJson() {\n	m.Value, m.Kind, m.SubType = asJson(m.Value, m.Kind, m.SubType, m.Unit)\n	switch i := m.TimeStamp.(type) {\n	case nil:\n		m.TimeStamp = \"\"\n	case time.Time:\n		m.TimeStamp = duration.SinceEpoch(i).String()\n	case string:\n		// Do nothing we are already in json format\n	default:\n		m.TimeStamp = fmt.Sprintf(\"%v\", i)\n	}\n}\n", "func stampAsText(ts interface{}) string {\n	if ts == nil {\n		return \"\"\n	}\n	if s, ok := ts.(string); ok {\n		return s\n	}\n	t, ok := ts.(time.Time)\n	if !ok {\n		return fmt.Sprint(ts)\n	}\n	return duration.SinceEpoch(t).String()\n}\n\nfunc (m *Metric) convertToJson() {\n	value, kind, sub := asJson(m.Value, m.Kind, m.SubType, m.Unit)\n	*m = Metric{Path: m.Path, Description: m.Description, Unit: m.Unit, Kind: kind, SubType: sub, Bits: m.Bits, Value: value, TimeStamp: stampAsText(m.TimeStamp), GroupId: m.GroupId}\n}\n"))
same("m-q-append", "C23", (MM, "			jsonTimes := make([]string, len(times))\n			for i := range jsonTimes {\n				jsonTimes[i] = timeAsString(times[i], unit)\n			}\n", "			jsonTimes := make([]string, 0, len(times))\n			for _, t := range times {\n				jsonTimes = append(jsonTimes, timeAsString(t, unit))\n			}\n"))
same("m-q-down", "C23", (MM, "			for i := range jsonDurations {\n", "			for i := len(durations) - 1; i >= 0; i-- {\n"))
bug("m-rpc-partial", "C24", (MM, "	var newTimeStamp interface{}\n	switch i := m.TimeStamp.(type) {\n	case nil, time.Time:", "	m.Value, m.Kind, m.SubType = v, k, s\n	var newTimeStamp interface{}\n	switch i := m.TimeStamp.(type) {\n	case nil, time.Time:"))
bug("m-rpc-swallow", "C24", (MM, "				goRPCTimes[i], err = stringAsTime(valueSlice[i], unit)\n				if err != nil {\n					return\n				}\n", "				if t, e := stringAsTime(valueSlice[i], unit); e == nil {\n					goRPCTimes[i] = t\n				}\n"))
bug("m-rpc-shadow", "C24", (MM, "			newTimeStamp, err = stringAsTime(i, units.Second)\n			if err != nil {\n				return err\n			}\n", "			newTimeStamp, _ = stringAsTime(i, units.Second)\n"))
bug("m-rpc-unit", "C24", (MM, "		goRPCValue, err = stringAsTime(valueStr, unit)\n", "		goRPCValue, err = stringAsTime(valueStr, units.Second)\n"))
bug("m-rpc-last", "C24", (MM, "				goRPCDurations[i], err = stringAsDuration(valueSlice[i], unit)\n				if err != nil {\n					return\n				}\n			}\n", "				goRPCDurations[i], err = stringAsDuration(valueSlice[i], unit)\n			}\n			if err != nil {\n				return\n			}\n"))
bug("m-rpc-panic", "C24", (MM, "	valueSlice, ok := value.([]string)\n	if !ok {\n		err = fmt.Errorf(\"Value '%v' not a string slice\", value)\n	}\n	return\n", "	return value.([]string), nil\n"))
bug("m-rpc-tsother", "C24", (MM, "		return fmt.Errorf(\"Unrecognised value in timestamp field: '%v'\", i)\n", "		newTimeStamp = i\n"))
bug("m-rpc-kind", "C24", (MM, "			goRPCSubType = types.GoTime\n", "			goRPCSubType = subType\n"))
same("m-q-rpc", "C24", (MM, "	var newTimeStamp interface{}\n	switch i := m.TimeStamp.(type) {\n	case nil, time.Time:\n		// already in go rpc format\n		newTimeStamp = i\n	case string:\n		if i == \"\" {\n			newTimeStamp = nil\n		} else {\n			newTimeStamp, err = stringAsTime(i, units.Second)\n			if err != nil {\n				return err\n			}\n		}\n	default:\n		return fmt.Errorf(\"Unrecognised value in timestamp field: '%v'\", i)\n	}\n	m.Value, m.Kind, m.SubType = v, k, s\n	m.TimeStamp = newTimeStamp\n	return nil\n", "	ts, err := stampAsGo(m.TimeStamp)\n	if err != nil {\n		return err\n	}\n	m.TimeStamp = ts\n	m.Value, m.Kind, m.SubType = v, k, s\n	return nil\n"), (MM, "func timeAsString(", "func stampAsGo(ts interface{}) (interface{}, error) {\n	switch i := ts.(type) {\n	case nil:\n		return nil, nil\n	case time.Time:\n		return i, nil\n	case string:\n		if len(i) == 0 {\n			return nil, nil\n		}\n		t, err := stringAsTime(i, units.Second)\n		if err != nil {\n			return nil, err\n		}\n		return t, nil\n	}\n	return nil, fmt.Errorf(\"Unrecognised value in timestamp field: '%v'\", ts)\n}\n\nfunc timeAsString("))
same("m-q-rpclist", "C24", (MM, "			goRPCTimes := make([]time.Time, len(valueSlice))\n			for i := range goRPCTimes {\n				goRPCTimes[i], err = stringAsTime(valueSlice[i], unit)\n				if err != nil {\n					return\n				}\n			}\n", "			goRPCTimes := make([]time.Time, len(valueSlice))\n			for i, text := range valueSlice {\n				t, e := stringAsTime(text, unit)\n				if e != nil {\n					err = e\n					return\n				}\n				goRPCTimes[i] = t\n			}\n"))

# --- C28 ---
HSI = "healthserver/impl.go"
bug("e-html-type", "C28", (H, "func (v *htmlView) AsHtmlString() string {\n	return v.Metric.AsHtmlString(v.Session)\n", "func (v *htmlView) AsHtmlString() template.HTML {\n	return template.HTML(v.Metric.AsHtmlString(v.Session))\n"))
bug("e-text-template", "C28", (H, "	\"html/template\"\n", "	\"text/template\"\n"))
bug("e-url", "C28", (H, "func (v *htmlView) Link(d *directory) string {\n	return htmlUrl + d.AbsPath()\n", "func (v *htmlView) Link(d *directory) template.URL {\n	return template.URL(htmlUrl + d.AbsPath())\n"))
bug("e-err", "C28", ("tricorder/http.go", "	fmt.Fprintln(w, \"Error in template.\")\n", "	fmt.Fprintln(w, \"Error in template:\", err)\n"))
bug("e-missing", "C28", (H, "		fmt.Fprintf(w, \"Path does not exist.\")\n", "		fmt.Fprintf(w, \"<html><body>Path %s does not exist.</body></html>\", path)\n"))
bug("e-missing-sprintf", "C28", (H, "		fmt.Fprintf(w, \"Path does not exist.\")\n", "		w.Write([]byte(fmt.Sprintf(\"<html><body>Path %s does not exist.</body></html>\", path)))\n"))
bug("e-list", "C28", (H, "func (v *htmlView) HtmlStrings() interface{} {\n	return v.Metric.AsList().HtmlStrings(v.Metric.Unit())\n", "func (v *htmlView) HtmlStrings() interface{} {\n	var result []template.HTML\n	for _, s := range v.Metric.AsList().HtmlStrings(v.Metric.Unit()) {\n		result = append(result, template.HTML(strings.Replace(s, \"\\n\", \"<br>\", -1)))\n	}\n	return result\n"))
bug("e-maybe", "C28", (H, "func (v *htmlView) AsHtmlString() string {\n	return v.Metric.AsHtmlString(v.Session)\n", "func (v *htmlView) AsHtmlString() interface{} {\n	s := v.Metric.AsHtmlString(v.Session)\n	if strings.Contains(s, \"\\n\") {\n		return template.HTML(\"<pre>\" + s + \"</pre>\")\n	}\n	return s\n"))
bug("e-desc", "C28", (H, "func (v *htmlView) HasUnit() bool {", "func (v *htmlView) Description() template.HTML {\n	return template.HTML(v.Metric.Description)\n}\n\nfunc (v *htmlView) HasUnit() bool {"), (H, "(list of {{$top.HtmlType .Metric.SubType}}: {{.Metric.Description}}", "(list of {{$top.HtmlType .Metric.SubType}}: {{.Description}}"))
bug("e-text-html", "C28", (H, "		w.Header().Set(\"Content-Type\", \"text/plain\")\n", "		w.Header().Set(\"Content-Type\", \"text/html\")\n"))
bug("e-health", "C28", (HSI, "		http.Error(w, status, http.StatusServiceUnavailable)\n", "		w.WriteHeader(http.StatusServiceUnavailable)\n		w.Write([]byte(status + \"\\n\"))\n"))
bug("e-funcs", "C28", (H, "template.New(\"browser\").Parse(", "template.New(\"browser\").Funcs(template.FuncMap{\"raw\": func(s string) template.HTML { return template.HTML(s) }}).Parse("), (H, "{{.Metric.AbsPath}} {{.AsHtmlString}}", "{{.Metric.AbsPath}} {{raw .AsHtmlString}}"))
bug("e-buffer", "C28", (H, "		fmt.Fprintf(w, \"Path does not exist.\")\n", "		var sb strings.Builder\n		fmt.Fprintf(&sb, \"<p>%s does not exist.</p>\", path)\n		io.WriteString(w, sb.String())\n"))
same("e-q-missing", "C28", (H, "		fmt.Fprintf(w, \"Path does not exist.\")\n", "		fmt.Fprintf(w, \"Path %s does not exist.\", template.HTMLEscapeString(path))\n"))
same("e-q-buffer", "C28 C29 C21", (H, "	v := &htmlView{Directory: d, Session: s}\n	if err := htmlTemplate.Execute(w, v); err != nil {\n		return err\n	}\n	return nil\n", "	var buffer strings.Builder\n	if err := htmlTemplate.Execute(&buffer, &htmlView{Directory: d, Session: s}); err != nil {\n		return err\n	}\n	_, err := io.WriteString(w, buffer.String())\n	return err\n"))
same("e-q-desc", "C28 C21", (H, "func (v *htmlView) HasUnit() bool {", "func (v *htmlView) Description() string {\n	return v.Metric.Description\n}\n\nfunc (v *htmlView) HasUnit() bool {"), (H, "(list of {{$top.HtmlType .Metric.SubType}}: {{.Metric.Description}}", "(list of {{$top.HtmlType .Metric.SubType}}: {{.Description}}"))
same("e-q-const", "C28 C29", (H, "		fmt.Fprintf(w, \"Path does not exist.\")\n", "		io.WriteString(w, \"Path does not exist.\")\n"), (H, "	w.Write(hasTricorderBody)\n", "	fmt.Fprint(w, string(hasTricorderBody))\n"))
same("e-q-br", "C28", (H, "func (v *htmlView) AsHtmlString() string {\n	return v.Metric.AsHtmlString(v.Session)\n", "func (v *htmlView) AsHtmlString() template.HTML {\n	return template.HTML(\"<b>\" + template.HTMLEscapeString(v.Metric.AsHtmlString(v.Session)) + \"</b>\")\n"))

# --- C19 ---
LOOP = "	for _, entry := range d.List() {\n		if entry.Directory != nil {\n			err = entry.Directory.GetAllMetrics(collector, s)\n		} else {\n			err = collect(entry.Metric, s, collector)\n		}\n		if err != nil {\n			return\n		}\n	}\n	return\n"
UNS = "	result := make([]*listEntry, len(d.contents))\n	idx := 0\n	for _, n := range d.contents {\n		result[idx] = n\n		idx++\n	}\n	return result\n"
bug("l-filter", "C19", (T, UNS, "	result := make([]*listEntry, 0, len(d.contents))\n	for name, n := range d.contents {\n		if name[0] == '.' {\n			continue\n		}\n		result = append(result, n)\n	}\n	return result\n"))
bug("l-filterdir", "C19", (T, UNS, "	var result []*listEntry\n	for _, n := range d.contents {\n		if n.Directory != nil && len(n.Directory.contents) == 0 {\n			continue\n		}\n		result = append(result, n)\n	}\n	return result\n"))
bug("l-break", "C19", (T, LOOP, LOOP.replace("		if err != nil {\n			return\n", "		if err != nil {\n			err = nil\n			break\n")))
bug("l-less", "C19", (T, "	return b[i].Name < b[j].Name\n", "	return b[i].Name > b[j].Name\n"))
bug("l-lessfold", "C19", (T, "	return b[i].Name < b[j].Name\n", "	return strings.ToLower(b[i].Name) < strings.ToLower(b[j].Name)\n"))
bug("l-lessdir", "C19", (T, "	return b[i].Name < b[j].Name\n", "	if (b[i].Directory != nil) != (b[j].Directory != nil) {\n		return b[i].Directory != nil\n	}\n	return b[i].Name < b[j].Name\n"))
bug("l-lesslen", "C19", (T, "	return b[i].Name < b[j].Name\n", "	if len(b[i].Name) != len(b[j].Name) {\n		return len(b[i].Name) < len(b[j].Name)\n	}\n	return b[i].Name < b[j].Name\n"))
bug("l-nosort", "C19", (T, LOOP, LOOP.replace("d.List()", "d.listUnsorted()")))
bug("l-swallow", "C19", (T, LOOP, LOOP.replace("		if err != nil {\n			return\n		}\n", "")))
bug("l-swallowdir", "C19", (T, LOOP, LOOP.replace("			err = entry.Directory.GetAllMetrics(collector, s)\n", "			entry.Directory.GetAllMetrics(collector, s)\n")))
bug("l-skiplist", "C19", (T, "	if m.IsInfNaN(s) {\n		return nil\n	}\n	return coll", "	if m.IsInfNaN(s) || m.Type() == types.List && m.AsList().len() == 0 {\n		return nil\n	}\n	return coll"), (T, "func collect(", "func (l *listType) len() int {\n	l.lock.RLock()\n	defer l.lock.RUnlock()\n	return l.aSlice.Len()\n}\n\nfunc collect("))
bug("l-skipempty", "C19", (T, "	return coll.Collect(m, s)\n", "	if m.Type() == types.String && m.AsString(s) == \"\" {\n		return nil\n	}\n	return coll.Collect(m, s)\n"))
bug("l-skipdist", "C19", (T, "	return coll.Collect(m, s)\n", "	if m.Type() == types.Dist && m.AsDistribution().Snapshot().Count == 0 {\n		return nil\n	}\n	return coll.Collect(m, s)\n"))
bug("l-skipneg", "C19", (T, "	return math.IsNaN(val) || math.IsInf(val, 0)\n", "	return math.IsNaN(val) || math.Abs(val) >= math.MaxFloat32\n"))
bug("l-first", "C19", (T, LOOP, LOOP.replace("	for _, entry := range d.List() {\n", "	list := d.List()\n	for range list {\n		entry := list[0]\n")))
bug("l-twice", "C19", (T, "	if m.IsInfNaN(s) {\n		return nil\n	}\n	return coll", "	if m.IsInfNaN(s) {\n		return nil\n	}\n	if m.Type() == types.Dist {\n		if err := coll.Collect(m, s); err != nil {\n			return err\n		}\n	}\n	return coll"))
bug("l-skiplast", "C19", (T, LOOP, LOOP.replace("	for _, entry := range d.List() {\n", "	list := d.List()\n	for i := 0; i < len(list)-1; i++ {\n		entry := list[i]\n")))
bug("l-jsonskip", "C19", ("tricorder/json.go", "	*c = append(*c, jsonMetric)\n", "	if jsonMetric.Value == \"\" {\n		return nil\n	}\n	*c = append(*c, jsonMetric)\n"))
bug("l-jsonerr", "C19", ("tricorder/json.go", "	if _, err := json.Marshal(jsonMetric); err != nil {\n		return nil\n	}\n	*c = append(*c, jsonMetric)\n", "	if _, err := json.Marshal(jsonMetric); err == nil && len(*c) < 10000 {\n		*c = append(*c, jsonMetric)\n	}\n"))
bug("l-rpccap", "C19", ("tricorder/rpc.go", "	*c = append(*c, rpcAsMetric(m, s))\n", "	if len(*c) >= 1000 {\n		return nil\n	}\n	*c = append(*c, rpcAsMetric(m, s))\n"))
bug("l-single", "C19", (T, "	if m != nil {\n		if s == nil {\n			s = newSession()\n			defer s.Close()\n		}\n		return collect(m, s, collector)\n	} else if", "	if m != nil {\n		if s == nil {\n			s = newSession()\n			defer s.Close()\n		}\n		if m.Type() == types.List {\n			return nil\n		}\n		return collect(m, s, collector)\n	} else if"))
same("l-q-slice", "C19", (T, "	sort.Sort(byName(listEntries))\n", "	sort.Slice(listEntries, func(i, j int) bool { return listEntries[i].Name < listEntries[j].Name })\n"))
same("l-q-stable", "C19", (T, "	sort.Sort(byName(listEntries))\n	return listEntries\n", "	b := byName(listEntries)\n	sort.Stable(b)\n	return b\n"))
same("l-q-append", "C19", (T, UNS, "	result := make([]*listEntry, 0, len(d.contents))\n	for _, n := range d.contents {\n		result = append(result, n)\n	}\n	return result\n"))
same("l-q-appendnil", "C19", (T, UNS, "	var result []*listEntry\n	for name := range d.contents {\n		result = append(result, d.contents[name])\n	}\n	return result\n"))
same("l-q-style", "C19", (T, LOOP, "	entries := d.List()\n	for i := 0; i < len(entries); i++ {\n		if err := collectEntry(entries[i], collector, s); err != nil {\n			return err\n		}\n	}\n	return nil\n"), (T, "func (d *directory) listUnsorted()", "func collectEntry(e *listEntry, c metricsCollector, s *session) error {\n	if dir := e.Directory; dir != nil {\n		return dir.GetAllMetrics(c, s)\n	}\n	return collect(e.Metric, s, c)\n}\n\nfunc (d *directory) listUnsorted()"))
same("l-q-cont", "C19", (T, LOOP, "	for _, entry := range d.List() {\n		if entry.Directory == nil {\n			if err = collect(entry.Metric, s, collector); err != nil {\n				return err\n			}\n			continue\n		}\n		if err = entry.Directory.GetAllMetrics(collector, s); err != nil {\n			return err\n		}\n	}\n	return nil\n"))
same("l-q-collect", "C19", (T, "	if m.IsInfNaN(s) {\n		return nil\n	}\n	return coll.Collect(m, s)\n", "	if !m.IsInfNaN(s) {\n		return coll.Collect(m, s)\n	}\n	return nil\n"))
same("l-q-isinf", "C19", (T, "	return math.IsNaN(val) || math.IsInf(val, 0)\n", "	switch {\n	case math.IsNaN(val):\n		return true\n	case math.IsInf(val, 1), math.IsInf(val, -1):\n		return true\n	}\n	return false\n"))
same("l-q-list", "C19", (T, "	return sortListEntries(d.listUnsorted())\n", "	entries := d.listUnsorted()\n	sort.Sort(byName(entries))\n	return entries\n"), (T, "func sortListEntries(listEntries []*listEntry) []*listEntry {\n	sort.Sort(byName(listEntries))\n	return listEntries\n}\n\n", ""))
same("l-q-rec", "C19", (T, LOOP, "	return d.walk(collector, s)\n}\n\nfunc (d *directory) walk(collector metricsCollector, s *session) error {\n	for _, entry := range d.List() {\n		var err error\n		switch {\n		case entry.Directory != nil:\n			err = entry.Directory.walk(collector, s)\n		default:\n			err = collect(entry.Metric, s, collector)\n		}\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n"))
bug("l-swallowcollect", "C19", (T, LOOP, LOOP.replace("			err = collect(entry.Metric, s, collector)\n", "			collect(entry.Metric, s, collector)\n")))
bug("l-texterr", "C19", (H, "	if _, err = fmt.Fprintf(c.W, \"%s \", m.AbsPath()); err != nil {\n		return\n	}\n	return textEmitMetric(m, s, c.W)\n", "	if _, err = fmt.Fprintf(c.W, \"%s \", m.AbsPath()); err != nil {\n		return\n	}\n	textEmitMetric(m, s, c.W)\n	return\n"))

# --- C36 ---
CL = "tricorderclient/tricorderclient.go"
bug("k-reuse", "C36", (CL, "	var missing messages.Metric\n", ""), (CL, "\"/proc/foo/ddd\", &missing)", "\"/proc/foo/ddd\", &single)"), (CL, "metric\", missing)", "metric\", single)"))
bug("k-reuselist", "C36", (CL, "	var dirMetrics messages.MetricList\n", "	dirMetrics := metrics[:0]\n"))
bug("k-copy", "C36", (CL, "	var squares messages.Metric\n", "	squares := single\n"))
bug("k-noelse", "C36", (CL, "		log.Println(\"Got error for /list/squares:\", err)\n	} else {\n		printAsJson(\"/list/squares metric\", squares)\n	}\n", "		log.Println(\"Got error for /list/squares:\", err)\n	}\n	printAsJson(\"/list/squares metric\", squares)\n"))
bug("k-stderr", "C36", (CL, "	buffer.WriteTo(os.Stdout)\n", "	buffer.WriteTo(os.Stderr)\n"))
bug("k-errold", "C36", (CL, "	err = client.Call(\"MetricsServer.GetMetric\", \"/list/squares\", &squares)\n", "	client.Call(\"MetricsServer.GetMetric\", \"/list/squares\", &squares)\n"))
bug("k-wrongvar", "C36", (CL, "printAsJson(\"aaa/bbb metrics\", dirMetrics)", "printAsJson(\"aaa/bbb metrics\", metrics)"))
bug("k-loopvar", "C36", (CL, "	var missing messages.Metric\n	err = client.Call(\"MetricsServer.GetMetric\", \"/proc/foo/ddd\", &missing)\n	if err != nil {\n		log.Println(\"Got error for /proc/foo/ddd:\", err)\n	} else {\n		printAsJson(\"/proc/foo/ddd metric\", missing)\n	}\n\n	var squares messages.Metric\n	err = client.Call(\"MetricsServer.GetMetric\", \"/list/squares\", &squares)\n	if err != nil {\n		log.Println(\"Got error for /list/squares:\", err)\n	} else {\n		printAsJson(\"/list/squares metric\", squares)\n	}\n", "	var reply messages.Metric\n	for _, path := range []string{\"/proc/foo/ddd\", \"/list/squares\"} {\n		if err := client.Call(\"MetricsServer.GetMetric\", path, &reply); err != nil {\n			log.Println(\"Got error for \"+path+\":\", err)\n			continue\n		}\n		printAsJson(path+\" metric\", reply)\n	}\n"))
same("k-q-loop", "C36", (CL, "	var missing messages.Metric\n	err = client.Call(\"MetricsServer.GetMetric\", \"/proc/foo/ddd\", &missing)\n	if err != nil {\n		log.Println(\"Got error for /proc/foo/ddd:\", err)\n	} else {\n		printAsJson(\"/proc/foo/ddd metric\", missing)\n	}\n\n	var squares messages.Metric\n	err = client.Call(\"MetricsServer.GetMetric\", \"/list/squares\", &squares)\n	if err != nil {\n		log.Println(\"Got error for /list/squares:\", err)\n	} else {\n		printAsJson(\"/list/squares metric\", squares)\n	}\n", "	for _, path := range []string{\"/proc/foo/ddd\", \"/list/squares\"} {\n		var reply messages.Metric\n		if err := client.Call(\"MetricsServer.GetMetric\", path, &reply); err != nil {\n			log.Println(\"Got error for \"+path+\":\", err)\n			continue\n		}\n		printAsJson(path+\" metric\", reply)\n	}\n"))
same("k-q-helper", "C36", (CL, "	var missing messages.Metric\n	err = client.Call(\"MetricsServer.GetMetric\", \"/proc/foo/ddd\", &missing)\n	if err != nil {\n		log.Println(\"Got error for /proc/foo/ddd:\", err)\n	} else {\n		printAsJson(\"/proc/foo/ddd metric\", missing)\n	}\n", "	show(client, \"/proc/foo/ddd\")\n"), (CL, "	var squares messages.Metric\n	err = client.Call(\"MetricsServer.GetMetric\", \"/list/squares\", &squares)\n	if err != nil {\n		log.Println(\"Got error for /list/squares:\", err)\n	} else {\n		printAsJson(\"/list/squares metric\", squares)\n	}\n", "	show(client, \"/list/squares\")\n"), (CL, "func main()", "func show(client *rpc.Client, path string) {\n	reply := new(messages.Metric)\n	if err := client.Call(\"MetricsServer.GetMetric\", path, reply); err != nil {\n		log.Printf(\"Got error for %s: %v\", path, err)\n		return\n	}\n	printAsJson(path+\" metric\", *reply)\n}\n\nfunc main()"))
same("k-q-indent", "C36", (CL, "	var buffer bytes.Buffer\n	content, err := json.Marshal(value)\n", "	content, err := json.MarshalIndent(value, \"\", \"\\t\")\n"), (CL, "	json.Indent(&buffer, content, \"\", \"\\t\")\n	buffer.WriteTo(os.Stdout)\n", "	os.Stdout.Write(content)\n"), (CL, "	\"bytes\"\n", ""))
same("k-q-encoder", "C36", (CL, "	var buffer bytes.Buffer\n	content, err := json.Marshal(value)\n	if err != nil {\n		log.Fatal(\"Marshalling:\", err)\n	}\n	json.Indent(&buffer, content, \"\", \"\\t\")\n	buffer.WriteTo(os.Stdout)\n", "	var buffer bytes.Buffer\n	enc := json.NewEncoder(&buffer)\n	enc.SetIndent(\"\", \"\\t\")\n	if err := enc.Encode(value); err != nil {\n		log.Fatal(\"Marshalling:\", err)\n	}\n	os.Stdout.WriteString(buffer.String())\n"))
same("k-q-late", "C36", (CL, "	printAsJson(\"All metrics\", metrics)\n", ""), (CL, "	printAsJson(\"aaa/bbb metrics\", dirMetrics)\n", "	printAsJson(\"All metrics\", metrics)\n	printAsJson(\"aaa/bbb metrics\", dirMetrics)\n"), (CL, "\"/aaa/bbb\", &dirMetrics)\n	if err != nil {\n", "\"/aaa/bbb\", &dirMetrics)\n	if err != nil {\n		printAsJson(\"All metrics\", metrics)\n"))

# --- C32 ---
SU = "tricorder/setup.go"
WL = "tricorder/wrapper/syscall_linux.go"
WD = "tricorder/wrapper/syscall_darwin.go"
bug("b-usec", "C32", (SU, "time.Duration(val.Usec)*time.Microsecond", "time.Duration(val.Usec)*time.Millisecond"))
bug("b-swap", "C32", (SU, "sysTime = timeValToDuration(&resourceUsage.Stime)", "sysTime = timeValToDuration(&resourceUsage.Utime)"))
bug("b-rss", "C32", (WL, "int64(syscallRusage.Ixrss) << 10", "int64(syscallRusage.Ixrss)"))
bug("b-rss32", "C32", (WL, "int64(syscallRusage.Maxrss) << 10", "int64(int32(syscallRusage.Maxrss) << 10)"))
bug("b-darwin", "C32", (WD, "int64(syscallRusage.Maxrss)", "int64(syscallRusage.Maxrss) << 10"))
bug("b-darwinfield", "C32", (WD, "rusage.Nvcsw = int64(syscallRusage.Nvcsw)", "rusage.Nvcsw = int64(syscallRusage.Nivcsw)"))
bug("b-linuxfield", "C32", (WL, "	rusage.Msgrcv = int64(syscallRusage.Msgrcv)\n", ""))
bug("b-children", "C32", (SU, "syscall.RUSAGE_SELF", "syscall.RUSAGE_CHILDREN"))
bug("b-group", "C32", (SU, "		&numGoroutines,\n		resourceUsageGroup,\n", "		&numGoroutines,\n		memStatsGroup,\n"))
bug("b-nogroup", "C32", (SU, "	RegisterMetricInGroup(\n		\"/proc/memory/swaps\",\n		&resourceUsage.Nswap,\n		resourceUsageGroup,\n", "	RegisterMetric(\n		\"/proc/memory/swaps\",\n		&resourceUsage.Nswap,\n"))
bug("b-unit", "C32", (SU, "		resourceUsageGroup,\n		units.Byte,\n		\"Integral unshared data size\"", "		resourceUsageGroup,\n		units.None,\n		\"Integral unshared data size\""))
bug("b-total", "C32", (SU, "totalMemory = memStats.Sys - memStats.HeapReleased\n		}", "totalMemory = memStats.Sys - memStats.HeapIdle\n		}"))
bug("b-totalneg", "C32", (SU, "if memStats.Sys >= memStats.HeapReleased {", "if memStats.Sys < memStats.HeapReleased {"))
bug("b-once", "C32", (SU, "	resourceUsageGroup.RegisterUpdateFunc(func() time.Time {\n		numGoroutines = runtime.NumGoroutine()\n", "	numGoroutines = runtime.NumGoroutine()\n	resourceUsageGroup.RegisterUpdateFunc(func() time.Time {\n")) 
bug("b-maxrss", "C32", (SU, "		maxResidentSetSize = resourceUsage.Maxrss\n", "		maxResidentSetSize = resourceUsage.Maxrss * 1024\n"))
bug("b-fd", "C32", (SU, "os.Open(\"/proc/self/fd\")", "os.Open(\"/proc/self/fdinfo/..\")"))
bug("b-name", "C32", (SU, "&os.Args[0]", "&os.Args[len(os.Args)-1]"))
bug("b-iswap", "C32", (SU, "&resourceUsage.Inblock", "&resourceUsage.Oublock"))
same("b-q-tv", "C32", (SU, "	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Microsecond\n", "	return time.Duration(val.Sec*int64(time.Second) + val.Usec*1000)\n"))
same("b-q-wrap", "C32", (WL, "	rusage.Utime.Sec = int64(syscallRusage.Utime.Sec)\n	rusage.Utime.Usec = int64(syscallRusage.Utime.Usec)\n	rusage.Stime.Sec = int64(syscallRusage.Stime.Sec)\n	rusage.Stime.Usec = int64(syscallRusage.Stime.Usec)\n	rusage.Maxrss = int64(syscallRusage.Maxrss) << 10\n", "	rusage.Utime = convertTimeval(syscallRusage.Utime)\n	rusage.Stime = convertTimeval(syscallRusage.Stime)\n	rusage.Maxrss = int64(syscallRusage.Maxrss) * 1024\n"), (WL, "func Getrusage(", "func convertTimeval(t syscall.Timeval) Timeval {\n	return Timeval{Sec: int64(t.Sec), Usec: int64(t.Usec)}\n}\n\nfunc Getrusage("))
same("b-q-lit", "C32", (WD, "	rusage.Utime.Sec = int64(syscallRusage.Utime.Sec)\n	rusage.Utime.Usec = int64(syscallRusage.Utime.Usec)\n", "	rusage.Utime = Timeval{\n		Sec:  int64(syscallRusage.Utime.Sec),\n		Usec: int64(syscallRusage.Utime.Usec),\n	}\n"))
same("b-q-cb", "C32", (SU, "		&numGoroutines,\n		resourceUsageGroup,\n", "		runtime.NumGoroutine,\n		resourceUsageGroup,\n"), (SU, "		numGoroutines = runtime.NumGoroutine()\n", ""), (SU, "	var numGoroutines int\n", ""))
same("b-q-rss", "C32", (SU, "		&maxResidentSetSize,\n", "		&resourceUsage.Maxrss,\n"), (SU, "		maxResidentSetSize = resourceUsage.Maxrss\n", ""), (SU, "	var maxResidentSetSize int64\n", ""))
same("b-q-gm", "C32", (SU, "	RegisterMetricInGroup(\n		\"/proc/memory/swaps\",\n		&resourceUsage.Nswap,\n		resourceUsageGroup,\n", "	resourceUsageGroup.RegisterMetric(\n		\"/proc/memory/swaps\",\n		&resourceUsage.Nswap,\n"))
same("b-q-table", "C32", (SU, "	RegisterMetricInGroup(\n		\"/proc/ipc/sent\",\n		&resourceUsage.Msgsnd,\n		resourceUsageGroup,\n		units.None,\n		\"IPC messages sent\")\n	RegisterMetricInGroup(\n		\"/proc/ipc/received\",\n		&resourceUsage.Msgrcv,\n		resourceUsageGroup,\n		units.None,\n		\"IPC messages received\")\n", "	for _, m := range []struct {\n		path  string\n		value *int64\n		desc  string\n	}{\n		{\"/proc/ipc/sent\", &resourceUsage.Msgsnd, \"IPC messages sent\"},\n		{\"/proc/ipc/received\", &resourceUsage.Msgrcv, \"IPC messages received\"},\n	} {\n		RegisterMetricInGroup(m.path, m.value, resourceUsageGroup, units.None, m.desc)\n	}\n"))
same("b-q-split", "C32", (SU, "func initDefaultMetrics() {\n	programArgs := getProgramArgs()\n	var totalMemory uint64\n", "func initDefaultMetrics() {\n	programArgs := getProgramArgs()\n	initMemStats()\n"), (SU, "	memStatsGroup := NewGroup()\n	memStatsGroup.RegisterUpdateFunc(func() time.Time {\n		var memStats runtime.MemStats\n		runtime.ReadMemStats(&memStats)\n		if memStats.Sys >= memStats.HeapReleased {\n			totalMemory = memStats.Sys - memStats.HeapReleased\n		}\n		return time.Now()\n	})\n	RegisterMetricInGroup(\n		\"/proc/memory/total\",\n		&totalMemory,\n		memStatsGroup,\n		units.Byte,\n		\"System memory currently allocated to process\")\n", ""), (SU, "func initDefaultMetrics() {", "func allocated(m *runtime.MemStats) (uint64, bool) {\n	if m.HeapReleased > m.Sys {\n		return 0, false\n	}\n	return m.Sys - m.HeapReleased, true\n}\n\nfunc initMemStats() {\n	var totalMemory uint64\n	group := NewGroup()\n	group.RegisterUpdateFunc(func() time.Time {\n		var memStats runtime.MemStats\n		runtime.ReadMemStats(&memStats)\n		if total, ok := allocated(&memStats); ok {\n			totalMemory = total\n		}\n		return time.Now()\n	})\n	RegisterMetricInGroup(\n		\"/proc/memory/total\",\n		&totalMemory,\n		group,\n		units.Byte,\n		\"System memory currently allocated to process\")\n}\n\nfunc initDefaultMetrics() {"))
same("b-q-fd", "C32", (SU, "	if dirNames, err := fdDir.Readdirnames(0); err != nil {\n		return -1\n	} else {\n		return len(dirNames)\n	}\n", "	names, err := fdDir.Readdirnames(-1)\n	if err != nil {\n		return -1\n	}\n	return len(names)\n"))
same("b-q-dir", "C32", (SU, "	RegisterMetricInGroup(\n		\"/proc/ipc/sent\",\n		&resourceUsage.Msgsnd,\n		resourceUsageGroup,\n		units.None,\n		\"IPC messages sent\")\n", "	if ipc, err := RegisterDirectory(\"/proc/ipc\"); err == nil {\n		ipc.RegisterMetricInGroup(\n			\"sent\",\n			&resourceUsage.Msgsnd,\n			resourceUsageGroup,\n			units.None,\n			\"IPC messages sent\")\n	}\n"))

# ---- rewritings an outsider might make, checked against everything ----------
same("x-region", "ALL", (T, '''	go func() {
		result.handleRequests()
	}()
	return result
''', '''	go result.handleRequests()
	return result
'''), (T, '''func (r *region) RLock() time.Time {
	r.sendCh <- 1
	return <-r.receiveCh
}

func (r *region) RUnlock() {
	r.sendCh <- -1
	<-r.receiveCh
}
''', '''func (r *region) exchange(increment int) time.Time {
	r.sendCh <- increment
	return <-r.receiveCh
}

func (r *region) RLock() time.Time {
	return r.exchange(1)
}

func (r *region) RUnlock() {
	r.exchange(-1)
}
'''))
same("x-tofloat", "ALL", (T, '''	switch v := value.(type) {
	case time.Duration:
		return d.goDurationToFloat(v)
	case float32:
		return float64(v)
	case float64:
		return v
	default:
		panic(panicTypeMismatch)
	}
''', '''	if v, ok := value.(float64); ok {
		return v
	}
	if v, ok := value.(float32); ok {
		return float64(v)
	}
	dur, ok := value.(time.Duration)
	if !ok {
		panic(panicTypeMismatch)
	}
	return d.goDurationToFloat(dur)
'''))
same("x-scan", "ALL", (T, '''	return sort.Search(len(pieces)-1, func(i int) bool {
		return value < pieces[i].End
	})
''', '''	last := len(pieces) - 1
	for i := 0; i < last; i++ {
		if value < pieces[i].End {
			return i
		}
	}
	return last
'''))
same("x-bsearch", "ALL", (T, '''	return sort.Search(len(pieces)-1, func(i int) bool {
		return value < pieces[i].End
	})
''', '''	below := func(i int) bool {
		return value < pieces[i].End
	}
	count := len(pieces) - 1
	return sort.Search(count, below)
'''))
same("x-ranges", "ALL", (T, '''	result := make([]*messages.RangeWithCount, len(ranges))
	for i := range ranges {
		result[i] = &messages.RangeWithCount{
			Count: ranges[i].Count,
			Lower: ranges[i].Start,
			Upper: ranges[i].End}
	}
	return result
''', '''	result := make([]*messages.RangeWithCount, 0, len(ranges))
	for _, piece := range ranges {
		var r messages.RangeWithCount
		r.Lower, r.Upper = piece.Start, piece.End
		r.Count = piece.Count
		result = append(result, &r)
	}
	return result
'''))
same("x-strings", "ALL", (T, '''	value, _ := l.get()
	result := make([]string, value.Len())
	for i := range result {
		result[i] = valueToTextString(
			value.Index(i), l.subType, unit, false)
	}
	return result
}
''', '''	return l.format(unit, valueToTextString)
}

func (l *listType) format(
	unit units.Unit,
	toString func(reflect.Value, types.Type, units.Unit, bool) string) []string {
	value, _ := l.get()
	count := value.Len()
	result := make([]string, 0, count)
	for i := 0; i < count; i++ {
		result = append(result, toString(value.Index(i), l.subType, unit, false))
	}
	return result
}
'''), (T, '''	value, _ := l.get()
	result := make([]string, value.Len())
	for i := range result {
		result[i] = valueToHtmlString(
			value.Index(i), l.subType, unit, false)
	}
	return result
''', '''	return l.format(unit, valueToHtmlString)
'''))
same("x-compact", "ALL", (T, '''	case t.IsUint() && !isValueAPointer:
		switch u {
		case units.Byte:
			return uCompactForm(
				value.Uint(), 1024, byteSuffixes)
		case units.BytePerSecond:
			return uCompactForm(
				value.Uint(), 1024, bytePerSecondSuffixes)
		case units.None:
			return addSeparators(
				valueToTextString(value, t, u, isValueAPointer), ',', 3)
		default:
			return uCompactForm(
				value.Uint(), 1000, suffixes)
		}
''', '''	case t.IsUint() && !isValueAPointer:
		if u == units.None {
			return addSeparators(
				valueToTextString(value, t, u, isValueAPointer), ',', 3)
		}
		radix, unitSuffixes := compactParams(u)
		return uCompactForm(value.Uint(), radix, unitSuffixes)
'''), (T, '''func valueToHtmlString(
''', '''func compactParams(u units.Unit) (uint, []string) {
	switch u {
	case units.Byte:
		return 1024, byteSuffixes
	case units.BytePerSecond:
		return 1024, bytePerSecondSuffixes
	}
	return 1000, suffixes
}

func valueToHtmlString(
'''))
same("x-getdir", "ALL", (T, '''	result = d
	for _, part := range path {
		n := result.getListEntry(part)
		if n == nil || n.Directory == nil {
			return nil
		}
		result = n.Directory
	}
	return
''', '''	result, err := d.getDirectoryAndError(path)
	if err != nil {
		return nil
	}
	return result
'''))
same("x-session", "ALL", (T, '''	if s == nil {
		s = newSession()
		defer s.Close()
	}
	for _, entry := range d.List() {
		if entry.Directory != nil {
			err = entry.Directory.GetAllMetrics(collector, s)
		} else {
			err = collect(entry.Metric, s, collector)
		}
		if err != nil {
			return
		}
	}
	return
}
''', '''	if s != nil {
		return d.getAllMetrics(collector, s)
	}
	s = newSession()
	defer s.Close()
	return d.getAllMetrics(collector, s)
}

// s must be non-nil
func (d *directory) getAllMetrics(collector metricsCollector, s *session) error {
	for _, entry := range d.List() {
		if dir := entry.Directory; dir != nil {
			if err := dir.getAllMetrics(collector, s); err != nil {
				return err
			}
			continue
		}
		if err := collect(entry.Metric, s, collector); err != nil {
			return err
		}
	}
	return nil
}
'''))
same("x-init", "ALL", (T, '''func (m *metric) InitJsonMetric(s *session, metric *messages.Metric) {
	*metric = messages.Metric{
		Path: m.AbsPath(), Description: m.Description}
	m.value.UpdateJsonMetric(s, metric)
}
''', '''func (m *metric) InitJsonMetric(s *session, metric *messages.Metric) {
	m.initMetric(s, metric, jsonEncoding)
}

func (m *metric) initMetric(
	s *session, metric *messages.Metric, encoding rpcEncoding) {
	*metric = messages.Metric{}
	metric.Path = m.AbsPath()
	metric.Description = m.Description
	m.value.updateJsonOrRpcMetric(s, metric, encoding)
}
'''), (T, '''	*metric = messages.Metric{
		Path: m.AbsPath(), Description: m.Description}
	m.value.UpdateRpcMetric(s, metric)
''', '''	m.initMetric(s, metric, goRpcEncoding)
'''))
same("x-remove", "ALL", (T, '''	if !d.isNotCumulative {
		panic("Cannot call remove on a cumulative distribution.")
	}
	if d.count == 0 {
		panic("Can't call remove on an empty distribution.")
	}
	d.timeStamp = ts
	idx := findDistributionIndex(d.pieces, valueToBeRemoved)
	decrementCount(&d.counts[idx])
	d.total -= valueToBeRemoved
	d.count--
	d.generation++
''', '''	switch {
	case !d.isNotCumulative:
		panic("Cannot call remove on a cumulative distribution.")
	case d.count < 1:
		panic("Can't call remove on an empty distribution.")
	}
	bucket := &d.counts[findDistributionIndex(d.pieces, valueToBeRemoved)]
	d.timeStamp = ts
	decrementCount(bucket)
	d.count, d.total = d.count-1, d.total-valueToBeRemoved
	d.generation += 1
'''))
same("x-removeif", "ALL", (T, '''	d.lock.Lock()
	defer d.lock.Unlock()
	delete(d.contents, name)
}
''', '''	d.removeIf(name, func(*listEntry) bool { return true })
}

func (d *directory) removeIf(name string, ok func(n *listEntry) bool) {
	d.lock.Lock()
	defer d.lock.Unlock()
	if ok(d.contents[name]) {
		delete(d.contents, name)
	}
}
'''), (T, '''	name := child.enclosingListEntry.Name
	d.lock.Lock()
	defer d.lock.Unlock()
	if d.contents[name] == child.enclosingListEntry {
		delete(d.contents, name)
	}
''', '''	entry := child.enclosingListEntry
	d.removeIf(entry.Name, func(n *listEntry) bool { return n == entry })
'''))
same("x-rangetext", "ALL", (H, '''		if piece.First {
			_, err := fmt.Fprintf(
				w,
				";[-inf,%s):%d",
				strconv.FormatFloat(piece.End, 'f', -1, 32),
				piece.Count)
			if err != nil {
				return err
			}
		} else if piece.Last {
			_, err := fmt.Fprintf(
				w,
				";[%s,inf):%d",
				strconv.FormatFloat(piece.Start, 'f', -1, 32),
				piece.Count)
			if err != nil {
				return err
			}
		} else {
			_, err := fmt.Fprintf(
				w,
				";[%s,%s):%d",
				strconv.FormatFloat(piece.Start, 'f', -1, 32),
				strconv.FormatFloat(piece.End, 'f', -1, 32),
				piece.Count)
			if err != nil {
				return err
			}
		}
''', '''		lower, upper := "-inf", "inf"
		if !piece.First {
			lower = strconv.FormatFloat(piece.Start, 'f', -1, 32)
		}
		if !piece.Last {
			upper = strconv.FormatFloat(piece.End, 'f', -1, 32)
		}
		if _, err := fmt.Fprintf(w, ";[%s,%s):%d", lower, upper, piece.Count); err != nil {
			return err
		}
'''))
same("x-begin", "ALL", (T, '''			s = newSession()
			defer s.Close()
		}
		s.Visit(v.region)
	}
	if !v.isfunc {
''', '''			s = newSession()
			defer func() {
				s.Close()
			}()
		}
		v.visitWith(s)
	}
	if !v.isfunc {
'''), (T, '''func (v *value) canEvaluate() bool {
''', '''func (v *value) visitWith(s *session) time.Time {
	return s.Visit(v.region)
}

func (v *value) canEvaluate() bool {
'''))
same("x-newvaluefunc", "ALL", (T, '''	v := reflect.ValueOf(spec)
	t := v.Type()
	if t.Kind() == reflect.Func {
		funcArgCount := t.NumOut()

		// Our functions have to return exactly one thing
		if funcArgCount != 1 {
			panic(panicBadFunctionReturnTypes)
		}
		// Our functions must be callable with no arguments
		if t.NumIn() > 1 || (t.NumIn() == 1 && !t.IsVariadic()) {
			return nil, ErrWrongType
		}
		valType, isValAPointer, ok := getPrimitiveType(t.Out(0))
		if !ok {
			return nil, ErrWrongType
		}
		return &value{
			val:           v,
			unit:          unit,
			region:        region,
			valType:       valType,
			isfunc:        true,
			isValAPointer: isValAPointer}, nil
	}
	v = v.Elem()
	valType, isValAPointer, ok := getPrimitiveType(v.Type())
	if !ok {
		return nil, ErrWrongType
	}
	return &value{
		val:           v,
		unit:          unit,
		region:        region,
		valType:       valType,
		isValAPointer: isValAPointer}, nil
}
''', '''	v := reflect.ValueOf(spec)
	result := &value{unit: unit, region: region}
	resultType := v.Type()
	if resultType.Kind() == reflect.Func {
		result.val, result.isfunc = v, true
		var err error
		if resultType, err = callbackResult(resultType); err != nil {
			return nil, err
		}
	} else {
		result.val = v.Elem()
		resultType = result.val.Type()
	}
	result.valType, result.isValAPointer, ok = getPrimitiveType(resultType)
	if !ok {
		return nil, ErrWrongType
	}
	return result, nil
}

func callbackResult(t reflect.Type) (reflect.Type, error) {
	// Our functions have to return exactly one thing
	if t.NumOut() != 1 {
		panic(panicBadFunctionReturnTypes)
	}
	// Our functions must be callable with no arguments
	if t.NumIn() > 1 || (t.NumIn() == 1 && !t.IsVariadic()) {
		return nil, ErrWrongType
	}
	return t.Out(0), nil
}
'''))
same("x-kindtable", "ALL", (T, '''		case reflect.Int8:
			return types.Int8, false, true
		case reflect.Int16:
			return types.Int16, false, true
		case reflect.Int32:
			return types.Int32, false, true
		case reflect.Int64:
			return types.Int64, false, true
''', ''''''), (T, '''		case reflect.Uint8:
			return types.Uint8, false, true
		case reflect.Uint16:
			return types.Uint16, false, true
		case reflect.Uint32:
			return types.Uint32, false, true
		case reflect.Uint64:
			return types.Uint64, false, true
		case reflect.Float32:
			return types.Float32, false, true
		case reflect.Float64:
			return types.Float64, false, true
		case reflect.String:
			return types.String, false, true
		default:
			return
		}
''', '''		default:
			outType, ok = typeByKind[t.Kind()]
			return
		}
'''), (T, '''func getPrimitiveType(t reflect.Type) (
''', '''var typeByKind = map[reflect.Kind]types.Type{
	reflect.Int8:    types.Int8,
	reflect.Int16:   types.Int16,
	reflect.Int32:   types.Int32,
	reflect.Int64:   types.Int64,
	reflect.Uint8:   types.Uint8,
	reflect.Uint16:  types.Uint16,
	reflect.Uint32:  types.Uint32,
	reflect.Uint64:  types.Uint64,
	reflect.Float32: types.Float32,
	reflect.Float64: types.Float64,
	reflect.String:  types.String,
}

func getPrimitiveType(t reflect.Type) (
'''))
same("x-reclook", "ALL", (T, '''	if path.Empty() {
		return d, nil
	}
	dir := d.getDirectory(path.Dir())
	if dir == nil {
		return nil, nil
	}
	n := dir.getListEntry(path.Base())
	if n == nil {
		return nil, nil
	}
	return n.Directory, n.Metric
''', '''	current := d
	last := len(path) - 1
	for i, part := range path {
		n := current.getListEntry(part)
		if n == nil {
			return nil, nil
		}
		if i == last {
			return n.Directory, n.Metric
		}
		if n.Directory == nil {
			return nil, nil
		}
		current = n.Directory
	}
	return current, nil
'''))
same("x-validate", "ALL", (T, '''	current, err := d.registerDirectory(path.Dir())
	if err != nil {
		return
	}
	avalue, err := newValue(value, region, unit)
	if err != nil {
		return
	}
	metric := &metric{
		Description: description,
		value:       avalue}
	return current.storeMetric(path.Base(), metric)
''', '''	current, err := d.registerDirectory(path.Dir())
	if err != nil {
		return
	}
	m, err := newMetric(value, region, unit, description)
	if err == nil {
		err = current.storeMetric(path.Base(), m)
	}
	return
}

func newMetric(
	spec interface{},
	region *region,
	unit units.Unit,
	description string) (*metric, error) {
	v, err := newValue(spec, region, unit)
	if err != nil {
		return nil, err
	}
	return &metric{value: v, Description: description}, nil
'''))
same("x-listtorpc", "ALL", (T, '''	switch t {
	case types.Dist:
		dist := v.AsDistribution()
		snapshot := dist.Snapshot()
''', '''	switch {
	case t == types.Dist:
		dist := v.AsDistribution()
		snapshot := dist.Snapshot()
'''), (T, '''	case types.List:
		alist := v.AsList()
		metric.Value, metric.TimeStamp = alist.AsSlice()
		metric.GroupId = alist.GroupId()
	default:
		if s == nil {
			s = newSession()
			defer s.Close()
		}
		metric.Value = v.AsInterface(s)
		metric.GroupId = v.RegionId()
		metric.TimeStamp = v.TimeStamp(s)
	}
''', '''	case t == types.List:
		v.updateFromList(metric)
	default:
		v.updateFromSingle(s, metric)
	}
'''), (T, '''func asRanges(ranges breakdown)''', '''func (v *value) updateFromList(metric *messages.Metric) {
	alist := v.AsList()
	metric.GroupId = alist.GroupId()
	metric.Value, metric.TimeStamp = alist.AsSlice()
}

func (v *value) updateFromSingle(s *session, metric *messages.Metric) {
	if s == nil {
		s = newSession()
		defer s.Close()
	}
	metric.TimeStamp = v.TimeStamp(s)
	metric.GroupId = v.RegionId()
	metric.Value = v.AsInterface(s)
}

func asRanges(ranges breakdown)'''))
same("x-addlocked", "ALL", (T, '''	d.lock.Lock()
	defer d.lock.Unlock()
	d.add(d.valueToFloat(value), ts)
''', '''	d.locked(func() {
		d.add(d.valueToFloat(value), ts)
	})
'''), (T, '''	d.lock.Lock()
	defer d.lock.Unlock()
	d.remove(d.valueToFloat(valueToBeRemoved), ts)
}
''', '''	d.locked(func() {
		f := d.valueToFloat(valueToBeRemoved)
		d.remove(f, ts)
	})
}

func (d *distribution) locked(f func()) {
	d.lock.Lock()
	defer d.lock.Unlock()
	f()
}
'''))
same("x-bitsum", "ALL", (TY, '''	return t == Int8 || t == Int16 || t == Int32 || t == Int64
''', '''	switch t {
	case Int8, Int16, Int32, Int64:
		return true
	}
	return false
'''))
