"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py`."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "go/tricorder/metric.go"

# id: (title, statement, over, quantifier text, why tests cannot settle it, files, [(mechanism, where)])
P = {}

def p(id, title, statement, over, text, why, files, mech):
    P[id] = dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))

p("C01", "A group's update function runs exactly when the first request comes in",
  "When a request starts using a group that no other request is using, the group's registered update function runs exactly once before the request proceeds; while any request is using the group, further requests neither run it nor change the group's time. Every request is told the time returned by the most recent run of the update function. A registered update function is in force once its registration returns.",
  ["schedules", "histories"], "every interleaving of requests entering and leaving a group and of update-function registrations",
  "Tests drive one or two sequential requests; overlap counts above one and registration between them are not reached.",
  [M, "go/tricorder/api.go"], [("group server goroutine, enter/leave counting", M), ("Group.RegisterUpdateFunc", "go/tricorder/api.go")])
p("C02", "A request visits each group once and stamps all its metrics alike",
  "Within one request each group is entered at most once, and every metric of that group in the response carries the time the group gave to that request and that group's id.",
  ["inputs", "histories"], "every set of registered metrics, path and request kind (JSON, Go RPC, in-process, HTML, text)",
  "Tests look at a few metrics of one or two groups; the statement is about every traversal and every recursion depth.",
  [M, "go/tricorder/json.go", "go/tricorder/rpc.go", "go/tricorder/html.go"], [("per-request record of visited groups", M)])
p("C03", "Every request leaves all groups it entered, exactly once, even on panic",
  "However a request ends (normal return, error, or a panic in a client callback) it has left every group it entered, each exactly once, so that later requests see fresh values and the group never gets stuck.",
  ["inputs", "fault_sequences", "histories"], "every entry point and every exit of it, including panics raised by client callbacks at any point",
  "No test makes a callback panic in the middle of a listing; error exits of writers are not exercised.",
  [M, "go/tricorder/html.go", "go/tricorder/json.go", "go/tricorder/rpc.go"], [("closing of a request's record of visited groups", M)])
p("C04", "Client variables and callbacks are read only inside their group",
  "A client variable is read, and a client callback called, for a request only while that request is inside the metric's group, so an update function never runs while the values it updates are being read and a response never mixes values of two updates.",
  ["schedules", "inputs"], "every read of a registered variable or callback on every path of every entry point",
  "A violation shows only when an update interleaves with a read; tests are sequential.",
  [M, "go/tricorder/html.go"], [("evaluation of a metric's value", M)])
p("C05", "Group bookkeeping has one owner and answers reach their own caller",
  "The state of a group is used by a single goroutine that handles one request at a time; each caller gets the answer to its own request and nobody else's.",
  ["schedules"], "every interleaving of callers and the group's goroutine",
  "Depends on the schedule; the race detector only sees executed schedules.",
  [M], [("channels between callers and the group's goroutine", M)])
p("C06", "Shared mutable state is accessed only under its lock",
  "Every access to state that several goroutines share (directories, distributions, lists, health status, package variables that change after start-up) is made while holding the lock that protects it, exclusively for writes; otherwise the state never changes after it is published.",
  ["schedules"], "every pair of concurrent calls of the public API, the HTTP and RPC handlers and internal goroutines",
  "Data races show only under particular schedules and are undefined behaviour; the tests are sequential.",
  [M, "go/healthserver/impl.go", "go/tricorder/html.go"], [("sync.RWMutex fields and what they guard", M), ("health status mutex", "go/healthserver/impl.go")])
p("C07", "Locks are always released and never held across foreign code",
  "Every lock taken during a call is released before the call ends, on every return and panic; no call waits for a lock it already holds or takes two locks in opposite orders; and no lock is held while client code runs, while waiting on another goroutine, or during I/O.",
  ["schedules", "fault_sequences"], "every path of every entry point, including panics",
  "Deadlocks and leaked locks need particular schedules or panics that tests do not produce.",
  [M, "go/healthserver/impl.go"], [("lock/unlock pairs", M)])
p("C08", "Every distribution operation changes all its accounts consistently",
  "Adding a value increments the bucket the value falls in and the count by one, adds the value to the sum and advances the generation; updating moves one from the old value's bucket to the new one's, adjusts the sum by the difference and keeps the count; removing undoes bucket, count and sum. Each operation sets the time and advances the generation by one, all in one critical section.",
  ["inputs", "histories"], "every distribution state, bucket layout, value and operation",
  "Tests check a few dozen values; the equalities must hold in every reachable state.",
  [M, "go/tricorder/api.go"], [("Add, Update and Remove on distributions", M)])
p("C09", "A distribution's min and max are the extremes of all values stored since it was empty",
  "After every operation the reported minimum and maximum are the least and greatest value added or updated to since the distribution was last empty, whether or not some of those values were removed since.",
  ["inputs", "histories"], "every distribution state and every new value, including values equal to the extremes, zero and negative values",
  "Tests sample sequences; an extreme missed in one ordering of comparisons stays hidden.",
  [M], [("min/max maintenance in add and update", M)])
p("C10", "A reported distribution is an atomic copy of the distribution",
  "The figures of a distribution in a response (min, max, sum, count, generation, kind, time and the count of each range) all come from one moment between operations and are not changed by later operations; average is sum over count and an empty distribution reports zero figures with its generation, kind and time.",
  ["schedules", "inputs"], "every interleaving of operations with readers and every bucket layout",
  "Tearing needs a concurrent writer; tests read quiescent distributions.",
  [M], [("snapshot of a distribution", M)])
p("C11", "Buckets partition the number line into half-open ranges",
  "Every finite value is counted in exactly the range [lower, upper) that contains it; ranges of a bucketer are contiguous and ascending in the order the constructor computed its endpoints, the first is open below and the last open above, and reports use the same ranges.",
  ["inputs"], "every bucketer, every value including values equal to endpoints",
  "Tests cover some endpoints; the statement is for every layout and value.",
  [M, "go/tricorder/api.go"], [("bucket search", M), ("bucket construction from endpoints", M)])
p("C12", "Bucketers are immutable and reject invalid parameters",
  "A bucketer never changes after it is made, so distributions made from it keep their ranges; no part of it is the caller's memory. Constructors panic for exactly the parameters documented as invalid (fewer than two buckets, a start or lower limit that is not positive, a scale of at most one, an increment that is not positive, an upper limit below the lower one, no endpoints) instead of building a broken bucketer; ascending order of explicitly listed endpoints is the caller's duty.",
  ["inputs", "histories"], "every argument list of every bucketer constructor and every later call",
  "Tests try a few arguments; aliasing shows only if some later code writes.",
  [M, "go/tricorder/api.go"], [("Bucketer constructors", "go/tricorder/api.go")])
p("C13", "A distribution's unit is fixed at first registration",
  "The first registration of a distribution fixes its unit; later registrations succeed with that unit and fail with the wrong-unit error, leaving the distribution and its unit as they were, for any other. Values are refused before a unit is set; durations are converted to the unit when it is a time unit and refused otherwise, and numbers are taken as they are.",
  ["inputs", "histories"], "every order of registrations and operations with every unit and value type",
  "Tests cover one wrong unit and two time units.",
  [M], [("unit assignment and value conversion of distributions", M)])
p("C14", "A refused distribution operation has no effect",
  "An operation that a distribution refuses (no unit yet, wrong value type, cumulative or empty distribution) panics and leaves all figures of the distribution as they were and its lock free.",
  ["inputs", "histories", "fault_sequences"], "every refused operation in every state",
  "Tests check that some operations panic, not what is left behind.",
  [M], [("argument checks of distribution operations", M)])
p("C15", "A list does not share memory with a mutable client slice",
  "When a client says its slice may change, the list keeps a copy, so later writes by the client are never seen in reports; lists of named or platform-sized element types are always converted copies; the reported slice has the fixed-size unnamed element type of the list.",
  ["inputs", "histories"], "every slice type and every NewList/Change call",
  "Tests cover a few element types.",
  [M, "go/tricorder/api.go"], [("defensive copy of list contents", M)])
p("C16", "A list's element type never changes and its content and time move together",
  "The element type given when a list is created stays; changing to another element type panics without effect. A reader sees contents and time of one and the same change.",
  ["inputs", "schedules"], "every Change call and every concurrent reader",
  "Torn reads need a schedule; type changes are tested with one pair.",
  [M], [("list change and read", M)])
p("C17", "Registration never replaces or hides what is already registered",
  "Registering a metric or directory at a path already taken by a metric, or a metric at a path taken by a directory, fails with the path-in-use error and leaves what was there; of concurrent registrations of one path exactly one succeeds; a successful registration makes exactly that path name that metric.",
  ["schedules", "inputs"], "every path, every interleaving of registrations",
  "The check-then-store race shows only under concurrency.",
  [M, "go/tricorder/api.go"], [("storing entries in a directory", M)])
p("C18", "The directory tree stays consistent through removals",
  "Removing a path removes exactly that entry; unregistering a directory removes it only if it is still the one registered under its name; the root is never removed; every entry knows the directory it is in and its absolute path is the chain of names from the root.",
  ["histories", "schedules"], "every history of registrations and removals",
  "Stale handles after re-registration are not tested in combination.",
  [M, "go/tricorder/api.go"], [("tree links and removal", M)])
p("C19", "Listings are complete, sorted, and stop at errors",
  "A listing of a path visits every metric at or below it exactly once, directories in lexicographic order by name, skips only single values that are NaN or infinite (and in JSON those JSON cannot represent), and ends early only when emitting fails, returning that error.",
  ["inputs", "configurations"], "every tree shape and every emitter",
  "Tests list one small tree.",
  [M, "go/tricorder/json.go", "go/tricorder/html.go"], [("depth-first traversal", M)])
p("C20", "Kind, bits, sub-type and Go type of a reported value agree",
  "For every metric the reported kind, size in bits, sub-type (for lists) and the Go type of the value agree with the kind the metric was registered as, for every registrable variable, pointer, callback, flag, distribution and list, whatever named type the client used.",
  ["inputs", "programs"], "every type a client can register",
  "Tests cover one variable per kind, few named types.",
  [M, "go/tricorder/types/api.go", "go/tricorder/messages/api.go"], [("type classification", M), ("value conversion", M)])
p("C21", "Every registrable metric renders in every format",
  "Whatever kind of metric registration accepts, producing it as JSON, Go RPC, HTML and text succeeds without panicking for any value and unit.",
  ["inputs"], "every accepted kind x unit x output format",
  "Tests cover the kinds of the demo.",
  [M, "go/tricorder/html.go", "go/tricorder/messages/metric.go"], [("rendering switches", M)])
p("C22", "The type tables agree with each other",
  "For every kind the predicates (integer, unsigned, float), the size in bits, the zero value, the nil slice and the conversion to and from Go values describe one and the same Go type, and kinds outside the table are reported as unknown rather than guessed.",
  ["inputs"], "every kind and every Go value",
  "Tests check samples of each table.",
  ["go/tricorder/types/api.go", "go/tricorder/types/types.go"], [("type tables", "go/tricorder/types/api.go")])
p("C23", "Converting a metric to JSON form changes only what JSON needs",
  "Converting a metric to its JSON form turns times and durations (single or in lists) into strings in the metric's unit with the matching JSON kinds, turns the time stamp into a seconds string or the empty string, turns a nil list into an empty one, leaves every other field as it was, and keeps list lengths and order; converting twice changes nothing more.",
  ["inputs"], "every metric message",
  "Tests cover a handful of messages.",
  ["go/tricorder/messages/metric.go"], [("ConvertToJson", "go/tricorder/messages/metric.go")])
p("C24", "Converting a metric from JSON form is all or nothing",
  "Converting a metric to its Go RPC form either converts value, kind, sub-type and time stamp together or returns an error and leaves the metric untouched; elements of converted lists keep their number and order.",
  ["inputs", "fault_sequences"], "every metric message, including ill-formed ones",
  "Tests cover two ill-formed messages.",
  ["go/tricorder/messages/metric.go"], [("ConvertToGoRPC", "go/tricorder/messages/metric.go")])
p("C25", "Every value type that can be sent over Go RPC is registered for it",
  "Every Go type a reported metric's value or time stamp can have is known to the RPC encoder before the first request.",
  ["inputs", "programs"], "every registrable metric",
  "Tests do not encode; an unregistered type fails only when such a metric exists.",
  ["go/tricorder/messages/api.go", M], [("gob registration", "go/tricorder/messages/api.go")])
p("C26", "Durations are kept in normal form and printed with nine digits",
  "Every duration made by the package has less than a second of nanoseconds and the same sign in both parts, and one made from a Go duration or instant, or turned back into one, is exactly that; its string is an optional minus sign, the whole seconds, a point and exactly nine digits.",
  ["inputs"], "every duration, time, float and string",
  "Tests sample values.",
  ["go/tricorder/duration/duration.go", "go/tricorder/duration/api.go"], [("duration arithmetic and formatting", "go/tricorder/duration/duration.go")])
p("C27", "Unit conversion uses one factor per unit in both directions",
  "Printing a duration in a unit and parsing it back use the same conversion factor for that unit, which is 1 for seconds and 1000 for milliseconds and 1 for units that do not measure time; printing gives the duration times the factor to the nanosecond and parsing the number read divided by it.",
  ["inputs"], "every unit",
  "Tests use seconds and milliseconds on samples.",
  ["go/tricorder/duration/api.go", "go/tricorder/units/api.go"], [("unit factors", "go/tricorder/units/api.go")])
p("C28", "Client-controlled text is escaped in HTML pages",
  "No text that comes from a client (paths, descriptions, string values, list elements, flags) reaches an HTML page without context-aware escaping.",
  ["inputs"], "every string a client can register and every request path",
  "Tests do not render hostile strings.",
  ["go/tricorder/html.go"], [("HTML template", "go/tricorder/html.go")])
p("C29", "Page responses carry the security headers before any byte of body",
  "Every response of the metrics pages and the presence page has the frame, XSS and content-security headers set before the body starts, and text output is marked as plain text before its first byte.",
  ["inputs"], "every request, format and path including missing ones",
  "Tests do not call the handlers.",
  ["go/tricorder/html.go", "go/tricorder/http.go"], [("header set-up in handlers", "go/tricorder/html.go")])
p("C30", "The JSON endpoint answers correctly framed JSON",
  "Every JSON response has its content and media type set before the body; asking for a single metric that does not exist gives status 404; compressed responses are produced only for clients whose request names gzip as an accepted encoding, are announced before the body and are complete; the body of a successful response is the encoding of the collected metrics.",
  ["inputs", "fault_sequences"], "every request and header combination",
  "Tests do not call the handlers.",
  ["go/tricorder/json.go", "go/tricorder/http.go"], [("JSON handler", "go/tricorder/json.go"), ("gzip wrapper", "go/tricorder/http.go")])
p("C31", "Health and readiness answer what was last set",
  "The health page answers OK after the process is started or last set healthy and otherwise status 503 with the last status given; the readiness page likewise, starting not ready; setting one never affects the other; an empty or OK status is refused without effect.",
  ["histories", "schedules", "inputs"], "every sequence of settings and requests",
  "There are no tests of this package.",
  ["go/healthserver/api.go", "go/healthserver/impl.go"], [("status setters and handlers", "go/healthserver/impl.go")])
p("C32", "Built-in process metrics report the right quantity in the right unit",
  "Each built-in process metric reads the operating-system or runtime quantity it is documented to report, scaled to its unit, refreshed by the update function of the group it is registered in.",
  ["configurations"], "every built-in metric on every supported operating system",
  "No test looks at the built-in metrics' values.",
  ["go/tricorder/setup.go", "go/tricorder/wrapper/syscall_linux.go", "go/tricorder/wrapper/syscall_darwin.go"], [("built-in registrations", "go/tricorder/setup.go"), ("resource usage copy", "go/tricorder/wrapper/syscall_linux.go")])
p("C33", "Group ids are unique",
  "No two groups, distributions or lists of a process ever have the same group id.",
  ["schedules"], "every interleaving of creations",
  "Needs concurrent creations.",
  [M], [("id sequence", M)])
p("C34", "What is not there is reported as not found, not as something else",
  "Looking up a path that does not exist gives the not-found answer of that interface (not-found error from the API and RPC, 404 for a single JSON metric, an empty list for listings, a message on pages), and a path that names a directory is never returned as a metric or the reverse.",
  ["inputs"], "every path and tree",
  "Tests cover a few missing paths.",
  [M, "go/tricorder/api.go", "go/tricorder/rpc.go", "go/tricorder/json.go", "go/tricorder/html.go"], [("path lookup", M)])
p("C35", "All interfaces read paths the same way",
  "Every interface that takes a path ignores empty and blank components and leading or trailing slashes, and treats all other components literally, so one metric has one path everywhere.",
  ["inputs"], "every path string at every entry point",
  "Tests cover a few spellings on some entry points.",
  [M, "go/tricorder/api.go"], [("path splitting", M)])
p("C36", "The command-line client shows each reply on its own",
  "The client decodes each reply into storage no other reply has touched and prints exactly the replies that succeeded to standard output.",
  ["inputs", "histories"], "every pair of replies",
  "The client has no tests.",
  ["go/tricorderclient/tricorderclient.go"], [("RPC calls", "go/tricorderclient/tricorderclient.go")])

exec(open(os.path.join(HERE, "tools", "claims.py")).read())

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for k in sorted(P):
            f.write(json.dumps(P[k]) + "\n")
    checks, na = [], []
    for k in sorted(P):
        if k in CLAIMS:
            tech, note = CLAIMS[k]
            checks.append(dict(property=k, quick_cmd="bash run.sh %s quick" % k, thorough_cmd="bash run.sh %s thorough" % k,
                               technique=tech, level="other", level_note=note))
        else:
            na.append(dict(property=k, reason=NA.get(k, "no static rule built for it yet; see DESIGN.md")))
    m = dict(version=1, setup_cmd="bash run.sh --build", checks=checks, not_applicable=na)
    m.update(EXTRA)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
