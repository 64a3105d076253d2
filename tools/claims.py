ABS = "abstract interpretation of the type-checked SSA form: "
SOUND = "Decides the statement for all inputs, schedules and histories within the modelled semantics: every path of every entry point is covered by joins (no path enumeration, no solver); an obligation that cannot be discharged is reported. Library functions are trusted models (checker/models.go). "
CLAIMS = {
 "C01": (ABS + "the group server goroutine is analysed for every counter class (0, 1, n>=2) x message", SOUND + "Confinement to the server goroutine is C05's."),
 "C02": (ABS + "typestate of the visited-groups map, provenance of times and ids stored in messages", SOUND),
 "C03": (ABS + "enter/leave typestate on all returns and panics of all entry points", SOUND + "Panics considered: explicit panics and panics of client callbacks."),
 "C04": (ABS + "every reflective read or call is dominated by an entered, not yet left group", SOUND),
 "C05": (ABS + "ownership of group fields and request/answer rendezvous", SOUND),
 "C06": (ABS + "static lockset analysis over all entry points and goroutines", SOUND + "Locks are matched to the object they protect by the path from the object; state owned by the group goroutine is C05's."),
 "C07": (ABS + "typestate of every mutex on all returns and panics, acquisition-order graph", SOUND + "Panics considered: explicit panics and panics of client callbacks."),
 "C08": (ABS + "symbolic deltas of the distribution's cells per operation", SOUND + "Float arithmetic is compared as the expression that is computed, not its rounding."),
 "C09": (ABS + "case split over orderings of value, min and max", SOUND),
 "C29": (ABS + "typestate of the response (headers, first byte) in every registered page handler", SOUND + "Templates and writers are modelled as writes."),
 "C30": (ABS + "typestate of the response and of the compressing writer, provenance of the encoded value", SOUND + "Compression is decided for representative Accept-Encoding values; the encoder itself is trusted."),
 "C31": (ABS + "histories of setters and page requests from package initialisation, with a fixpoint over all earlier histories", SOUND),
 "C33": (ABS + "provenance of reported ids to single draws from a source shown to be strictly increasing", SOUND + "Integer wrap-around of the counter is not considered."),
 "C13": (ABS + "registration entry points x (unassigned, same, other unit); operations x value types x units", SOUND + "Float arithmetic is compared as the expression that is computed, not its rounding."),
 "C14": (ABS + "no store reaches a panicking exit", SOUND),
 "C22": (ABS + "every table function is evaluated for every declared kind, for an undeclared one and for every Go type in the table", SOUND),
 "C25": (ABS + "the set of Go types registered by package initialisation against the set the kinds can have", SOUND),
 "C26": (ABS + "interval analysis of every maker, reader and printer of durations per sign; structure of the printed text", SOUND + "Integer overflow is not considered; float inputs are finite."),
 "C27": (ABS + "table evaluation per unit; normalised linear forms with truncated division per unit and sign", SOUND + "Integer overflow is not considered."),
 "C17": (ABS + "registration entry points x what is found on the way and at the path; typestate of entries and back pointers", SOUND + "Path parsing is C35's."),
 "C18": (ABS + "provenance of deleted keys, immutability of published entries, loop summaries of the path builders", SOUND + "Uses C17's invariant that an entry's parent is the entry of the directory it is in."),
 "C34": (ABS + "every look-up interface x what is found on the way and at the path (nothing, directory, metric, empty path)", SOUND + "What is done with a metric that was found is not interpreted here."),
 "C35": (ABS + "loop summary of the path parser; provenance of every key of a directory look-up to the client's text", SOUND + "strings.Split and strings.TrimSpace are trusted."),
 "C10": (ABS + "provenance and epoch (critical section) of every figure of a reported distribution, for empty and non-empty ones; loop summaries of the ranges", SOUND + "The accuracy of the median estimate is not part of the statement."),
 "C11": (ABS + "ghost end of the last range through every constructor (append and index forms, closed forms of loop variables); provenance of the counter that changes and of reported limits", SOUND + "Which endpoints the constructor computes (float arithmetic) is not interpreted; the library's binary search is trusted."),
 "C12": (ABS + "stores into bucketers and ranges at every entry point; constructors evaluated per class of invalid and valid parameters", SOUND + "NaN parameters are not considered."),
 "C15": (ABS + "creating and changing a list for every element type x mutability, with a model of the reflect package; type, freshness, length and element provenance of the slice kept", SOUND + "That report readers do not write to the reported slice is C05/C06's concern."),
 "C16": (ABS + "changing a list for all pairs of element kinds (effect-free panic), one critical section for contents and time on the write and the read side", SOUND),
 "C20": (ABS + "register-then-report for every registrable Go type (kinds x variable, callback, flag x named types; distributions; lists per kind), with a model of the reflect package; dynamic type and provenance of the reported value", SOUND + "A flag is assumed to give values of one type."),
 "C21": (ABS + "register-then-show for every registrable Go type x every interface (RPC, ReadMyMetrics, JSON, HTML and text pages, templates interpreted from their text) with a symbolic unit and value; panics, reflect misuse and template errors on any path", SOUND + "Nil callbacks and panics of callbacks are the client's. Slice bounds are decided only for tables read at the counter of a loop that divides by a constant."),
 "C23": (ABS + "conversion of messages of every kind and element kind x unit x time stamp; provenance of every field afterwards, loop summaries of lists", SOUND + "Durations' own functions (New, SinceEpoch, StringUsingUnits) are the vocabulary; what they compute is C26/C27's."),
 "C24": (ABS + "conversion of well- and ill-formed messages of every kind with parsing succeeding or failing at each place; no store on any path to an error, every field converted on the others", SOUND + "Durations' own functions (ParseWithUnit, AsGoTime, AsGoDuration) are the vocabulary; what they compute is C26/C27's."),
 "C28": (ABS + "every page x every registrable Go type, templates interpreted from their text; taint of everything that reaches a response which may be taken for HTML", SOUND + "Context-aware escaping itself is html/template's; a value printed by such a template counts as escaped unless its type is one the template trusts."),
 "C19": (ABS + "every listing interface x every registrable Go type, on a directory and on a single metric; typestate of each turn of the listing (entry taken, given out once, listed, left out, failed), evaluation of the comparator handed to the sort, induction over inner directories", SOUND + "A text line is one or more writes, so writing one line twice is not told apart from writing it in pieces. A metric whose float value the code itself finds NaN or infinite may be left out, and in JSON one that json.Marshal refuses."),
 "C36": (ABS + "each remote call split into success and failure; ownership of reply storage, and a typestate (received, failed, printed) per reply followed through encoders and buffers to standard output", SOUND + "A reply counts as printed once something made from it is handed to a write to standard output; the JSON encoding itself is encoding/json's. Replies still unprinted when an earlier one cannot be encoded and the client gives up are not counted."),
 "C32": (ABS + "package initialisation interpreted per operating system; each registration's value read as a linear form over operating-system and runtime quantities and compared with the documented one", SOUND + "darwin is analysed by type-checking the sources for it. What the operating system returns is trusted; integer overflow is not considered. Metrics that are not in the documented list are not judged."),
}
NA = {}
EXTRA = {}
