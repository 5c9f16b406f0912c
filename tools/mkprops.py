#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
L = "internal/logument/logument.go"
P = "internal/tsonpatch/tsonpatch.go"
T = "internal/tson/tson.go"
S = "internal/tson/serialization.go"
V = "internal/vssgen/vss.go"
A = "internal/vssgen/args.go"
props = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": a})

LOGT = "The existing log tests take one fixed four-patch log, call the operation once and print the result without asserting anything about it"
PT = "The existing patch tests apply two fixed patches to one document; "

prop("C01", "Snapshot of a version is the exact replay of the log",
 "For every log and every version k up to the latest, the snapshot at k equals the initial document with all patches appended as versions 1..k applied in the order they were stored, values and timestamps included. The answer is the same whichever snapshots were taken before, in whatever order and however often, and whatever was stored or appended in between. Asking for a version beyond the latest is refused (a panic) and leaves the log as it was.",
 ["histories", "inputs"], "every history of store/append/set/snapshot calls over every initial document, every version, every order of earlier snapshot requests",
 LOGT + "; no test takes the snapshot of a version two or more patches after the nearest stored snapshot, or takes snapshots out of order.",
 [L, P], [("nearest stored snapshot lookup", L + " findLatest"), ("patch-by-patch replay", L + " Snapshot"), ("patch application", P + " ApplyPatch")],
 observe=["return value of Snapshot", "Snapshots map after the call"],
 state=[("Snapshots", "materialised documents per version; version 0 is the initial document", L + " type Logument"), ("Patches", "the operations of each version", L + " type Logument")])

prop("C02", "Store and Append lose, duplicate and reorder nothing; versions are contiguous",
 "Every operation handed to the log by store, in any accepted input form (JSON text, bytes, one operation, a patch, a list of patches), by creation, or by an accepted set is afterwards found exactly once, in arrival order, in the pending pool or in exactly one version, with its kind, path, value and timestamp unchanged. Append moves the whole pending pool, if there is one, into exactly one new version numbered one above the latest, empties the pool and touches no earlier version; with nothing pending it changes nothing. Version numbers are always 0..n without a gap or repeat, and a malformed input is refused (a panic) without changing the log.",
 ["histories", "inputs"], "every sequence of store, set and append calls with every input form, empty patches included",
 LOGT + "; conservation over arbitrary sequences and input forms is never checked.",
 [L, P], [("pool accumulation", L + " Store"), ("pool to version", L + " Append"), ("growth check", L + " isGrown")],
 observe=["Version, Patches and PatchPool after each call"])

prop("C03", "Queries never change what the log says",
 "Snapshot, time snapshot, slice, time slice, track, time track and history leave every recorded operation of every existing version, every stored snapshot and the current state exactly as they were, in content and in order; the only permitted effects are that a version's snapshot may be kept for reuse and that a time snapshot may turn the pending operations into the next version. Repeating any query, or running any queries in another order, gives the same answers.",
 ["histories", "inputs"], "every log history and every sequence of query calls with every version and time argument",
 LOGT + "; none compares the log before and after a query.",
 [L, P], [("non-mutating replay", P + " applyTraverse"), ("queries", L + " Snapshot, TemporalSnapshot, Slice, TemporalSlice, Track, TemporalTrack, History")],
 observe=["deep copy of the log before and after each query", "answers of repeated queries"])

prop("C04", "Track returns exactly the value changes between two versions",
 "For versions i <= j the tracked changes contain, version by version and in stored order, the recorded operations of versions i..j, leaving out only operations that set a path to the value it already got from an earlier operation in that range, with no operation on an enclosing, enclosed or sibling-shifting path in between; the first operation on a path and every removal are always present and every such repetition is left out. Applying the tracked changes of i..j on top of the snapshot at i-1 reproduces, version by version, the values of the snapshots up to j (timestamps aside). An invalid range (i > j, or beyond the latest version) is refused with a panic.",
 ["histories", "inputs"], "every log, every pair of versions, values repeated within and across versions, removals and re-additions",
 LOGT + " and its expected output exists only as a comment.",
 [L], [("per-path last value table", L + " Track")], observe=["return value of Track"])

prop("C05", "Time track returns exactly the value changes inside a time window",
 "For a window [t1, t2], both ends included, the tracked changes contain exactly those recorded operations whose timestamp lies in the window, under the version that holds them and in stored order, leaving out only operations that set a path to the value it already got from an earlier operation of the window with no operation on an enclosing, enclosed or sibling-shifting path in between. The first operation on a path in the window and every removal are always present, every such repetition is left out, and no operation outside the window ever appears. A reversed window is refused with a panic.",
 ["histories", "inputs"], "every log (in time order or not), every window including empty, single-instant and boundary windows",
 LOGT + " and its expected output exists only as a comment.",
 [L], [("window filter and per-path last value table", L + " TemporalTrack")], observe=["return value of TemporalTrack"])

prop("C06", "Time snapshot is the state as of the given instant",
 "For every log and instant t, the time snapshot equals the initial document with every recorded or pending operation whose timestamp is at most t applied in timestamp order (operations with equal timestamps in the order they were stored), values and timestamps included, and with no operation later than t applied. This does not depend on how the operations are split into versions, on which snapshots happen to be stored, or on earlier queries.",
 ["histories", "inputs"], "every log, in time order or not, every instant before, between, on and after the recorded timestamps, any stored snapshots",
 LOGT + "; no test asks for an instant reached only through several versions, or after a snapshot was stored.",
 [L, P, T], [("base snapshot choice", L + " TemporalSnapshot"), ("latest timestamp", T + " GetLatestTimestamp"), ("patch application", P + " ApplyPatch")],
 observe=["return value of TemporalSnapshot"])

prop("C07", "A slice answers like the original log for every version it covers",
 "For versions i <= j the slice holds exactly versions i..j: its version list is i..j in order, its operations for each of them are the original ones, and its snapshot at each version k in i..j equals the original log's snapshot at k. Its current state is the state at j, it has no pending operations, and slicing a slice gives the same as slicing the original. An invalid range is refused with a panic.",
 ["histories", "inputs"], "every log, every pair of versions including 0 and equal ends, any set of stored snapshots, slices of slices",
 LOGT + "; nothing is asserted about the subset and no slice starts at version 0 or has a stored snapshot in the middle.",
 [L], [("range selection and base snapshot", L + " Slice")], observe=["the sliced log and its Snapshot answers"])

prop("C08", "A time slice answers like the original log inside its window",
 "For a window [t1, t2] the time slice holds exactly the recorded operations with a timestamp in the window, each once, under its original version number and in stored order, and its version list is increasing without repeats. For every instant t in the window its time snapshot at t equals the original log's, and its time track over any part of the window equals the original log's. A window without any recorded operation gives a slice holding just the state at that time, and a reversed window is refused with a panic.",
 ["histories", "inputs"], "every log, every window (empty, single-instant, covering all), any stored snapshots",
 LOGT.replace("operation once", "operations once") + "; the time slice is not called by any test at all.",
 [L], [("window selection and base state", L + " TemporalSlice"), ("base state", L + " TemporalSnapshot")], observe=["the sliced log, its TemporalSnapshot and TemporalTrack answers"])

prop("C09", "Compaction removes exactly the value-repeating operations under its target",
 "Compacting a path removes from the log exactly those operations on that path or below it that set a path to the value it already got from an earlier recorded operation (with no operation on an enclosing, enclosed or sibling-shifting path in between), and nothing else: all operations on other paths, including paths that merely share a name prefix, every removal and every first or value-changing operation stay, in order and in their version. The values of the document at every version are the same after compaction as before it, and compacting again changes nothing.",
 ["histories", "inputs"], "every log, every target path (root, inner node, leaf, absent, sharing a prefix with others), repeated compaction",
 LOGT + "; the compacted log is only printed.",
 [L], [("prefix match and per-path last value table", L + " Compact")], observe=["Patches after Compact", "replayed snapshots before and after"])

prop("C10", "History lists every value change under a path in time order",
 "The history of a path lists, for each path at or below it that some recorded operation addresses, first the value the initial document holds there (if any) and then that path's recorded operations in ascending timestamp order, leaving out at most those that repeat the value given by the operation before it in time on that path. Paths outside the target, including ones that merely share a name prefix, do not appear, and a path that the initial document does not have simply has no initial entry.",
 ["histories", "inputs"], "every log, every target path, paths added after creation, values repeated, operations stored out of time order",
 LOGT + "; the history is only printed and covers two replaced paths that exist initially.",
 [L, T], [("collection over versions", L + " History"), ("initial value lookup", T + " GetValue")], observe=["return value of History"])

prop("C11", "Set and test-set keep the current state and the pending pool in step",
 "An accepted set (kind add or replace) changes the current state exactly at its path to its value and timestamp and queues exactly that operation; other kinds do nothing, and a set that cannot be applied is refused (a panic) leaving current state, pool and log untouched. A test-set with kind replace queues an operation if and only if the value differs from the current one at that path or the path does not exist (then as an add), and with kind add behaves as set. At every moment the current state equals the document obtained by applying everything appended and then everything pending to the initial document.",
 ["histories", "inputs"], "every interleaving of set, test-set, store, append and snapshot calls, all value types, existing and missing paths, repeated and changed values",
 "The existing tests call set and test-set on one log and print it; none checks that an unchanged value is dropped or that the current state follows stored patches.",
 [L, P, T], [("immediate application", L + " Set"), ("change test", L + " TestSet, leafCompareValue")],
 observe=["CurrentState and PatchPool after every call", "Snapshot after the next Append"])

prop("C12", "Logs built from shared inputs are independent, also under concurrency",
 "Two logs created from the same document or fed the same patch values never influence each other, and no log operation ever modifies a document or patch the caller passed in or a slice's parent. Hence separate logs over shared inputs may be used from different goroutines at the same time, each giving the same answers as when used alone and with no data race.",
 ["schedules", "histories"], "every pair of logs sharing initial documents, patches or slices, every interleaving of their operations on concurrent goroutines",
 "Every existing test uses a single log on a single goroutine with private inputs.",
 [L, P], [("copy instead of in-place update", P + " applyTraverse"), ("pool ownership", L + " Store"), ("slice construction", L + " Slice, TemporalSlice")],
 observe=["race detector reports", "inputs and answers compared with a sequential run"])

prop("C13", "Applying a patch is all-or-nothing and never modifies its input",
 "Applying a patch or an operation returns a new document and leaves the document and the patch it was given exactly as they were, whether it succeeds or fails. It never panics: an operation that cannot be applied (unknown kind, unsupported value, path through a leaf, bad or far out-of-range array index, and the not supported move, copy and test) is reported as an error and yields no document. An empty patch returns an equal document.",
 ["inputs"], "every document, every patch including malformed ones, every failing position inside a multi-operation patch",
 PT + "neither checks the input document afterwards nor applies a failing operation.",
 [P], [("recursive application", P + " ApplyOperation, applyTraverse"), ("index parsing", P + " getIndex")], observe=["return values, and deep copies of the inputs before and after"])

prop("C14", "Each patch operation has exactly its documented effect",
 "An add or replace sets the addressed leaf to the given value (numbers, strings, booleans) and timestamp, creating missing enclosing objects and arrays, overwriting an existing array element or object member, and filling an array that is too short with nulls up to the addressed index; a remove deletes the addressed object member or array element, later elements moving down by one. Nothing else in the document changes, and operations of one patch take effect one after the other.",
 ["inputs"], "every document shape (nested objects in arrays and arrays in arrays included), every path into it or one step beyond it, every value type, patches of any length",
 PT + "both fail on the pinned tree and no passing test asserts the content of a patched document.",
 [P], [("recursive application", P + " ApplyPatch, applyTraverse")], observe=["returned document compared with an independent model"])

prop("C15", "A generated patch turns the first document into the second, minimally",
 "For any two documents, generating a patch either is refused with an error, which happens only when an object, an array or a null would have to be created, or gives a patch that, applied to the first document, produces one with exactly the values and structure of the second. The patch is empty when the values are equal, even if timestamps differ, and it has no operation for an object member reached without passing through an array whose value is the same in both documents. Generation never panics and modifies neither document.",
 ["inputs"], "every ordered pair of documents: changed, added and removed leaves, type changes, arrays growing, shrinking and changing anywhere, nested containers",
 PT + "patch generation is exercised on a single pair and its output is not re-applied.",
 [P], [("recursive comparison", P + " GeneratePatch, handleValues, diff, compareArray, matchesValue")], observe=["generated patch, and the document after applying it"])

prop("C16", "A generated timestamp-aware patch reproduces the second document exactly",
 "For any two documents, generating a timestamp-aware patch either is refused with an error, which happens only when an object, an array or a null would have to be created, or gives a patch that, applied to the first document, produces exactly the second one, all values and all timestamps included. The patch is empty exactly when the two documents are equal including timestamps, and each of its add and replace operations carries the second document's value and timestamp at its path.",
 ["inputs"], "every ordered pair of documents, including pairs that differ only in timestamps, and timestamps of any 64-bit size",
 PT + "the timestamp-aware generator is not covered by any test of its own.",
 [P], [("recursive comparison with timestamps", P + " GeneratePatchWithTimestamp, handleValuesWithTimestamp, matchTimestamp, compareArrayWithTimestamp")], observe=["generated patch, and the document after applying it"])

prop("C17", "Patches survive their JSON form unchanged",
 "Writing a patch or an operation as JSON text by any of the offered ways always gives valid JSON, and reading it back gives the same operations in the same order: kind, path, value and timestamp are all unchanged for every path and value that is valid UTF-8 text, every number and boolean value and every 64-bit timestamp. The same operations are read from any other JSON spelling of the text (order of members, white space, escapes, exponents). Malformed patch text is reported as an error and never causes a panic, and so is, by the calls that return one, a value that has no JSON form (NaN, infinities, functions).",
 ["inputs"], "every patch with any Unicode path and value (quotes, backslashes, control characters), any 64-bit timestamp, false, zero and empty values",
 PT + "they only read two hand-written patches.",
 [P], [("writers", P + " Patch.String, Operation.String, Operation.Marshal"), ("reader", P + " Unmarshal, FromJson")], observe=["text and the operations read back"])

prop("C18", "Every leaf can be addressed, whatever its key is called",
 "For any document whose keys are arbitrary strings (containing slashes, tildes, dots, spaces, digits or nothing at all), the slash-separated path made by escaping each key (tilde as ~0, slash as ~1) addresses exactly that place: reading it returns that value and patching it changes that place and no other. Reading and patching agree on what a path means, and the paths in generated patches follow the same rule. A path not starting with a slash is the dotted form of the same address.",
 ["inputs"], "every document with hostile key names, every node in it, both path notations (dotted for keys without dots and slashes)",
 "The tests only use plain alphabetic keys; escaping is never exercised and the patch tests that use a leading slash fail on the pinned tree.",
 [P, T], [("path splitting", P + " ApplyOperation"), ("path splitting", T + " GetValue"), ("path building", P + " makePath")], observe=["GetValue, ApplyOperation and GeneratePatch on the same path"])

prop("C19", "Timestamped text survives a write and read round trip",
 "Writing any document in the angle-bracket timestamp format, compact or indented with any white-space prefix and indent, and reading the text back gives the same document: same structure, same strings byte for byte, same numbers, booleans and nulls, and the same timestamp on every leaf (a negative one being read back as -1, meaning none). JSON-like documents given to the indented writer, plain or with value and timestamp pairs, read back as the same document too.",
 ["inputs"], "every document: empty containers, nested arrays, hostile strings and keys including control characters and invalid UTF-8, numbers of every magnitude, every timestamp",
 "The existing tests round-trip one small document with plain strings, short decimals and no null.",
 [S], [("compact writer", S + " Marshal, marshalTson"), ("indented writer", S + " MarshalIndent"), ("reader", S + " Unmarshal, parseVal, parseString, parseNumber")], observe=["text written and document read back"])

prop("C20", "Reading malformed text is always a clean error",
 "For any byte sequence whatsoever, each of the readers (timestamped text, JSON, JSON with value and timestamp pairs) returns either a document or an error: it never panics, crashes, hangs or exhausts the stack. Text that is cut short, has anything but white space after the document, or has unbalanced brackets, missing separators, an unterminated string, a word other than true, false and null, or a number or timestamp too large to be held is never accepted, and any document that is accepted can be written and read back to itself.",
 ["inputs"], "every byte string: random, mutated and truncated documents, deep nesting, appended garbage",
 "The tests feed the readers one well-formed document and no malformed input.",
 [S, T], [("hand-written parser", S + " Unmarshal, Parser"), ("conversion", T + " FromCompatibleTsonBytes, FromJsonBytes")], observe=["error or document for each input"])

prop("C21", "Everything the documented grammar allows is read with its exact meaning",
 "Every text of the documented grammar is accepted and yields the document it denotes: a timestamp may follow an object key, precede an array element or follow any primitive, with any amount of white space between tokens. The leaf carries exactly the written timestamp, and -1 when it is omitted or written as empty brackets; JSON escapes in strings, numbers with exponents, true, false and null are all understood.",
 ["inputs"], "every text of the grammar with every timestamp placement, white space and escape spelling",
 "The tests read one document in one layout with timestamps only after keys and before elements.",
 [S], [("recursive-descent parser", S + " parseVal, parseObject, parseArray, parseTimestamp")], observe=["document read, compared with the one the text was derived from"])

prop("C22", "The plain JSON form with value and timestamp pairs loses nothing",
 "Converting any document (of valid UTF-8 text) to its JSON form with value and timestamp pairs, in any of the offered ways (bytes, sorted bytes, indented string, object), always gives valid JSON holding every value and timestamp, and converting it back gives exactly the same document, for every 64-bit timestamp (up to 2^53 in the object form, whose numbers are floats) and every structure including nulls, empty containers and members named value and timestamp. Equal documents give identical sorted bytes.",
 ["inputs"], "every document with valid Unicode text, every 64-bit timestamp (nanosecond clock values in particular)",
 "The tests convert one document with ten-digit timestamps, far below where precision is lost.",
 [T, S], [("writers", T + " ToCompatibleTsonBytes, ToCompatibleTsonBytesSorted, ToCompatibleTson"), ("reader", T + " FromCompatibleTsonBytes, checkLeaf")], observe=["JSON text and the document read back"])

prop("C23", "JSON conversion strips and adds timestamps and nothing else",
 "Converting a document to JSON gives exactly its structure and values with all timestamps gone, and converting JSON to a document gives exactly that structure and those values with every leaf stamped -1; both work for every JSON value of valid UTF-8 text, top-level primitives and nulls included. JSON to document to JSON is the identity, document to JSON to document only resets the timestamps, and neither direction modifies what the caller passed in.",
 ["inputs"], "every document and every JSON value",
 "The tests convert one object each way; top-level primitives, nulls and the caller's copy are not looked at.",
 [T], [("conversion", T + " ToJson, FromJson, ToJsonBytes, FromJsonBytes")], observe=["converted values, and the inputs before and after"])

prop("C24", "Document equality is exact",
 "The equality test reports true for two documents exactly when they have the same structure, values and timestamps, and the timestamp-blind one exactly when they have the same structure and values. Any single difference is noticed, wherever it lies in the document and however small it is, a difference of one in a nanosecond timestamp included; the order of object members never matters and neither input is modified. A document that can be written in no form, since it holds a number that is not finite, is refused with an error by both tests on either side.",
 ["inputs"], "every pair of documents, in particular pairs one single edit apart",
 "The tests compare one document with itself.",
 [T], [("comparison", T + " Equal, EqualWithoutTimestamp")], observe=["return values against an independent comparison"])

prop("C25", "Lookups return exactly the addressed node and the true latest timestamp",
 "Looking up the path of any node of a document, object, array, leaf or null, returns exactly that node, and looking up a path that does not exist (missing key, index not a number, negative or out of range, step into a leaf, malformed path) is an error, never a panic or another node's value. The latest timestamp of a document is the largest timestamp of all its leaves, and 0 if a container holds none above 0.",
 ["inputs"], "every document, every node and every near-miss path",
 "The tests look up a handful of existing paths of one document.",
 [T], [("path walk", T + " GetValue"), ("maximum over leaves", T + " GetLatestTimestamp")], observe=["return values against an independent walk"])

prop("C26", "Each generated update is exactly described by its patch",
 "For every generated vehicle data set and every change and maintain rate, generating the next data set returns a patch that applied to the previous data set gives exactly the next one, values and nanosecond timestamps included. The next data set has the same structure and value types as the previous one (whole numbers stay whole), the previous one is not modified, a leaf's value changes only together with its timestamp, no value changes at change rate 0, and no scalar leaf keeps its timestamp when the rates sum to 1 or more.",
 ["inputs", "configurations"], "every schema subset, change rate and maintain rate, chains of many updates",
 "The existing generator tests run one update and print it; three of them fail in this environment.",
 [V, P], [("next data set", V + " GenerateNext"), ("patch generation", P + " GeneratePatchWithTimestamp")], observe=["GetData of the data sets and of the patch"])

prop("C27", "The generated files replay: each car's patches rebuild each of its documents",
 "For every configuration with at least one document per car, generating a data set writes for each car exactly the requested number of documents and one patch file for each document after the first; every file can be read back by the library's own readers, and applying patch file j to document j-1 gives exactly document j, for every j, so the first document and the patches alone rebuild all documents. This also holds when the optional maintain rate is not given and when an older data set is overwritten.",
 ["configurations", "histories"], "every number of cars and files, change rate, maintain rate (or none) and data set size",
 "No test generates a data set directory.",
 [A, V], [("chain of updates", A + " Generate"), ("file writer", V + " Save")], observe=["files in the output directory"])

prop("C28", "Generated signals stay within their declared type and allowed values",
 "Every leaf of a generated initial data set lies at the path of a leaf of the schema and has the kind of value that its declared data type asks for: booleans for boolean types, numbers for numeric types (whole numbers within the range of integer types, non-negative for unsigned ones, 0 to 100 for percentages), one of the allowed values where the schema lists them, non-empty arrays for array types. With size 1 every schema leaf is present, with size 0 none is, and all leaves of one data set carry the same timestamp.",
 ["inputs", "configurations"], "every schema leaf, every random draw, every size",
 "The tests generate once and print; the random draws differ on every run.",
 [V], [("typed random generation", V + " Generate")], observe=["GetData compared with the schema file"])

prop("C29", "The simulation's patches, counters and documents agree with each other",
 "After a simulation run, in an empty directory or over the results of an earlier run, for every scenario, the saved initial document with all saved patches applied in order gives the saved final document, for the plain JSON and for the timestamped output alike. The reported counts agree with the saved data: total updates are value changes plus timestamp-only changes, there are as many timestamped patches as value changes and as many plain patches as updates plus value changes, and the patch sizes are those of the saved patches. The recorded series are monotone and agree with the patches before each point, every timing row belongs to one update, and each recorded sensor has one row for every simulation step with its value at that moment.",
 ["histories", "configurations"], "every simulated scenario and random run of the simulation",
 "The simulation is not exercised by any test.",
 ["exp/exp_scenario.go", "exp/utils.go"], [("update loop", "exp/exp_scenario.go runRealisticExperiment"), ("document updates", "exp/utils.go updateJsonDoc, updateTsonDoc"), ("change test", "exp/utils.go isEqual")], observe=["files written under the result directory"])

prop("C30", "The interval-based baseline and the log answer time queries alike",
 "For any series of add and replace operations, at positive times, on members of an initial object document, the interval-based baseline document and the log give the same values at every instant between the first and last patch, and the baseline's track of a path over a window lists exactly the values that were in force at some time in it, each with the interval during which it was, in time order. Event searches report, in time order, exactly the times in the window at which the value at the path became greater than the threshold by a change. The numbered snapshots written for a series are the initial document and the document after each operation.",
 ["histories", "inputs"], "every patch series (in any input order, several at one instant, single-segment paths), every instant, path, window and threshold",
 "Neither the baseline nor the comparison is exercised by any test.",
 ["exp/tjson.go", "exp/utils_temporal.go", L], [("interval construction", "exp/tjson.go FromTSONPatches, AddItem"), ("interval lookup", "exp/tjson.go TemporalSnapshot, TemporalTrack, FindEvents"), ("log queries", "exp/utils_temporal.go findEventsInLogument")], observe=["query results and saved result files"])

prop("C31", "Scenario switching follows battery level and cooldown, and stays in range",
 "In the mixed scenario the vehicle switches from driving to charging only when the battery is at or below 10 percent and back to the previous scenario only when it is at or above 99.95 percent, never sooner than the cooldown of 60 seconds after the last switch (or the start), and it does switch at the first update where both hold. A switch is reported exactly when the scenario changed, and on it the sensors take the behaviour of the new scenario (the vehicle stands still when charging starts), and the vehicle reports that it is charging exactly in the charging scenario.",
 ["histories"], "every sequence of battery levels and update times",
 "No test touches the scenario state.",
 ["exp/scenario.go"], [("state machine", "exp/scenario.go UpdateScenarioState"), ("settings", "exp/scenario.go applyScenarioSettingsForMixed")], observe=["scenario state and sensors after each update"])

prop("C32", "The web demo serves the true document for every patch number, concurrently",
 "For every car and every patch number n of the data set on disk at the time of the request, the demo server's patch request returns the document that results from that car's first document and its patches up to n, which is the generated document n, and its update requests return the stored first document or patch file unchanged. Any number of simultaneous requests give the same answers as single ones, without data races, and a request naming an unknown car or patch or a path outside the data set is never answered with data from elsewhere and never stops the server.",
 ["schedules", "inputs"], "every car and patch number, hostile request parameters, concurrent clients",
 "The server is not started by any test.",
 ["web_demo.go", L, A], [("replay handler", "web_demo.go patchHandler"), ("file handler", "web_demo.go updateHandler"), ("log replay", L + " Snapshot")], observe=["HTTP responses compared with files on disk", "race detector reports"])

prop("C33", "Data set accessors list, convert and print exactly the data set",
 "For every generated data set, LeafNodes lists every leaf (a timestamped value or an array of them) exactly once under its dotted path and nothing else, and BuildFromLeafNodes and ToMapStringInterface give exactly the data set: same structure, values, types and timestamps. None of them changes the data set, changing what ToMapStringInterface returned does not change it either, and a generated patch has no leaves and is not converted but reported as an error. Printed, a data set is text that the library reads back as the data set; printed with line numbers, a data set or patch is its JSON in lines numbered from 1.",
 ["inputs", "configurations"], "every schema subset and every generated and updated data set",
 "No test calls the conversions; LeafNodes is only printed.",
 [V, "internal/vssgen/extension.go"], [("leaf listing", V + " LeafNodes"), ("conversions", "internal/vssgen/extension.go BuildFromLeafNodes, ToMapStringInterface"), ("printing", V + " Print, PrintWithIndex")], observe=["results compared with GetData"])

prop("C34", "Simulated sensors follow their configuration",
 "In every simulated scenario, every configured sensor is in the initial document and is updated exactly at the simulation steps that are multiples of its update interval, from time 0 to the end of the run, and nothing else is updated. Each of its values has the type its configuration declares, a sensor that is constant in the scenario never changes its value, and constant, linear and random-walk sensors stay within the configured minimum and maximum. Recorded changes follow the pattern: a random walk moves by at most its step, a linear sensor by its slope up to its limits, a noisy one stays within its noise around its base value, and a sinusoidal one is on its curve; and a sensor whose pattern gives it a noticeably different value at an update does change then.",
 ["histories", "configurations"], "every scenario and every random run of the simulation",
 "The simulation is not exercised by any test.",
 ["exp/exp_scenario.go", "exp/scenario.go", "exp/utils.go"], [("update loop", "exp/exp_scenario.go runRealisticExperiment"), ("value changes", "exp/utils.go")], observe=["timing rows, patches and documents saved by a run"])

prop("C35", "The temporal-query experiment reports true answers on the newest recording",
 "The temporal-query experiment evaluates the newest recording of the scenario (by the name of its directory), whatever older recordings, other directories or earlier results lie beside it, and leaves recordings as they are. It takes 61 snapshots spread evenly from the first to the last recorded time, tracks the four recorded signals over the whole range, and searches a ten-second window inside it for each speed threshold. Every answer it saves, of the log and of the baseline, is what a replay of the recording gives, and each result table has exactly one row per query, in order, naming the query, with the sizes of the two saved answers and the differences that follow from the row.",
 ["histories", "configurations"], "every recording, set of older recordings and run of the simulation",
 "The experiment is not exercised by any test.",
 ["exp/exp_temporal.go", "exp/utils_temporal.go", "exp/tjson.go"], [("choice of recording", "exp/exp_temporal.go findLatestTimestampDir, loadTSONPatches"), ("query times", "exp/exp_temporal.go generateTimestamps, getTimeRange"), ("queries and tables", "exp/utils_temporal.go")], observe=["saved answers and tables compared with a replay of the recording"])

prop("C36", "The generator command does what its arguments say and stays in its directory",
 "For every command line, the generator either refuses it (the number of cars or files is missing or negative, or an argument is malformed or unknown) with a usage message and a non-zero exit, leaving every file as it was, or carries it out: afterwards the output directory holds exactly the documents and patches asked for and the metadata, with nothing left of an older data set, and the metadata names the settings in effect, given or default (change rate 0.2, size 1, the shipped schema). The data follows the settings: all signals of the schema at size 1, none at size 0, no value change at change rate 0. No file outside the output directory is created, changed or removed, also when the output directory is a link or contains links.",
 ["inputs", "configurations"], "every command line and every state of the working directory",
 "No test parses a command line or prepares a directory.",
 [A, "web_demo.go"], [("argument parsing", A + " ParseArgs"), ("clearing the directory", A + " PrepareOutputDir"), ("command", "web_demo.go generateVss")], observe=["exit code, messages and all files before and after, run as an unprivileged user"])

prop("C37", "The demo page shows what is stored for its selection, whenever replies arrive",
 "The demo server sends the demo page. Once all its requests are answered, in whatever order the replies came, the page shows the first document of the selected car and the selected patch exactly as they are stored (layout aside): every character and every digit, and never as markup. While the button offers to save a snapshot, the result box shows the document that the selected car's patches up to the selected one lead to, and pressing the append button gets there unless the selection changes meanwhile. A saved snapshot is listed once under the car and patch it was taken of, and shows that document whenever it is selected.",
 ["schedules", "inputs"], "every order of user actions and replies, every stored document and patch",
 "Nothing tests the page; the order of replies is not under a test's control.",
 ["index.html", "web_demo.go"], [("requests and replies", "index.html updateVehicle, updatePatch, applyPatches"), ("snapshots", "index.html saveSnapshot, onAppendSnapshotClicked"), ("display", "index.html syntaxHighlight"), ("page", "web_demo.go homeHandler")], observe=["text of the page's boxes and lists after each step"])

prop("C38", "An interval document tells the same history as the series it is made of",
 "For every series of adds, replaces and removes at any times, before 0 as well, stored in any order and with paths in dotted or slash notation, the interval document (the temporal JSON baseline) made of it, or one built item by item from disjoint intervals, gives for every time up to its end exactly the values in force at that time: a value is there from the time it is set until it is replaced or removed, and nothing else is. Tracking a path lists in order exactly the intervals that overlap the range, an event search lists exactly the starts of the matching values within the range, an unknown path has neither, and neither making nor asking the document changes the series or the document.",
 ["inputs", "histories"], "every series of operations, every time and every range, at and around each change",
 "No test makes or asks an interval document.",
 ["exp/tjson.go"], [("making", "exp/tjson.go FromTSONPatches, AddItem"), ("queries", "exp/tjson.go TemporalSnapshot, TemporalTrack, FindEvents")], observe=["snapshots, tracks and events compared with a replay of the series"])

prop("C39", "Everything given to the experiment's storage is on disk as given",
 "Each save of a document, patch, snapshot or list of patches writes one JSON file in the storage's own directory that reads back as exactly the data given; every kind, patch number and snapshot time has its own file, saving again replaces it, and no other file is touched. Data that cannot be written is refused with an error and no file changes; a file that cannot be written (its directory is gone, its name is a directory's, the disk is full) is reported by the save's error, and so is a sensor file that cannot be created by the making of the recorder. The sensor recorder writes, for each key sensor present in the vehicle, exactly one row per call, in order, with the simulation time and the value at that moment (numbers to four decimals), whatever an earlier recording of the scenario left behind, and all rows are on disk once it is closed.",
 ["inputs", "histories"], "every document, patch number, time and sequence of saves, with storages and recorders side by side",
 "No test saves or records anything.",
 ["exp/doc_data_save.go", "exp/sensor_data_save.go"], [("storage", "exp/doc_data_save.go DataStorage"), ("recorder", "exp/sensor_data_save.go SensorDataRecorder")], observe=["all files before and after each save, recorded rows"])

prop("C40", "Written text is of the documented grammar and laid out as asked",
 "Every text written in the angle-bracket timestamp format, compact or indented, is text of the documented grammar that any reader of it, not only the library's own, understands as the same document: nothing but JSON's punctuation and primitives and at most one timestamp to a value, standing after the object key, before the array element or after the value, and none at an object, array or null. Indented text has the layout of JSON indenting: every member and element and every closing bracket of a non-empty object or array starts a line of its own, made of the prefix and exactly one indent per level, and no line breaks elsewhere.",
 ["inputs"], "every document, JSON-like documents too, every prefix and indent of spaces and tabs",
 "The existing tests read back one small text with the library's own, lenient reader and never look at the text.",
 [S], [("compact writer", S + " Marshal, marshalTson"), ("indented writer", S + " MarshalIndent")], observe=["every written text, read by an independent reader and its lines inspected"])

prop("C41", "A simulated vehicle behaves as its scenario describes",
 "In every run of the charging scenario the vehicle stands still from the first moment to the last (speed, accelerations, steering angle, brake and accelerator are 0), reports that it is charging throughout, at a rate of 10 to 13 kW, starts with 20 to 40 percent battery and 2 to 3 hours to go, and from then on its battery level only rises, its remaining time only falls, its battery only gets warmer and nothing else changes. In every run of a driving scenario it never reports charging or a charging rate, and its battery level only falls, faster on the highway than in town; its fuel never grows; in town it starts at 40 to 60 km/h, never exceeds 70 and never changes by more than 5 km/h at a time, on the highway it keeps between 90 and 110 km/h, steers and accelerates by less than 1 degree and 1 m/s², and holds the accelerator at 20 to 30 percent. Its identification never changes.",
 ["histories", "configurations"], "every scenario and every random run of the simulation",
 "The simulation is not exercised by any test.",
 ["exp/scenario.go", "exp/vss_config.go"], [("scenario settings", "exp/scenario.go applyUrbanTrafficSettings, applyHighwayCruisingSettings, applyBatteryChargingSettings"), ("patterns", "exp/scenario.go updateAllSensorPatterns"), ("value changes", "exp/utils.go calculateNewNumberValue")], observe=["fresh vehicles, and the saved initial document and patches of a run, followed one by one"])

prop("C42", "Reading shared documents, patches and texts is safe from any goroutine",
 "Documents, patches and texts that nobody modifies may be used by any number of goroutines at the same time: writing (all text forms), reading, looking up, comparing, converting to and from JSON, generating patches between them, applying patches to them, and writing and reading patches each give the answer the same call gives alone, success or error alike, with no data race and without changing what is shared. Every answer belongs to its receiver: texts, read documents, converted values and patches stay as they were given whatever is called later, and whatever the receiver does with them never shows in another answer, nor does appending to one array of a read document change another.",
 ["schedules", "inputs"], "every set of documents, patches and texts, every interleaving of reading calls on them from concurrent goroutines, every use of the answers",
 "No existing test uses a second goroutine, keeps an answer while calling again, or writes to an answer.",
 [T, S, P], [("text forms", S + " Marshal, MarshalIndent, Unmarshal"), ("lookup, equality and conversions", T), ("patch generation and application", P)],
 observe=["race detector reports", "every answer compared with the one given alone, at once and again at the end"])

prop("C43", "Finished work leaves nothing behind",
 "However often work of any kind is repeated with ever new inputs, whether it is accepted or refused, the process is afterwards as it was: when the documents, patches, logs, interval documents, data sets and vehicles it was about are no longer used and its storages and recorders are closed, no memory stays in use, no goroutine goes on and no file stays open in proportion to the number of repetitions (what is kept up to some fixed amount does not matter), no file is left that was not asked for, and the working directory, the environment and the standard streams are as before. This holds for reading, writing, converting, comparing and patching, for building and querying logs, for storing, recording, simulating and querying experiments, for generating data sets and for the requests the demo server answers. A log that is kept and queried over and over holds at most one document per version on top of its history, and what a log holds grows in proportion to what was appended to it.",
 ["histories", "inputs"], "every kind of work, every sequence of inputs, any number of repetitions",
 "A test makes a handful of calls and exits; nothing looks at what remains.",
 [L, T, S, P, "internal/vssgen/vss.go", "internal/vssgen/args.go", "exp/doc_data_save.go", "exp/sensor_data_save.go", "exp/tjson.go", "exp/exp_scenario.go", "exp/utils_temporal.go", "web_demo.go"],
 [("logs", L + " Logument"), ("documents and texts", T + ", " + S), ("patches", P), ("files", "exp/sensor_data_save.go NewSensorDataRecorder, Close; exp/exp_scenario.go RealworldScenario"), ("server", "web_demo.go updateHandler, patchHandler")],
 observe=["objects and bytes alive after garbage collection", "goroutines", "open files", "files left", "settings of the process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")
for p in props:
    assert len(p["title"]) <= 80, p["id"]
