#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
F = "crates/flowistry/src/"
AN, DE, MU, RE, IM = F+"infoflow/analysis.rs", F+"infoflow/dependencies.rs", F+"infoflow/mutation.rs", F+"infoflow/recursive.rs", F+"infoflow/mod.rs"
AL, EN, PI, UT, EX = F+"mir/aliases.rs", F+"mir/engine.rs", F+"mir/placeinfo.rs", F+"mir/utils.rs", F+"extensions.rs"
I = "crates/flowistry_ide/src/"

p("C01", "Backward slices miss no data flow through values",
  "For every safe function, if changing an input value (an argument, or the result of a call) changes the value observed at a program point in two runs, then that input belongs to the backward dependencies the analysis reports for the observed value at that point. This covers flow through assignments, arithmetic, casts, moves, copies, struct/tuple/enum fields, destructuring, functional update, arrays with computed indexes, vectors and boxes, in async functions (across awaits) as in others.",
  ["programs", "inputs"], "Every terminating safe function over such values, every observed place and point, and every pair of runs that differ in one input.",
  "The fixture tests freeze slices for a few hand-written bodies; whether a dependency is missing depends on arbitrary combinations of projections, moves and overwrites, and the expectation files say what the tool prints, not what the program does.",
  [MU, AN, PI, DE], [("assignment decomposition into per-field mutations", MU), ("transfer function: strong/weak update over conflicting places", AN), ("children/conflicts", PI), ("backward query", DE)],
  ["compute_flow + deps_for at an observer call", "compute_dependencies(Backward)"])
p("C02", "Backward slices include every controlling decision",
  "For every safe function, if flipping a branch, match, loop or short-circuit decision changes whether, or how often, an observed point runs, or which value reaches it, then the inputs of that decision belong to the backward dependencies reported there. This includes decisions that control only indirectly: nested conditionals, loop exits, labelled break/continue, let-else, matches on flags, and code from which the function never returns (a diverging call, an endless loop, a function that never returns at all). Otherwise compared runs leave the function at the same return point: by the tool's design, code after an early return does not depend on the early-return test.",
  ["programs", "inputs"], "Every terminating safe function with any control structure, and every pair of runs that differ in one input and leave through the same exit.",
  "Control dependence is a property of the whole CFG shape: tests contain a handful of if/while bodies, while missing dependencies show up only in nested or irreducible-looking shapes with particular post-dominators.",
  [AN, MU, IM], [("control dependencies of the mutation's location are added to what it writes", AN), ("control dependencies of the queried location", AN)],
  ["deps_for at observer calls inside and after control structures"])
p("C03", "Writes and reads through references are attributed to their targets",
  "For every safe function, if a value is changed or read through any chain of references (reborrows, references in structs, tuples, options, arrays or slices, conditionally chosen references, pattern bindings, iterator and closure captures), every place the reference may designate at run time is treated as written or read: an input that influences the observed value through such a chain is in the reported dependencies.",
  ["programs", "inputs"], "Every terminating safe function that creates and uses references in any nesting, and every pair of runs that differ in one input.",
  "The alias information comes from lifetimes, and soundness must hold for every combination of regions, projections and nested pointers; the tests contain about thirty small bodies.",
  [AL, PI, MU, AN], [("loan sets from outlives constraints", AL), ("aliases of a dereference", AL), ("reachable values", PI), ("weak update of several possible targets", AN)],
  ["deps_for at observer calls that read the borrowed variables or the references"])
p("C04", "A call is summarised soundly by its type signature",
  "In the default mode, for every call in a safe function (free functions, methods, closures, generic, trait and dyn calls, function pointers, operators, destructors), whatever the callee does at run time is covered: an input that influences, through the call, its result or any place reachable by mutable reference from its arguments is in the reported dependencies of that place.",
  ["programs", "inputs"], "Every caller, every callee body that satisfies its signature, every pair of runs that differ in one input.",
  "The guarantee quantifies over all callee implementations of a signature; each test pins one.",
  [MU, PI, UT, AL], [("visit_terminator: call destination and reachable mutable references", MU), ("reachable_values with mutability", PI), ("arg_mut_ptrs / arg_places", UT)],
  ["deps_for at observer calls after the call"])
p("C05", "Whole-program (recursive) mode misses no flow through callees",
  "With recursion into callees enabled, an input that influences an observed value through any chain of calls to functions defined in the crate (by value, by reference, by returned reference, through control flow in the callee, through recursion) is still in the reported dependencies of the caller.",
  ["programs", "inputs"], "Every caller and every callee body, call depths and mutual recursion, every pair of runs that differ in one input.",
  "Translating callee places back to caller places has special cases per argument shape, and only a few fixture pairs exercise it.",
  [RE, MU, AN], [("recurse_into_call: analyse callee and translate its flow to the caller", RE), ("fallback to the modular rule", AN)],
  ["deps_for at observer calls with ContextMode::Recurse"])
p("C06", "Ablation modes only add dependencies; recursion only removes them",
  "For every function and every observed value, the dependencies reported when mutability qualifiers are ignored, or when pointers are treated conservatively, contain all of those reported by default, and those reported with recursion into callees are contained in the default ones when the function's callees cannot diverge. Every ablation mode also satisfies the run-time completeness required of the default mode.",
  ["programs", "configurations"], "Every safe function and each of the evaluation modes (mutability, pointer, context).",
  "Tests check one mode per fixture and never compare the modes' answers for one program.",
  [EX, AL, PI, UT, RE], [("mode switches", EX), ("conservative alias sets", AL), ("IgnoreMut in loan collection and argument pointers", PI)],
  ["deps_for under each EvalMode"])
p("C07", "Forward and backward slices agree with each other and with execution",
  "If changing a value at a point changes, in some run, what a later point computes, then that later point is in the forward slice of the first. The forward slice of a point contains exactly the points at which some written (or branched-on) place has all of the point's dependencies, together with the point itself, and the 'both' direction is the union of the two directions; querying several targets at once gives the answers of querying them one by one.",
  ["programs", "inputs"], "Every function, every pair of points, and any grouping of query targets.",
  "Only a few fixtures query forward slices, each for one target, and none relates directions to each other or to an execution.",
  [DE, IM], [("compute_dependencies Forward/Both", DE), ("TargetDeps", DE)],
  ["compute_dependencies in each direction for call destinations and arguments"])
p("C08", "Slices are precise: independent computations do not mix",
  "On code without ambiguous references, a value's reported dependencies contain no input that cannot reach it along a def-use or control-dependence chain: assigning a variable or a field discards its previous dependencies, different variables and different fields stay separate, a call modifies what it is given by mutable reference and nothing that it is given by shared reference, dropping a value changes nothing that it holds by shared reference, what a call returns is tied only to the arguments whose lifetime its signature gives it, and a branch affects only what is inside it or written by it. The granularity is that of the tool: each assignment of a struct or tuple tells one level of fields apart, a write through a reference adds to what was there, and a value returned by a call is one value.",
  ["programs"], "Every function in the fragment of scalar, tuple and struct variables, unique unambiguous references, structured control flow, calls by value or shared reference, and awaits in async functions.",
  "A precision loss (for example a strong update turned weak) keeps every slice sound and is visible only on bodies whose exact slice is known; the fixtures pin exact slices for very few.",
  [AN, MU, PI, AL], [("strong update for unique targets", AN), ("children vs conflicts", PI), ("mutability-aware reachability", PI), ("per-field assignment", MU)],
  ["deps_for at observer calls compared with a source-level reference slicer"])
p("C09", "Slices are modular and invariant under irrelevant source changes",
  "In the default mode a function's result depends only on its own body and on the signatures of what it calls: replacing callee bodies, adding, removing or reordering other items, renaming local variables, and analysing other functions first leave its slices unchanged.",
  ["programs", "histories"], "Every function, every signature-preserving change of the rest of the crate, and every order in which bodies are analysed.",
  "Each test compiles one fixed file once; a dependence on another item's body, on names, or on the analysis history needs two variants to be compared.",
  [MU, AN, PI, IM], [("signature-only call rule", MU), ("per-body alias computation", AL), ("scoped evaluation mode", EX)],
  ["deps of observer calls across program variants in one and in separate processes"])
p("C10", "Analysing the same body again gives the same answer",
  "Repeating the analysis of the same code, in the same process or in another, with any evaluation modes used in between and on any thread, gives identical dependencies, slices and command output.",
  ["programs", "histories", "schedules"], "Every function and every sequence and interleaving of analyses.",
  "Hash-based collections, caches and the scoped evaluation mode can leak state between analyses; a test analyses each body once.",
  [AN, PI, AL, EX, RE], [("caches keyed by place", PI), ("recursive-result cache", AN), ("dynamically scoped mode", EX)],
  ["serialised results of repeated and interleaved analyses"])
p("C11", "The reported state is the least fixpoint over all paths",
  "The flow state reported at every reachable location equals the least solution of the transfer and join equations over the control-flow graph: it does not change when recomputed with any other correct solver, every predecessor's outgoing state is included in its successors' states, and every reachable location has been visited.",
  ["programs", "schedules"], "Every body, including loops, unreachable blocks, irreducible shapes from match lowering and self-loops, and every order of worklist processing.",
  "The engine is a re-implementation with its own queue and indexing; a lost propagation only shows on CFGs where a block must be revisited after its predecessors changed.",
  [EN, AN], [("iterate_to_fixpoint worklist", EN), ("domain join", AN)],
  ["AnalysisResults::state_at at each location against an independent round-robin solver and rustc's framework"])
p("C12", "Alias information covers what pointers designate at run time",
  "Whenever, in some run of a safe function, dereferencing a pointer-valued place designates memory that belongs to a local variable, to a box it owns, or to what a reference argument pointed to on entry, the alias set reported for that dereference contains a place overlapping that memory; for memory of locals and boxes the places reported as reachable from the pointer contain one as well.",
  ["programs", "inputs"], "Every safe function, every pointer-valued place in it and every execution.",
  "Tests check explicit expected sets on a dozen bodies.",
  [AL, PI], [("Aliases::build loan propagation", AL), ("aliases() projection re-application", AL), ("reachable_values", PI)],
  ["PlaceInfo::aliases / reachable_values versus addresses logged at run time"])
p("C13", "Place sets obey their algebra",
  "For every place of every body: a place is its own alias and child, children of children are children, the conflict relation is symmetric on direct places and links exactly overlapping ones, normalisation is idempotent and preserves local and projection shape, the values reachable mutably are among those reachable immutably, and every argument's reachable places are initialised with that argument.",
  ["programs"], "Every body and every place that occurs in it, including nested structs, enums, arrays, boxes, references and closures.",
  "Unit tests list expected sets for single places; the laws quantify over all types and projections.",
  [PI, AL, UT], [("children", PI), ("conflicts", PI), ("normalize cache", PI), ("reachable_values", PI), ("all_args", PI)],
  ["PlaceInfo queries on every place in every body of a corpus"])
p("C14", "Every memory effect of a statement is reported as a mutation",
  "For every statement and terminator that may write memory, the mutation visitor reports the written place, marked definite exactly when the write surely replaces the whole place, with every operand that can influence the new value among its inputs; statements without effects report nothing.",
  ["programs"], "Every MIR statement and terminator kind, and every combination of operand and destination projections.",
  "Each test feeds one small body per case; combinations of right-hand side kind and destination type are unbounded.",
  [MU], [("visit_assign / visit_terminator", MU)],
  ["ModularMutationVisitor output per location against a structural reading of the MIR"])
p("C15", "Focus slices cover all code that can matter for the selection",
  "For every selectable range in a function, the source ranges of the slice shown for it include the source of every call whose result can influence the selected variable there and of every call whose result the selected value can influence, so code faded out by the editor can never matter.",
  ["programs", "inputs"], "Every function, every selectable place range and every pair of runs that differ in one input.",
  "Mapping locations to source spans has its own cases (for-loops, matches, closures, method chains, multi-line and non-ASCII source), checked today on a few fixtures.",
  [DE, I+"focus/mod.rs", I+"focus/direct_influence.rs"], [("compute_dependency_spans", DE), ("focus grouping by span", I+"focus/mod.rs")],
  ["JSON printed by the focus command"])
p("C16", "The focus result is well-formed and self-consistent",
  "For every function body and every cursor position inside it, the focus command succeeds and returns, for that body, ranges that lie in the requested file inside the function and are properly ordered, with each selectable range non-empty (unless it is that of a return type that is not written) and appearing once, each direct-influence range inside the slice, slice ranges pairwise disjoint, and containers that are exactly the body, the return type and the parameters, the same for every position in the innermost body; every mention of a local variable, other than the value taken apart by a destructuring pattern, lies in a selectable range of its own statement, and of the statements in the slice, those that read, assign or borrow the selected variable, by name or through a reference, are direct influences of it, and those that touch it in neither way are not.",
  ["programs", "inputs"], "Every source file (any formatting, Unicode, nesting of closures and items) and every cursor position.",
  "One smoke test runs the command at one position of one file.",
  [I+"focus/mod.rs", I+"focus/direct_influence.rs", I+"plugin.rs", DE], [("focus()", I+"focus/mod.rs"), ("find_enclosing_bodies", I+"plugin.rs")],
  ["JSON printed by the focus command at every position"])
p("C17", "The spans command lists every function body exactly once",
  "For every source file of a crate, the spans command returns exactly one range per function, method and closure written in that file (an async body counts as a closure; constants, their closures and code made by macros are not listed), each covering exactly that item's source text up to its closing brace, none from other files, and reports a missing file as not found.",
  ["programs", "inputs"], "Every crate layout (modules, nested items, impls, traits, macros, several files) and every file name.",
  "One smoke test checks a single file.",
  [I+"spans.rs", I+"plugin.rs"], [("spans callback filtering by file", I+"spans.rs")],
  ["JSON printed by the spans command compared with an independent scan of the source"])
p("C18", "The IFC checker reports every leak of a secure value and no false ones",
  "For every function in which a value of a secure type can influence, by data or control flow, a value of an insecure type, the checker reports an insecure flow naming that function's file and the lines that declare the two; a function whose insecure values are all computed without the secure one is not reported. Local variables and arguments count, by value or behind a reference; so do secrets of several fields, secrets changed or sinks overwritten after the leak, and functions that never return. A crate without leaks is told that no issues were found.",
  ["programs", "inputs"], "Every function, method, closure and nested function with a secure source (its type marked itself, by a bound, a supertrait or a field) and any number of insecure sinks, generic or not; any control structure, references and calls.",
  "The repository's tests have no check of the reports; soundness quantifies over all flows.",
  ["crates/flowistry_ifc/src/analysis.rs", "crates/flowistry_ifc/src/lib.rs", "crates/flowistry_ifc_traits/src/lib.rs"],
  [("analyze: secure/insecure places and dependency inclusion at the returns", "crates/flowistry_ifc/src/analysis.rs")],
  ["reports of the checker against run-time influence"])
p("C19", "The analysis never crashes or hangs on code that compiles",
  "For every crate that rustc accepts, analysing each of its bodies, in the default mode or in any other, and answering every dependency, place and focus query about it, terminates without a panic or abort, including unsafe code, async functions, coroutines, closures, generics, traits, consts, macros and diverging functions.",
  ["programs"], "Every compilable crate.",
  "The fixtures are tiny; real code has statement, type and CFG shapes none of them contains.",
  [AN, MU, AL, PI, EN, DE, I+"focus/mod.rs"], [("unreachable!/unwrap/indexing in the analysis", MU), ("region handling", AL)],
  ["compute_flow, dependency queries and focus on every body of real crates and generated programs"])
p("C20", "The analysis is free of memory errors",
  "Running the analysis on any code performs no invalid memory access: no use after free, out-of-bounds access, leak of freed references or aliasing of mutable and shared borrows that reallocates storage in use.",
  ["programs"], "Every compilable crate.",
  "Memory errors in the hand-written unsafe parts do not necessarily change a test's result.",
  [AL, I+"spans.rs"], [("split borrow of the loan map through raw pointers", AL)],
  ["AddressSanitizer over an instrumented build of the analysis"])
p("C21", "Editor range lookup returns exactly the matching ranges, smallest first",
  "In the editor extension, looking up a selection returns every stored range that touches it, each exactly once, classified as contained in, containing, or overlapping the selection, smallest containing range first, and position/offset conversions are inverse to each other; the ranges greyed out are exactly the parts of the containers not covered by the highlighted slice.",
  ["inputs"], "Every document, every set of ranges and every selection.",
  "The extension has no unit tests; its few end-to-end tests need a running editor.",
  ["ide/src/range.ts", "ide/src/decorations.ts"], [("RangeTree.search", "ide/src/range.ts"), ("invert_ranges / highlight_slice", "ide/src/decorations.ts")],
  ["RangeTree and decorations driven with a model document"])
p("C22", "Focus mode never shows results for stale or wrong code",
  "In the editor extension, whatever the sequence of edits, saves, selections, toggles, marks and (slow or failing) analysis replies, decorations are drawn only while focus mode is active and only from an analysis of the document's current saved text; once nothing is running they are those of the innermost body around the selection, at the selection or the mark set in that body, and the select command selects that slice; they are removed, in every visible editor, as soon as the document is edited or focus mode is switched off; the status bar shows the mode, and edits of other documents leave both alone; after a save, a revert or a change on disk the display comes back by itself; and an analysis failure leaves an error state from which a save recovers.",
  ["histories", "schedules", "fault_sequences"], "Every interleaving of editor events with analysis replies and failures.",
  "No test drives the state machine; staleness needs particular event orders.",
  ["ide/src/focus.ts", "ide/src/errors.ts", "ide/src/status_bar.ts"], [("FocusMode callbacks and mode field", "ide/src/focus.ts"), ("per-document cache", "ide/src/focus.ts")],
  ["decorations and status set through a mock editor API"])
p("C23", "The command line speaks a stable, decodable protocol",
  "For every invocation, the driver prints on standard output either nothing (build failure, non-zero exit) or exactly one base64 gzip JSON document that is the serialised success value or a tagged error; options select exactly the evaluation modes they name with documented defaults, the playground command answers with the outlives relation of the enclosing body as a set of pairs (none for a body without references), and positions outside any body, positions that do not exist in the file, and files that are not part of the crate give an error value and never a crash.",
  ["inputs", "configurations", "fault_sequences"], "Every subcommand, option combination, position, file and build outcome.",
  "The smoke tests run two well-formed invocations.",
  [I+"plugin.rs", I+"lib.rs", EX], [("argument parsing", I+"plugin.rs"), ("postprocess encoding", I+"plugin.rs"), ("error mapping", I+"plugin.rs")],
  ["stdout, stderr and exit code of cargo-flowistry / flowistry-driver"])
p("C24", "The extension runs the backend in the crate's workspace and maps every outcome to a result",
  "The editor extension runs the backend in the opened folder if that holds a Cargo.toml, and otherwise in the outermost directory between it and the active file that does (and does not start when there is none); each request runs exactly the requested command there, after the active document has been saved, and every outcome becomes a result and never an exception: a success value is returned unchanged, an error value is returned as that error, a failed, killed or unstartable process gives a build error carrying its messages, and undecodable output gives an analysis error.",
  ["inputs", "configurations", "fault_sequences"], "Every directory layout, every request, every reply and every way a process can end, with output arriving in any pieces.",
  "Only end-to-end tests that need a running editor exist, on one layout and with a backend that works.",
  ["ide/src/setup.ts", "ide/src/extension.ts"], [("findWorkspaceRoot", "ide/src/setup.ts"), ("exec_notify_binary", "ide/src/setup.ts"), ("call_flowistry", "ide/src/setup.ts")],
  ["processes the extension starts and the results of globals.call_flowistry"])
p("C25", "Failures of the analysis reach the user, and nothing leaves the machine unasked",
  "In the editor extension, whatever the history of commands, selections, edits, saves and closed panes: when a command the user gave fails because the build failed, the error pane is open and shows that failure's messages, and when it fails in the analysis, one message with that error is shown; a failure in the background only turns the status bar to its error state, whose command shows the latest failure, whichever of the two it was; the pane is gone once the analysis works again or focus mode is switched off; and the session's log is uploaded and an issue page opened (containing the error message, and the log's address if the upload worked) only when the user chooses to report the bug. The status bar's text is always readable, and names what is being waited for while the backend runs.",
  ["histories", "fault_sequences"], "Every history of user actions and every sequence of outcomes of the backend.",
  "Nothing in the tests makes the backend fail.",
  ["ide/src/errors.ts", "ide/src/focus.ts", "ide/src/status_bar.ts", "ide/src/setup.ts"], [("show_error, ErrorPane, show_error_dialog, last_error", "ide/src/errors.ts"), ("handle_analysis_result, get_doc_state", "ide/src/focus.ts"), ("StatusBar.render", "ide/src/status_bar.ts")],
  ["error pane, messages, status bar, uploads and opened pages in a stand-in editor"])
p("C26", "The extension runs a backend of exactly its own version, installing it if need be, or does not start",
  "When the installed backend reports the extension's own version, nothing is installed. Otherwise (another version, missing, or not startable) the required toolchain with all its components is installed first, then the release binaries for the host are downloaded into cargo's bin directory, replacing older ones and made executable, and if any part of that fails the same version is built from source; the backend is used, and the commands are offered, only after one of these succeeded; a failed installation is reported to the user and leaves the extension inactive.",
  ["configurations", "fault_sequences"], "Every answer of the version query, host, CARGO_HOME and every combination of failing steps and user choices.",
  "The end-to-end tests run with the right version installed.",
  ["ide/src/setup.ts", "ide/src/download.ts", "ide/src/extension.ts"], [("setup", "ide/src/setup.ts"), ("download, cargo_bin", "ide/src/download.ts"), ("activate", "ide/src/extension.ts")],
  ["processes started, downloads, extracted archives and changed permissions, recorded by stand-ins"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
