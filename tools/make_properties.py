import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=[],obs=[],hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
A="crates/flowistry/src/infoflow/analysis.rs"; M="crates/flowistry/src/infoflow/mutation.rs"; D="crates/flowistry/src/infoflow/dependencies.rs"
I="crates/flowistry/src/infoflow/mod.rs"; R="crates/flowistry/src/infoflow/recursive.rs"; L="crates/flowistry/src/mir/aliases.rs"; E="crates/flowistry/src/mir/engine.rs"
PI="crates/flowistry/src/mir/placeinfo.rs"; U="crates/flowistry/src/mir/utils.rs"; X="crates/flowistry/src/extensions.rs"
FO="crates/flowistry_ide/src/focus/mod.rs"; DI="crates/flowistry_ide/src/focus/direct_influence.rs"; SP="crates/flowistry_ide/src/spans.rs"; PL="crates/flowistry_ide/src/plugin.rs"
IA="crates/flowistry_ifc/src/analysis.rs"; IL="crates/flowistry_ifc/src/lib.rs"
TF="ide/src/focus.ts"; TR="ide/src/range.ts"; TD="ide/src/decorations.ts"; TE="ide/src/errors.ts"
tests_sample="The unit tests compare slices of about 100 hand-written functions at one queried place; "
p("C01","Backward dependencies of a value are complete",
  "For every function body, program point and place, the computed backward dependencies contain every instruction and every argument whose effect can change the value read from that place at that point, by data flow, by control flow, through any alias, or through a call. In particular no execution of the body ever shows a value that was influenced by an instruction outside its computed slice.",
  ["programs","inputs","schedules"],"all safe Rust function bodies (single- and multi-block, loops, calls, references, aggregates, arrays, closures), all program points, all places, all concrete executions",
  tests_sample+"a missing instruction shows only on the combination of alias, projection, join and strong update that needs it, and no test relates slices to executions.",
  [A,M,L,PI,D],[("transfer function: inputs, control, provenance, strong/weak update, alias write",A+": transfer_function"),("influences of a read",A+": influences, deps_for"),("mutations of each instruction",M+": visit_assign, visit_terminator"),("seeding of arguments",A+": initialize_start_block")],
  [("dependency matrix","place -> set of instructions and arguments, per program point",A+": FlowDomain")],["infoflow::compute_flow(..).state_at(loc) + deps_for(place)","infoflow::compute_dependencies(.., Backward)"])
p("C02","Calls are summarised soundly from the callee's signature",
  "At every call, the returned value depends on the call and on every argument and the function value itself, and every place the callee could mutate according to the types and lifetimes of the arguments is updated with dependencies on the call and on all arguments. A place that no argument grants mutable access to is left unchanged by the call.",
  ["programs","inputs"],"all calls: arguments of any type (nested references, structs, enums, tuples, boxes, closures, raw pointers, generic types), any destination, any callee",
  tests_sample+"a call rule that forgets one kind of argument, or mutates one place too many, changes only functions with that shape.",
  [M,PI,L],[("call rule",M+": visit_terminator"),("places reachable from an argument with write permission",PI+": reachable_values"),("argument places",U+": arg_places")],[],["ModularMutationVisitor callback at call terminators","state_at(call location)"])
p("C03","Results are modular: independent of callee bodies",
  "Outside of whole-program mode, the dependencies computed for a function are a function of its own body and of the signatures of what it calls. Replacing the bodies of callees, with the same signatures, never changes the result.",
  ["programs","configurations"],"all pairs of programs that differ only in the bodies of functions called",
  "The tests never analyse the same caller with two different callees; the guarantee quantifies over pairs of programs.",
  [M,A,R],[("calls abstracted by type",M+": visit_terminator"),("recursion into callees only when asked",A+": apply_primary_terminator_effect")],[],["compute_dependencies on the caller, per variant of the callee"])
p("C04","Alias analysis covers everything a reference can point to",
  "For every place behind a reference, the computed aliases include every place it can designate in any execution, as far as the argument types and lifetimes of the function allow. Conversely a place is reported as an alias only if some loan can flow into the reference according to its lifetime and, where the types agree, the projection.",
  ["programs","inputs","schedules"],"all function bodies, all places through references (nested, in structs, tuples, enums, arrays, boxes, reborrowed, returned from calls), all executions",
  "The alias unit tests check four bodies; the loan propagation is a graph fixpoint whose errors need particular region graphs (cycles, reborrows, two hops).",
  [L,PI],[("loan propagation over region constraints",L+": compute_loans"),("aliases of a place",L+": aliases"),("cache and collection",PI+": aliases")],[("loans","region -> loaned places with mutability",L+": Aliases")],["PlaceInfo::aliases, PlaceInfo::reachable_values"])
p("C05","Slices contain nothing that ownership rules out",
  "A dependency is reported only if some chain of assignments, calls, control conditions and aliases permitted by the types and lifetimes leads to it: distinct fields of a value stay independent, an overwritten value's old dependencies disappear, references with unrelated lifetimes do not alias, and branches that do not decide whether an instruction runs are not counted.",
  ["programs"],"all function bodies, all program points, all places",
  tests_sample+"over-approximation elsewhere is invisible to them because a larger slice is never wrong in the cases sampled.",
  [A,M,L,PI],[("strong update",A+": transfer_function"),("field-wise mutation of aggregates and moved structs",M+": visit_assign"),("projection-aware loans",L+": compute_loans"),("conflicts rather than whole locals",PI+": conflicts")],[],["state_at(loc) + deps_for(place)"])
p("C06","Shared references are never treated as a way to mutate",
  "In the default mode, passing or holding only shared references to a place (directly, nested, or inside another type) never makes a call or a write count as a mutation of that place; with mutability ignored, it does. Mutable access behind a shared reference is treated as shared.",
  ["programs","configurations"],"all types mixing shared and mutable references to any depth, both mutability modes",
  "The extension tests have one program per mode; nested mixtures of & and &mut are unbounded.",
  [L,PI,A,X],[("write permission of a loan",L+": compute_loans, PI reachable_values"),("filter of immutable aliases",A+": transfer_function")],[],["reachable_values(place, Mut)","dependencies after a call"])
p("C07","The dataflow engine reaches the least solution and stops",
  "For every body the analysis terminates without failure, and the state after each instruction is the least fixpoint of the per-instruction effects over the control-flow graph, independently of the order in which blocks are visited. Code that is unreachable contributes nothing, and loops are iterated until stable.",
  ["programs","schedules"],"all control-flow graphs (loops, irreducible joins, early returns, diverging paths), all worklist orders",
  "The engine has no test of its own; a visit order or join defect needs a loop nest whose dependency needs several rounds.",
  [E,A],[("worklist iteration",E+": iterate_to_fixpoint"),("state at a location",E+": AnalysisResults"),("join",A+": FlowDomain")],[("per-location state","one matrix per location",E)],["FlowResults::state_at for every location"])
p("C08","Control dependencies are exactly the branches that decide execution",
  "An instruction that changes a place makes it depend on every branch that decides whether the instruction runs, and on the values tested there, including loop conditions, nested branches, and the branches that decide whether those are reached. What follows a conditional early return does not count as decided by it: paths that end in different returns are judged separately. Branches that cannot affect whether it runs are not added.",
  ["programs"],"all control-flow graphs with one or several exits, loops, diverging branches",
  tests_sample+"a dozen bodies have branches, with at most two levels.",
  [A,"crates/flowistry/src/infoflow/analysis.rs"],[("control dependence",A+": new (control_dependencies), transfer_function")],[],["state_at(loc) of assignments under branches"])
p("C09","Place queries obey the geometry of places",
  "For every place, the sub-place, conflict, reachability and argument queries return exactly the places their types, visibility and mutability define: children are the place's own parts not crossing references, conflicts add the enclosing places up to the nearest reference, reachable values are the places readable or writable through it, and normalisation identifies only places differing in lifetimes or array index.",
  ["programs","histories"],"all places of all types (nested tuples, structs with private fields, enums, boxes, arrays, references, closures, recursive types)",
  "The unit tests check two types.",
  [PI,U],[("queries and caches",PI+": normalize, aliases, conflicts, children, reachable_values, all_args")],[("caches","per-place memo tables",PI)],["PlaceInfo methods"])
p("C10","Forward, backward and combined slices of any selection agree",
  "A place's backward slice at a point is its dependencies there; its forward slice is exactly the instructions whose mutated places depend on everything the selected place's state depends on; the combined slice is the union of both. Querying several selections at once gives, for each, the union over its places, in the order asked and equal to asking one at a time.",
  ["programs","histories"],"all target places and program points or arguments, all groupings of targets, all three directions",
  tests_sample+"only single-target slices are tested, and the combined direction and batches are not.",
  [D],[("slice queries",D+": compute_dependencies, compute_dependency_spans"),("expansion of targets",D+": TargetDeps / expanded targets")],[],["infoflow::compute_dependencies, compute_dependency_spans"])
p("C11","Every optional analysis mode only adds dependencies",
  "Ignoring mutability or pointing conservatively (by type instead of lifetime) never removes a dependency found by the default analysis, and gives exactly the dependencies that the weaker assumption implies. Modes can be combined freely and an unset mode behaves as the default.",
  ["programs","configurations"],"all programs, all mode combinations",
  "One or two programs per mode are tested.",
  [X,L,PI,A],[("mode switch",X+": is_extension_active"),("type-based pointers",L+": conservative mode"),("mutability ignored",PI+": reachable_values")],[],["EVAL_MODE + compute_dependencies"])
p("C12","Whole-program mode analyses available callees faithfully",
  "With recursion enabled, a call to a function whose body is available is replaced by that body's own flows, translated to the caller's places: an argument that the callee's result or mutation does not depend on is not a dependency, one that it does depend on is, and the call itself always is. Calls that cannot be analysed (recursive, trait methods without body, unavailable, foreign) fall back to the signature-only summary.",
  ["programs"],"all acyclic and recursive call graphs, argument and return types with references and fields",
  "Nine small programs are tested.",
  [R,A],[("recursion",R+": recurse_into_call"),("translation of child places",R+": translate_child_to_parent")],[],["EVAL_MODE=recurse + state_at(call)"])
p("C13","Analysis is deterministic and independent of query history",
  "Repeating an analysis, in the same or in another process, or asking the place and slice queries in another order or interleaved with others, gives the same answers. A result never depends on which functions or places were analysed before.",
  ["histories","schedules"],"all orders and repetitions of queries, all orders of analysing functions, repeated processes",
  "Each test makes one query on one function in a fresh context.",
  [PI,D,L,A,R],[("memo tables",PI+": caches"),("recursion cache",A+": recurse_cache"),("extension mode fluid",X)],[("caches","per-place and per-callee memo tables",PI)],["repeated and permuted PlaceInfo / compute_dependencies calls"])
p("C14","The information-flow checker flags exactly secure-to-insecure flows",
  "A function is reported if and only if, when it returns, some part of a local whose type is marked insecure depends on everything that some part (of known value) of a local whose type is marked secure depends on; one report per pair of such locals, naming both, with their position in the source. Functions without marked types, with only one kind, or that never return are accepted, and the check terminates normally on every function.",
  ["programs"],"all functions mixing values of secure types, references to them, insecure calls, branches and loops",
  "Five example programs are tested, none with several sources or sinks.",
  [IA,IL],[("sources, sinks and dependency test",IA+": analyze")],[],["cargo ifc output and exit"])
p("C15","Focus data in the editor protocol reflects the computed slices",
  "For a selected function, the tool reports one entry for each place mentioned in the source, whose slice covers the source of everything in its combined slice and whose direct influences are exactly the instructions that read or write the place directly and lie in the slice; plus the containers: the body, its return type and its parameters. Reported ranges always lie inside the function.",
  ["programs"],"all function bodies and selections",
  "No test runs the focus command.",
  [FO,DI,D],[("focus",FO+": focus"),("direct influence",DI+": build, lookup"),("spans of slices",D+": compute_dependency_spans")],[],["flowistry-driver focus FILE POS (JSON on stdout)"])
p("C16","The command line protocol answers every request with one well-formed result",
  "For every existing file and position, the tool outputs exactly one encoded message: the result for the innermost function body containing the position, or an analysis error when there is none, or a file-not-found error when no target has the file, or nothing but the build's failure when the crate does not build, whichever applies first; list queries return every function body range of the file. It never answers for another function, and never prints a result next to an error. Asked for its version it answers with the extension's own; asked to build ahead of time, with the status of building everything; what is no request is refused.",
  ["inputs","fault_sequences"],"all files (valid, invalid, missing), all positions inside and outside functions, nested functions and closures",
  "No test runs the binary.",
  [PL,SP],[("argument handling and callbacks",PL),("body spans",SP+": spans"),("result encoding",PL+": postprocess")],[],["cargo flowistry / flowistry-driver stdout"])
p("C17","Editor focus mode never shows a stale or foreign highlight",
  "Whatever the order of toggling, cursor moves, edits, saves, marks, document switches and late answers from the analyser, the editor shows highlights only while focus mode is on, only computed for the current text of the document they are in and for the function the cursor is, or was last, in; and every visible editor's highlights are cleared when focus mode is off, when its text changes, and when the analyser fails. A marked place determines the highlights until it is unmarked or the text changes. The status bar shows the state that focus mode is in.",
  ["histories","schedules","fault_sequences"],"all interleavings of user events and analyser responses (success, build error, failure)",
  "The extension has no tests for its state machine.",
  [TF,TD,TE,"ide/src/status_bar.ts"],[("focus controller",TF),("decorations",TD)],[("focus state","per document: analysed bodies, mark, mode, status",TF)],["decorations set on the editors, status bar icon, requests to the analyser"])
p("C18","Faded text is exactly the complement of the slice",
  "In focus mode, the faded ranges together with the slice ranges cover the containers exactly: every character of a container is faded if and only if it is in no slice range, wherever and in whatever order the ranges lie. Overlapping, nested, adjacent, multi-line and empty ranges are allowed.",
  ["inputs"],"all finite sets of slice ranges and containers",
  "No test exercises the range arithmetic.",
  [TR,TD],[("complement of ranges",TR),("fade",TD)],[],["decorations set on the editor"])
p("C19","A selection resolves to the smallest enclosing place and body",
  "A cursor position or selection resolves to the smallest function body that contains it, a body equal to it included, and within that body to the places that lie inside the selection if there are any, and otherwise to the smallest place that contains it together with those it partly overlaps, ranges that touch counting as overlapping. The slices and direct influences shown, and the slice selected on demand, are those of all these places together. When it resolves to no place nothing is shown as selected; outside every body the display does not change. The result does not depend on the order in which ranges are listed.",
  ["inputs"],"all selections, all sets of ranges (nested, equal, overlapping, multi-digit positions)",
  "No test exercises selection lookup in the editor.",
  [TR,TF],[("smallest containing range",TR),("place lookup",TF)],[],["highlights and requests after a selection"])
TS="ide/src/setup.ts"
p("C20","The extension is usable exactly when a matching analyser could be set up",
  "Activation offers the extension's commands if and only if the open folder belongs to a cargo project and an analyser of the extension's own version is installed and located. The project's root is the workspace folder if it has a manifest and otherwise the outermost directory on the way to the open file that has one. Nothing is installed, downloaded or run when there is no project; nothing is installed when the installed version matches; a missing, broken or different version is replaced, by download and, if that fails, from source; a failing toolchain installation leaves the choice to the user. Every failure is told to the user, and a failing preload is none. Every command runs in the project's root, and requests get the toolchain's libraries, its sysroot and the complete search path.",
  ["histories","fault_sequences"],"all places of manifests and open files, and every combination of missing programs, failing steps and user decisions",
  "The extension's setup has no tests; its branches depend on what is installed on the machine and on which step fails.",
  [TS,"ide/src/main.ts"],[("project root",TS+": findWorkspaceRoot"),("installation",TS+": setup"),("environment",TS+": get_flowistry_opts"),("activation","ide/src/main.ts: activate")],
  [("what is installed","version found by the probe, outcome of each step",TS)],["commands registered, programs started with their arguments, directory and environment, messages"])
p("C21","The editor reports every failure it should, once, and drops it when it is over",
  "When a command the user gave fails, its cause is shown: a build failure in the error pane, with the analyser's text for the current failure, an analysis failure in a dialog that offers to file an issue about it; an answer that makes no sense is an analysis failure. Failures behind the user's back (while moving or saving) change the status and raise no dialog. The pane is never shown for an older failure than the latest one the user was told about, and `last error` shows the latest build failure, one met while preloading included, whatever happened since. An answer that no longer counts reports nothing.",
  ["histories","schedules","fault_sequences"],"all interleavings of user events and analyser responses (success, build error, failure)",
  "The extension has no tests for its state machine.",
  [TE,TF,"ide/src/main.ts"],[("error reporting",TE),("requests",TF)],[("latest build failure","text the error pane shows",TE)],["text of the error pane, dialogs, status bar"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
