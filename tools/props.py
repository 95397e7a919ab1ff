#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this to regenerate it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/phasar/"
L = "lib/PhasarLLVM/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


prop("C01", "Generic edge functions form a sound algebra under compose and join",
     "Composing two edge functions yields a function that maps every value to what applying the first and then the second yields (for the two absorbing functions: a safe over-approximation); joining two edge functions yields, pointwise, an upper bound of both that is exact where the algebra promises it. Two edge functions that compare equal compute the same value for every input. Identity, all-top, all-bottom, constant and join-with-constant functions do exactly what their names say.",
     ["inputs"], "every pair/triple of the library's generic edge functions plus an arbitrary user-defined one, every value of every value domain (powerset, flat constant, binary)",
     "Tests compare a few fixed instances; the law must hold for every combination of operands and every domain value.",
     [I + "DataFlow/IfdsIde/EdgeFunctionUtils.h", I + "DataFlow/IfdsIde/EdgeFunctions.h", I + "DataFlow/IfdsIde/EdgeFunction.h"],
     [("EdgeIdentity/AllBottom/AllTop/ConstantEdgeFunction compose/join", I + "DataFlow/IfdsIde/EdgeFunctionUtils.h"),
      ("EdgeFunctionComposer, JoinEdgeFunction", I + "DataFlow/IfdsIde/EdgeFunctionUtils.h"),
      ("defaultComposeOrNull/defaultJoinOrNull", I + "DataFlow/IfdsIde/EdgeFunctionUtils.h")],
     ["EdgeFunction::computeTarget", "EdgeFunction::composeWith", "EdgeFunction::joinWith", "EdgeFunction::operator=="])

prop("C02", "Type-erased edge functions behave as value types without leaks or dangling",
     "A type-erased edge function keeps computing what the wrapped function computes through any sequence of copies, moves, assignments (self-assignment included), swaps and destructions. Heap-held functions are destroyed exactly once, when the last handle goes away; singleton- and cache-held ones are never destroyed by a handle, and a cache hands out one shared instance per equal function while it is alive. Down-casting succeeds exactly for the stored type.",
     ["histories", "inputs"], "every sequence of value operations on edge-function handles with every allocation policy (inline, reference counted, cached), every stored state",
     "Tests build and drop a few functions in one order; ownership must be exact for every sequence of operations.",
     [I + "DataFlow/IfdsIde/EdgeFunction.h", I + "DataFlow/IfdsIde/EdgeFunctionSingletonCache.h", I + "DataFlow/IfdsIde/EdgeFunctionSingletonFactory.h"],
     [("EdgeFunction copy/move/assign/destroy, tagged pointer allocation policy", I + "DataFlow/IfdsIde/EdgeFunction.h"),
      ("EdgeFunctionRef conversion", I + "DataFlow/IfdsIde/EdgeFunction.h"),
      ("DefaultEdgeFunctionSingletonCache insert/erase", I + "DataFlow/IfdsIde/EdgeFunctionSingletonCache.h")],
     ["EdgeFunction", "EdgeFunction::getRef", "CachedEdgeFunction"])

prop("C03", "Every shipped value lattice is a join-semilattice with its top and bottom",
     "In every value domain that the library ships, merging is commutative, associative and idempotent, the declared top element is neutral for merging and the declared bottom element absorbs everything. Equality and ordering of domain values agree with the values they represent.",
     ["inputs"], "all values of the flat, binary, type-state, constant-set, taint and instruction-interaction domains",
     "Tests join a handful of values; fixpoint uniqueness and termination rely on the laws for all of them.",
     [I + "Domain/LatticeDomain.h", I + "Domain/BinaryDomain.h", I + "Utils/JoinLattice.h",
      I + "PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/", L + "DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp",
      L + "DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp", I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h"],
     [("JoinLatticeTraits<...>::join/top/bottom", I + "Utils/JoinLattice.h"), ("LatticeDomain operators", I + "Domain/LatticeDomain.h"),
      ("EdgeDomain::join", L + "DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp")],
     ["JoinLatticeTraits::join"])

prop("C04", "Linear constant propagation computes machine arithmetic and never crashes",
     "Whenever the linear constant analysis reports a concrete constant for the result of a binary instruction on a constant and an analysed operand, that constant is what the instruction computes on the machine for these operands; where the instruction has no defined result the analysis reports no constant and does not crash. Its edge functions compose and join soundly, and equal ones compute equal results.",
     ["inputs"], "every supported binary operator, every pair of 64-bit operands in either operand position, every value of the constant lattice",
     "Tests run a few programs with small constants; overflow, signedness and division corner cases need all operand values.",
     [L + "DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp", I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"],
     [("executeBinOperation, BinOp, LCAEdgeFunctionComposer, GenConstant", L + "DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp")],
     ["IDELinearConstantAnalysis::getNormalEdgeFunction", "EdgeFunction::computeTarget"])

prop("C05", "The type-state analysis follows the automaton exactly",
     "The state reported for a tracked object is the one reached by running the described automaton over the API calls seen on the path, and composed edge functions agree with running the calls one after another. Conflicting states merge to the unknown/error element and never to a definite one; every state and call index, including the special ones, is handled inside the automaton's table.",
     ["inputs", "histories"], "every automaton shipped, every state, every API token sequence and every pair of type-state edge functions",
     "Tests exercise a few call sequences per automaton; agreement is needed for all sequences and states.",
     [I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h", L + "DataFlow/IfdsIde/Problems/TypeStateDescriptions/"],
     [("TSEdgeFunction, TSConstant, TSEdgeFunctionComposer", I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"),
      ("getNextState of each description", L + "DataFlow/IfdsIde/Problems/TypeStateDescriptions/")],
     ["TypeStateDescription::getNextState", "IDETypeStateAnalysis edge functions"])

prop("C06", "The bit-vector set behaves as a mathematical finite set",
     "After any sequence of operations the bit-vector set contains exactly the elements that the corresponding mathematical set operations yield: insertion, erasure, union, intersection, difference, inclusion, equality, size and iteration all agree with the set of inserted values. Sets holding the same elements are equal and have the same hash, no matter how they were built.",
     ["histories", "inputs"], "all operation sequences, all element universes, including sets whose internal sizes differ",
     "Tests use small fixed sets built in one order; sets with different internal capacity and arbitrary contents are not sampled.",
     [I + "Utils/BitVectorSet.h"],
     [("BitVectorSet set operations, iterator and hash", I + "Utils/BitVectorSet.h")],
     ["BitVectorSet"])

prop("C07", "Flow-function combinators transfer exactly the stated facts",
     "The library's flow-function building blocks map each data-flow fact to exactly the set they document: identity keeps it, kill removes it, gen adds the generated facts to the zero fact and keeps everything else, transfer copies, unions merge, compositions chain, and zero-wrapped functions never lose the zero fact. Nothing else is added or dropped for any fact.",
     ["inputs"], "every combinator, every fact (zero, the mentioned facts and any unrelated fact), every predicate and every nested flow function",
     "Tests query few facts; the claim is about all facts including unrelated ones.",
     [I + "DataFlow/IfdsIde/FlowFunctions.h", I + "PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"],
     [("FlowFunctionTemplates: identityFlow, generateFlow, killFlow, transferFlow, unionFlows, ...", I + "DataFlow/IfdsIde/FlowFunctions.h"),
      ("ZeroedFlowFunction", I + "DataFlow/IfdsIde/FlowFunctions.h")],
     ["FlowFunction::computeTargets"])

prop("C08", "Jump-function tables stay coherent under all updates",
     "A jump function recorded for a source fact, target statement and target fact is found by every kind of lookup with the same edge function, and nothing that was not recorded is found. Overwriting replaces, removing removes exactly the named entry from every view, and unrelated entries are never affected.",
     ["histories"], "all sequences of insertions, updates, removals and lookups over all keys",
     "Tests never exercise the three views together over arbitrary histories.",
     [I + "DataFlow/IfdsIde/Solver/JumpFunctions.h", I + "Utils/Table.h"],
     [("JumpFunctions::addFunction/reverseLookup/forwardLookup/lookupByTarget/removeFunction", I + "DataFlow/IfdsIde/Solver/JumpFunctions.h"),
      ("Table", I + "Utils/Table.h")],
     ["JumpFunctions"])

prop("C09", "Each IDE/IFDS solver step propagates everything it must and nothing else",
     "Processing one path edge extends it over every successor, call target, return site and matching end summary of its statement with exactly the facts its flow functions produce and the composed edge function, and records what the interprocedural matching needs. Whenever the joined jump function of a target changes, the old function is replaced by the join of old and new and the edge is scheduled again; when it does not change nothing is scheduled. No step drops a fact, a successor or a caller.",
     ["inputs", "programs", "histories"], "every solver state, every successor/callee/return-site set, every flow and edge function of an arbitrary problem",
     "Tests run fixed programs end to end; a dropped propagation only shows on particular graph shapes and processing orders.",
     [I + "DataFlow/IfdsIde/Solver/IDESolver.h"],
     [("propagate", I + "DataFlow/IfdsIde/Solver/IDESolver.h"), ("processNormalFlow/processCall/processExit", I + "DataFlow/IfdsIde/Solver/IDESolver.h"),
      ("endSummary / incoming tables", I + "DataFlow/IfdsIde/Solver/IDESolver.h")],
     ["IDESolver::solve", "SolverResults"])

prop("C10", "The solver's value phase yields the join over all recorded contexts",
     "The value reported for a fact at a statement is the join, over all recorded values of the start of the surrounding procedure, of the recorded jump function applied to that value; seeds contribute their initial value and unreachable facts are reported as top. Values only move down the lattice while they are computed.",
     ["inputs", "programs"], "every table content, every lattice, every set of seeds",
     "Tests compare final results for fixed programs only.",
     [I + "DataFlow/IfdsIde/Solver/IDESolver.h", I + "DataFlow/IfdsIde/SolverResults.h", I + "DataFlow/IfdsIde/InitialSeeds.h"],
     [("propagateValue, propagateValueAtStart/Call, setVal, valueComputationTask", I + "DataFlow/IfdsIde/Solver/IDESolver.h"),
      ("SolverResults::resultAt/resultsAt", I + "DataFlow/IfdsIde/SolverResults.h")],
     ["SolverResults::resultAt", "SolverResults::resultsAt"])

prop("C11", "Taint labels only grow and are combined as sets by interaction analysis",
     "In the instruction-interaction analysis every edge function adds or replaces label sets as documented; composing two of them equals applying them in sequence for every label set, joining never loses a label that either branch contributes beyond the documented treatment of the identity, and top/bottom behave as least and greatest element. Equal edge functions compute equal label sets.",
     ["inputs"], "every edge function kind, every label set (arbitrary finite subset of an arbitrary universe), top and bottom",
     "Tests check labels for some programs; composition and join must hold for all label sets.",
     [I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h", I + "Utils/BitVectorSet.h"],
     [("IIAAAddLabelsEF, IIAAKillOrReplaceEF compose/join", I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h")],
     ["IDEInstInteractionAnalysisT edge functions"])

prop("C12", "Extended-taint sanitizer tracking composes, joins and compares soundly",
     "The extended taint analysis' edge functions for generating, sanitizing and transferring taints compute on every domain value what their description says, composing them equals applying them one after another (all-sanitized followed by all-top: over-approximated), and joining yields an upper bound at every value but top. Merging two taint states never reports sanitized unless both are sanitized, and equal edge functions behave equally.",
     ["inputs", "programs"], "every domain value, every pair of edge functions, every relative position of the sanitizer and load instructions",
     "Tests run fixed programs; the algebra must hold for all combinations and instruction orders.",
     [L + "DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/"],
     [("EdgeDomain::join", L + "DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp"),
      ("GenEdgeFunction, TransferEdgeFunction, KillIfSanitizedEdgeFunction, ComposeEdgeFunction", L + "DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/")],
     ["XTaint edge functions"])

prop("C13", "Call-graph edges are recorded in both directions and survive updates",
     "After any sequence of additions, a function is reported as callee of a call site exactly when that call site is reported as caller of the function, with exactly the edges that were added; handles returned for a vertex stay valid while other vertices are added. Serializing and reading back a call graph yields the same edges.",
     ["histories"], "every sequence of vertex and edge additions",
     "Tests compare graphs of fixed programs.",
     [I + "ControlFlow/CallGraph.h", I + "ControlFlow/CallGraphData.h"],
     [("CallGraphBuilder::addCallEdge/addFunctionVertex/addInstructionVertex", I + "ControlFlow/CallGraph.h")],
     ["CallGraph::getCalleesOfCallAt", "CallGraph::getCallersOf"])

prop("C14", "The stable vector keeps contents and element addresses under all operations",
     "A stable vector holds exactly the sequence that the same operations yield on a mathematical sequence (append, pop, pop-many, clear, copy, move, swap, indexing, iteration, comparison), elements that are not removed never change their address, and no operation reads or writes memory outside live elements or leaks storage.",
     ["histories"], "every size (any number of blocks) and every operation sequence",
     "Tests use a few sizes; block-boundary states depend on histories of growth and shrinkage.",
     [I + "Utils/StableVector.h"],
     [("growAndEmplace, pop_back(_n), clear, shrink_to_fit, subscriptHelper, Iterator", I + "Utils/StableVector.h")],
     ["StableVector"])

prop("C15", "Call strings are exactly the last k call sites",
     "A k-limited call string always consists of the most recent at most k call sites pushed and not yet popped, in order; popping undoes pushing as long as the limit was not exceeded. Equality, ordering and hashing depend only on this sequence.",
     ["histories"], "every push/pop sequence and every limit k",
     "Tests use k=3 with few pushes.",
     [I + "DataFlow/Mono/Contexts/CallStringCTX.h"],
     [("push_back/pop_back", I + "DataFlow/Mono/Contexts/CallStringCTX.h")],
     ["CallStringCTX"])

prop("C16", "The backward control-flow view is the exact mirror of the forward view",
     "Statement b is a successor of a in the forward view exactly when a is a successor of b in the backward view, with the same treatment of ignored debug instructions and of the already-initialized case of lazily initialized statics; start points of one are exit points of the other (or lead to the virtual return statement, if there is one); the edge list of either view is exactly its successor relation; branch-target and start-point queries agree with it; and the interprocedural views list every statement other than calls and their own start points for the value computation.",
     ["programs"], "every function body, every instruction",
     "Tests list the successors of selected instructions of fixed functions.",
     [L + "ControlFlow/LLVMBasedCFG.cpp", L + "ControlFlow/LLVMBasedBackwardCFG.cpp", L + "ControlFlow/LLVMBasedBackwardICFG.cpp"],
     [("getPredsOfImpl/getSuccsOfImpl", L + "ControlFlow/LLVMBasedCFG.cpp")],
     ["LLVMBasedCFG::getSuccsOf", "LLVMBasedBackwardCFG::getSuccsOf"])

prop("C17", "Alias sets are a sound, owned partition of pointers",
     "Introducing an alias between two pointers puts both into one set together with everything known to alias either of them, and every member of a set is mapped to that set; a pointer that is added joins the sets of everything it may alias; what aliases in either of two merged analyses aliases in the result; the allocation sites reachable from a pointer are exactly the stack and heap allocations in its set (within a function: those of that function and its formals); merged-away sets are reclaimed exactly once and never referenced again.",
     ["histories"], "every sequence of alias introductions and merges",
     "Tests check few pointer pairs of fixed programs.",
     [L + "Pointer/LLVMAliasSet.cpp", I + "Pointer/AliasSetOwner.h"],
     [("mergeAliasSets, addSingletonAliasSet", L + "Pointer/LLVMAliasSet.cpp"), ("AliasSetOwner", I + "Pointer/AliasSetOwner.h")],
     ["LLVMAliasSet::getAliasSet", "LLVMAliasSet::alias"])

prop("C18", "Equivalence-class maps return the value of every key inserted",
     "A key that was inserted maps to the value it was inserted with, keys inserted with equal values share one class, the number of classes never exceeds the number of distinct values, and lookups of other keys find nothing.",
     ["histories"], "every insertion sequence over arbitrary keys and values",
     "Tests insert a handful of entries.",
     [I + "Utils/EquivalenceClassMap.h"], [("insert/find/findValue", I + "Utils/EquivalenceClassMap.h")], ["EquivalenceClassMap"])

prop("C19", "The monotone-framework solvers stop only at a fixpoint of the equations",
     "When a monotone solver stops, the facts at every program point are the merge over all incoming edges of the transferred facts: each changed point had all of its successors re-processed. Joining never loses facts.",
     ["programs", "histories"], "every control-flow graph, transfer function and processing order",
     "Tests compare the result of a few programs.",
     [I + "DataFlow/Mono/Solver/IntraMonoSolver.h", I + "DataFlow/Mono/Solver/InterMonoSolver.h"],
     [("solve loop", I + "DataFlow/Mono/Solver/IntraMonoSolver.h")], ["IntraMonoSolver::solve", "getResultsAt"])

prop("C20", "The exploded super-graph has a predecessor chain for every recorded fact",
     "Recording a propagation creates the target vertex exactly once per statement/fact, links it to a source vertex, and merges parallel paths as neighbours, so that from every vertex a walk over predecessors and their neighbours reaches a root; equal vertices are found again by lookup, holding their own fact.",
     ["histories"], "every sequence of recorded propagations",
     "Tests check path constraints of fixed programs only.",
     [I + "DataFlow/PathSensitivity/ExplodedSuperGraph.h"], [("saveEdges, saveEdge", I + "DataFlow/PathSensitivity/ExplodedSuperGraph.h")],
     ["ExplodedSuperGraph::getNodeOrNull"])

prop("C21", "Automaton minimization preserves the accepted behaviour",
     "Minimizing a deterministic automaton yields one that has, from every original state, the same labels along every word, whatever the order of its transitions; every remaining state and transition existed before and is reachable from a root; if the automaton has no cycles, no two remaining states are indistinguishable.",
     ["inputs"], "every finite deterministic graph",
     "Tests minimize one or two graphs.",
     [I + "Utils/DFAMinimizer.h"], [("minimizeGraph/createEquivalentGraphFrom", I + "Utils/DFAMinimizer.h")], ["createEquivalentGraphFrom"])

prop("C22", "Summaries and parameter mappings relate actual and formal facts exactly",
     "Mapping facts into a callee yields exactly the formals whose actuals are affected by the fact, mapping back yields exactly the actuals of the affected formals and the returned value, globals are handled as configured, and the zero fact is always kept.",
     ["programs", "inputs"], "every call site and callee signature (fixed and variable arity), every fact and predicate",
     "Tests inspect a few call sites.",
     [I + "PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"],
     [("mapFactsToCallee, mapFactsToCaller, mapFactsAlongsideCallSite", I + "PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h")],
     ["FlowFunction::computeTargets"])

prop("C23", "Constant-set edge values of the generalized analysis stay bounded and sound",
     "Joining constant sets yields their union, or the unknown element once the configured size is exceeded; binary operations on constant sets contain the machine's result for every pair of members (division by zero and operands that do not fit together yield the unknown element); equality, hashing, copying and type conversion of constants agree with their represented value (integers as signed numbers).",
     ["inputs"], "all constants (integers of every width, floats, strings, top), all bounded sets",
     "Tests cover few programs with small constants.",
     [L + "DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/"], [("EdgeValue, EdgeValueSet", L + "DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp")],
     ["performBinOp", "join"])

prop("C24", "Results of an analysis run equal the program's meet-over-valid-paths semantics",
     "For distributive problems the reported fact and value at every statement equal the join over all interprocedurally valid paths of the composed transfer functions, and thus over-approximate every concrete execution.",
     ["programs"], "every program and every distributive problem",
     "Tests run fixed programs.",
     [I + "DataFlow/IfdsIde/Solver/IDESolver.h"], [("IDE tabulation", I + "DataFlow/IfdsIde/Solver/IDESolver.h")], ["SolverResults"])

prop("C25", "Call-graph construction over-approximates all run-time call targets",
     "For every call site that can be executed, the constructed call graph contains every function the call can reach at run time under the assumptions of the chosen resolution strategy (including virtual dispatch and function pointers of matching type).",
     ["programs"], "every module and every resolution strategy",
     "Tests check fixed modules.",
     [L + "ControlFlow/Resolver/", L + "ControlFlow/LLVMBasedICFG.cpp", L + "TypeHierarchy/"], [("Resolver::resolve...", L + "ControlFlow/Resolver/")],
     ["LLVMBasedICFG::getCalleesOfCallAt"])

prop("C26", "Every analysis terminates on finite programs with finite-height lattices",
     "The solvers reach a fixpoint after finitely many steps for every finite program whenever the facts per statement are finite and the value lattice has finite height.",
     ["programs"], "every finite program and finite-height problem",
     "A test can only show termination of the programs it runs.",
     [I + "DataFlow/IfdsIde/Solver/IDESolver.h", I + "DataFlow/Mono/Solver/"], [("worklist loops", I + "DataFlow/IfdsIde/Solver/IDESolver.h")], ["solve"])

prop("C27", "The taint analyses neither lose nor invent taints at a statement",
     "What is stored, loaded, addressed, cast, extracted or inserted from a tainted value is tainted, with everything that may alias a written location; a taint survives every statement and call that does not overwrite or sanitize it, including calls whose callees are unknown or only declared; calls hand taints of actuals to formals, and taints of pointer formals, results and globals back. Configured sources generate, sinks report exactly the tainted arguments, sanitizers kill, library summaries are applied, and every other callee with a body is analyzed. The queries of a taint configuration agree with each other. Seeds cover every entry point.",
     ["programs", "inputs"], "every statement and call site, every taint configuration (categories and callbacks), alias relation and incoming fact",
     "Tests run the analysis on some dozen programs with the statement sequences clang happens to produce.",
     [L + "DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp", L + "DataFlow/Mono/Problems/InterMonoTaintAnalysis.cpp", L + "TaintConfig/LLVMTaintConfig.cpp", I + "PhasarLLVM/TaintConfig/TaintConfigUtilities.h"],
     [("flow functions", L + "DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp"), ("collectGeneratedFacts/collectLeakedFacts/collectSanitizedFacts", I + "PhasarLLVM/TaintConfig/TaintConfigUtilities.h")],
     ["IFDSTaintAnalysis::Leaks", "InterMonoTaintAnalysis::getAllLeaks", "FlowFunction::computeTargets"])

prop("C28", "Call resolution finds exactly the candidates of its strategy",
     "A call is virtual exactly if it goes through a constant slot of a table and its receiver's class has virtual functions. Class-hierarchy analysis finds the functions at the called slot of every subtype of the receiver's class; rapid type analysis restricts them to allocated types (any local, global or heap allocation, also in arrays), unless none remains; the type-cast and alias-based strategies to the types and tables that may flow to the receiver. A function pointer may reach every address-taken function, or with alias information every function among its aliases and in the constant tables among them. Pure virtual functions and functions that cannot accept the arguments are never targets; functions whose formals or results differ only by subtyping are. A vtable's functions are found by slot whatever offsets and type information precede them. With alias-based resolution, actuals and formals, and results and returned values, alias. The call graph contains every call reachable from the entry points with an edge to each of its targets once and nothing else; calls are resolved again until nothing changes if resolving changes the alias information.",
     ["programs", "inputs"], "every call site, vtable, subtype relation, alias relation and module",
     "Tests check a few dozen fixed modules.",
     [L + "ControlFlow/Resolver/", L + "ControlFlow/LLVMBasedCallGraphBuilder.cpp", L + "ControlFlow/LLVMVFTableProvider.cpp", L + "TypeHierarchy/LLVMVFTable.cpp"],
     [("resolveIndirectCall, resolveVirtualCall, resolveFunctionPointer", L + "ControlFlow/Resolver/"), ("buildLLVMBasedCallGraph", L + "ControlFlow/LLVMBasedCallGraphBuilder.cpp")],
     ["Resolver::resolveIndirectCall", "LLVMBasedICFG::getCalleesOfCallAt"])

prop("C29", "Type hierarchies contain exactly the transitive inheritance relation",
     "Every class, struct and union of the program is in the hierarchy once and is found by its name; its subtypes are itself and everything that transitively inherits from it, whatever the shape of the inheritance graph (diamonds, bases named through typedefs, classes without type information), and nothing else. A virtual function is in the table of its class at its index, missing ones are null. Storing a hierarchy and loading it for the same program yields the same types, subtype relation and tables, also if different types have the same plain name.",
     ["programs"], "every inheritance graph and set of virtual functions",
     "Tests compare some twenty fixed hierarchies.",
     [L + "TypeHierarchy/", L + "ControlFlow/LLVMVFTableProvider.cpp"],
     [("DIBasedTypeHierarchy, getSubTypes, isSubType", L + "TypeHierarchy/DIBasedTypeHierarchy.cpp"), ("LLVMTypeHierarchy", L + "TypeHierarchy/LLVMTypeHierarchy.cpp")],
     ["TypeHierarchy::getSubTypes", "TypeHierarchy::isSubType"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    print(len(P), "properties")
