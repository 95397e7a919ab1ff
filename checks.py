"""Which contract translation units decide which property."""
TRUSTED = [
    "clang-14 front end (C++ to LLVM IR at -O0) and LLVM's mem2reg/instsimplify",
    "PVC's translation of LLVM IR to verification conditions (/verif/pvc/pvc.cpp)",
    "Z3 4.8.12 (z3 5.3 / cvc5 1.1 for queries Z3 4.8 gives up on)",
    "specifications of library functions without source (/verif/pvc/pvrt.cpp, malloc/free, stream output)",
    "extraction drops: logging macros (DYNAMIC_LOG off); exceptions are failing obligations; atomics run sequentially",
    "concrete addresses: every allocation is given one fixed, distinct address, in allocation order",
]
CHECKS = {
    "C01": dict(
        tus=[dict(src="contracts/edge_algebra.cpp")],
        slow=["joinef_compose_flat", "joinef_join_flat", "default_helpers_flat", "composer_flat"],
        note="All obligations of the contracts over compose/join/equality of the generic edge functions are discharged for all operands and all domain values (no bound); user-defined edge functions enter through the interface contract. Trusts clang, PVC and Z3.",
    ),
}
_SH = "/repo/lib/PhasarLLVM/Utils/LLVMShorthands.cpp"
_ZV = "/repo/lib/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.cpp"
CHECKS["C04"] = dict(
    tus=[dict(src="contracts/lca.cpp", extra=[_SH], native_extra=[_ZV])],
    slow=["binop_Mul_left_16", "binop_Mul_right_16", "intrinsic_mul_with_overflow", "alg_compose_bin_cc_bin", "alg_compose_comp_bin", "alg_compose_bin_cc"], timeout=400,
    note="All obligations for every operator, operand side and every operand value are discharged on the real transfer and edge functions; instructions are fabricated in memory in LLVM's own layout. Multiplication is proved at widths 64, 16 and 8 (32 is out of solver reach). Trusts clang, PVC, Z3 and the executable specifications of a few libLLVM accessors.",
)
CHECKS["C02"] = dict(
    tus=[dict(src="contracts/ef_value.cpp")],
    note="Every value operation is proved to preserve the ownership invariant (count = number of handles) from an arbitrary state: arbitrary functions of every allocation policy, arbitrary number of further handles. The hash-table behind the default cache is exercised with at most three live functions (bounded). Reference counts are sequential: no claim about concurrent use.",
)
CHECKS["C06"] = dict(
    tus=[dict(src="contracts/bitvectorset.cpp", inc=["shim"])], level="other",
    slow=["iterate_advance", "iterate_step", "element_ops", "construct_from_elements"],
    note="Deductive, for all contents, but bounded: bit vectors of at most 3 words (192 positions), every word and every exact size arbitrary, operands of different internal size included; iteration is one step from an arbitrary position. The element universe is an arbitrary injective map of arbitrary size (boost::bimap is replaced by its contract).",
)
_TS = "/repo/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/"
CHECKS["C05"] = dict(
    tus=[dict(src="contracts/typestate.cpp"),
         dict(src="contracts/automata.cpp",
              extra=[_TS + f for f in ("CSTDFILEIOTypeStateDescription.cpp", "OpenSSLEVPKDFCTXDescription.cpp",
                                       "OpenSSLEVPKDFDescription.cpp", "OpenSSLSecureHeapDescription.cpp",
                                       "OpenSSLSecureMemoryDescription.cpp")]),
         dict(src="contracts/typestate_flow.cpp", flags=["-fno-access-control"],
              extra=["/repo/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp"],
              native_extra=[_SH, _ZV])],
    note="The generic analysis is proved against an arbitrary automaton (uninterpreted transition function, arbitrary states); each shipped automaton is proved equal to an independently written transition relation for every state and every API function. Alias queries, type matching, demangling and value names are arbitrary maps. The flow functions (which objects are tracked where) and the helpers they use are under contract as well. Bounded: at most two callees per call site, two formals, two variadic actuals, alias sets of two members.",
)
_XT = "/repo/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/"
_BBO = "/repo/lib/PhasarLLVM/Utils/BasicBlockOrdering.cpp"
CHECKS["C03"] = dict(
    tus=[dict(src="contracts/lattices_shipped.cpp", extra=[_XT + "EdgeDomain.cpp"], native_extra=[_BBO, _SH])],
    note="The lattice laws and the comparison operators are discharged for all values of the flat lattice over four carriers (scalar, struct, owning), the binary, secure-heap, file-io and taint domains. Joining two sanitizing instructions is bounded to blocks with at most two successors; associativity of that join fails for one shape of control flow (known finding).",
)
CHECKS["C12"] = dict(
    tus=[dict(src="contracts/xtaint.cpp",
              extra=[_XT + f + ".cpp" for f in ("AllSanitized", "ComposeEdgeFunction", "KillIfSanitizedEdgeFunction",
                                                "TransferEdgeFunction", "XTaintEdgeFunctionBase", "EdgeDomain")],
              native_extra=[_BBO, _SH]),
         dict(src="contracts/lattices_shipped.cpp", extra=[_XT + "EdgeDomain.cpp"], native_extra=[_BBO, _SH],
              contracts="taint_(laws|queries|join_two|join_other|join_ordered).*")],
    note="All obligations over the extended-taint edge functions are discharged for arbitrary sanitizer and load instructions (uninterpreted dominance and parent relations) and arbitrary second operands; EdgeDomain::join enters through its contract, which is proved against its body except that two sanitizers in one function are bounded to blocks with two successors. Joins are not claimed for the value top.",
)
CHECKS["C07"] = dict(
    tus=[dict(src="contracts/flowfunctions.cpp", native_extra=[_SH, _ZV])],
    note="All obligations of the flow-function combinators, unions, auto-zero wrapper and legacy classes are discharged for containers that stand for an arbitrary finite set observed at one arbitrary element (no bound) and for two kinds of facts, one of which exposes moved-from values. The std::set instantiations are bounded (operands of at most two elements).",
)
CHECKS["C22"] = dict(
    tus=[dict(src="contracts/param_mapping.cpp", native_extra=[_SH, _ZV])], level="other",
    note="Bounded: calls with at most two formals and two variadic actuals; within that, arbitrary actuals (locals, globals, duplicates), arbitrary predicates (uninterpreted relations), two kinds of facts (plain values; field-sensitive facts whose moved-from state is visible), visible fact constructors and every configuration flag.",
)
CHECKS["C14"] = dict(
    tus=[dict(src="contracts/stablevector.cpp", flags=["-fno-access-control"])],
    level="other",
    note="Block arithmetic (indexing by an arbitrary 64-bit index, growth, shrinking, popping across a block boundary, iterator steps) is discharged for every block number up to 54. The whole-contents contracts are bounded: every state with at most 256 elements in four blocks and up to two spare blocks (pop_back_n: 130 elements), fabricated from the class invariant, which every operation is shown to preserve. Elements are concrete: the container is generic in them.",
)
CHECKS["C15"] = dict(
    tus=[dict(src="contracts/callstring.cpp", flags=["-fno-access-control"])],
    level="other", slow=["compare_5"],
    note="Every obligation is discharged for arbitrary call sites and every state a history can end in (all sequences of length at most k), inductively, so histories are unbounded; the limit k is a template parameter and only its values 0, 1, 2, 3 and 5 are instantiated.",
)
CHECKS["C18"] = dict(
    tus=[dict(src="contracts/eqclassmap.cpp", flags=["-fno-access-control"])],
    level="other",
    note="Arbitrary keys and values, inductive over states (invariant: pairwise different values, disjoint non-empty classes), bounded to states with at most two classes of at most two keys. Precondition: a key is not inserted again with another value (the map has no such operation).",
)
CHECKS["C08"] = dict(
    tus=[dict(src="contracts/jumpfunctions.cpp", flags=["-fno-access-control"])],
    level="other",
    note="Arbitrary keys that may coincide in any component and arbitrary edge functions; inductive over states satisfying the class invariant (the three views agree), so histories are unbounded; bounded to states with at most two recorded functions (two table entries). std::unordered_map and llvm::SmallVector run with their real bodies under a constant hash function.",
)
CHECKS["C13"] = dict(
    tus=[dict(src="contracts/callgraph.cpp", flags=["-fno-access-control"], native_extra=["/repo/lib/ControlFlow/CallGraphData.cpp"])],
    level="other",
    note="Arbitrary functions and call sites, every overload, inductive over states whose edges are recorded in both directions (class invariant), bounded to two functions, two call sites and three edges (growth: up to 61 call sites). Precondition (documented): at most the reserved number of functions. The JSON text layer (nlohmann) is assumed to be lossless; copying a CallGraph object is not claimed.",
)
CHECKS["C19"] = dict(
    tus=[dict(src="contracts/intramono.cpp", flags=["-fno-access-control"]),
         dict(src="contracts/intermono.cpp", flags=["-fno-access-control"])],
    level="other",
    note="The intraprocedural worklist loop is proved by a loop invariant at an arbitrary node, for graphs of any size, any number of iterations, any processing order and arbitrary transfer functions (union or intersection merge); bounded only in the number of predecessors of a node (three; two in the step elsewhere). std::deque and std::unordered_map enter through specifications. The interprocedural solver is covered step by step (bounded: two contexts, three predecessors, two callees/callers); three known findings concern its steps.",
)
_ISC = "/repo/lib/PhasarLLVM/DataFlow/IfdsIde/IFDSIDESolverConfig.cpp"
CHECKS["C09"] = dict(
    tus=[dict(src="contracts/idesolver.cpp", flags=["-fno-access-control"], extra=[_ISC],
              contracts="(normal_|call_|exit_|unbalanced_|next_|dispatch|initial_seeds|seeds_container|solve_loop|cache_|key_compressor|llvm_keys).*")],
    slow=["call_two_callees"], level="other",
    note="Every step of the real IDE solver (normal, call, exit, unbalanced return, propagation, dispatch, seeding, worklist loop) is proved for an arbitrary problem: flow functions are arbitrary (lazily chosen) relations, edge functions uninterpreted. Bounded to at most three successors, two callees / start points / return sites / summaries / callers / jump functions and two or three distinct facts per step; the worklist loop and caches are inductive. Termination, recordEdges/ESG output and interrupted solving with a zero interval are not claimed.",
)
CHECKS["C10"] = dict(
    tus=[dict(src="contracts/idesolver.cpp", flags=["-fno-access-control"], extra=[_ISC],
              contracts="(propagate_value|value_at_start|value_at_call|value_dispatch|initial_values|final_values_|compute_values|finalize|results|initial_seeds|seeds_container).*")],
    level="other",
    note="Every step of the value phase (seeding, value at a start point, at a call, at other statements, top/unreachable look-ups) is proved for arbitrary values, edge functions and joins (uninterpreted). Bounded to at most two jump functions, callees, start points and facts per step.",
)
CHECKS["C20"] = dict(
    tus=[dict(src="contracts/esg.cpp", flags=["-fno-access-control"])], level="other",
    slow=["known_target_0", "known_target_2", "known_target_zero_1", "known_target_zero_2"],
    note="One recorded propagation (saveEdges) from an arbitrary valid state around the touched vertices (class invariant: lookups hold their own fact, neighbours agree, every vertex reaches a root over predecessors and neighbours), to one or two targets, for zero and other facts, every edge kind and block layout; bounded to at most four existing vertices and one neighbour per vertex. That the solver's steps report exactly their propagations is part of C09.",
)
CHECKS["C11"] = dict(
    tus=[dict(src="contracts/iia.cpp", flags=["-fno-access-control"],
              extra=["/repo/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.cpp", _SH],
              native_extra=[_ZV])],
    note="The edge-function algebra (meaning, composition of two and three, join, equality, value join) is discharged for label sets that stand for an arbitrary finite set over an arbitrary universe, observed at one arbitrary label (BitVectorSet enters through its contract, proved in C06). Which edge function each statement gets is discharged for arbitrary points-to information over the locations of the statement; bounded to generators yielding at most two labels and calls with two arguments and at most two callees.",
)
CHECKS["C21"] = dict(
    tus=[dict(src="contracts/dfamin.cpp")], level="other",
    slow=["minimize_wide", "rebuild_three_2"],
    note="minimizeGraph's postcondition is one step of unfolding: states of one class have the same label and one-to-one corresponding transitions under the classes (hence, by coinduction, the same labels along every word), states of different classes do not (hence no two states of an acyclic graph are indistinguishable). createEquivalentGraphFrom is checked for every partition that respects the graph. Arbitrary labels and weights; bounded to every graph with at most three states of degree two, four states of degree one or acyclic with degree two, and two states with three transitions each. llvm::IntEqClasses enters through a trusted specification.",
)
_GL = "/repo/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/"
CHECKS["C23"] = dict(
    tus=[dict(src="contracts/glca.cpp",
              extra=[_GL + f + ".cpp" for f in ("EdgeValue", "EdgeValueSet", "BinaryEdgeFunction", "TypecastEdgeFunction", "LCAEdgeFunctionComposer")])],
    level="other",
    slow=["set_join", "copies", "set_xor", "int_udiv", "int_urem", "int_sdiv", "int_srem"],
    note="Integer arithmetic, conversion, equality, hashing, copying and literals are discharged for every pair of bit patterns of width 1, 8, 16, 32 and 64. Bounded: floating point to twelve representative doubles, strings to three, sets to two members of 32 bits each (joins under limits of zero to four), edge functions to additions and subtractions of one constant, constants, identity and the unknown function. llvm::APInt (up to 64 bits) and llvm::APFloat (as IEEE doubles) enter through trusted executable specifications.",
)
_PT = "/repo/lib/PhasarLLVM/Pointer/"
CHECKS["C17"] = dict(
    tus=[dict(src="contracts/aliasset.cpp", flags=["-fno-access-control"],
              extra=[_PT + "LLVMAliasSet.cpp", _PT + "LLVMAliasInfo.cpp"],
              native_extra=[_SH, _ZV])],
    level="other",
    note="Every operation is verified from an arbitrary state that satisfies the class invariant (any partition, any left-over boxes) to a state that satisfies it again, so histories are unbounded; bounded to four pointers (mergeWith: three; the owner on its own: histories of four operations). Allocation sites are compared with the set for every kind of pointer in two functions. llvm::AAResults answers arbitrarily but consistently with the types of the representatives. Reading alias information from JSON and collecting the pointers of a function are not claimed.",
)
_CF = "/repo/lib/PhasarLLVM/ControlFlow/"
CHECKS["C16"] = dict(
    tus=[dict(src="contracts/cfg.cpp", flags=["-fno-access-control"],
              extra=[_CF + f + ".cpp" for f in ("LLVMBasedCFG", "LLVMBasedBackwardCFG", "LLVMBasedICFG", "LLVMBasedBackwardICFG")] + [_SH],
              native_extra=[_ZV])],
    level="other", slow=["edges_two", "mirror_two", "branch_targets", "mirror_three", "edges_three", "forward_two"],
    note="Bounded function bodies, but every one of them: two blocks with up to two statements each and every terminator, three blocks with up to one statement each and every kind of split, join and loop, any statement a debug instruction or not, either treatment of debug instructions, any branch the guard of a lazily initialized static (arbitrary predicate), with and without virtual return statements. The functions are fabricated in LLVM's own layout, use lists included.",
)
_IF = "/repo/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/"
CHECKS["C27"] = dict(
    tus=[dict(src="contracts/taint.cpp", flags=["-fno-access-control"],
              extra=[_IF + "IFDSTaintAnalysis.cpp", "/repo/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp",
                     "/repo/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp"],
              native_extra=[_SH, _ZV]),
         dict(src="contracts/monotaint.cpp", flags=["-fno-access-control"],
              extra=["/repo/lib/PhasarLLVM/DataFlow/Mono/Problems/InterMonoTaintAnalysis.cpp",
                     "/repo/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp"],
              native_extra=[_SH, _ZV])],
    note="Flow functions of both taint analyses and the queries of the taint configuration, for arbitrary configurations (categories and callbacks), arbitrary alias information and arbitrary incoming facts. Bounded: at most two formals per callee, two callees per call site, one alias per tainted value beyond itself, modules of three functions. Parsing configurations and annotations is not covered.",
)
_RS = "/repo/lib/PhasarLLVM/"
_RX = [_RS + "ControlFlow/Resolver/" + x + "Resolver.cpp" for x in ("", "CHA", "RTA", "DTA", "NO", "OTF")] + [
    _RS + "TypeHierarchy/LLVMTypeHierarchy.cpp", _RS + "TypeHierarchy/LLVMVFTable.cpp",
    _RS + "ControlFlow/LLVMVFTableProvider.cpp", _SH]
CHECKS["C28"] = dict(
    tus=[dict(src="contracts/resolver.cpp", flags=["-fno-access-control"], extra=_RX,
              native_extra=[_ZV, _RS + "Pointer/TypeGraphs/CachedTypeGraph.cpp", _RS + "DB/LLVMProjectIRDB.cpp"]),
         dict(src="contracts/callgraph_builder.cpp", flags=["-fno-access-control"],
              extra=[_RS + "ControlFlow/LLVMBasedCallGraphBuilder.cpp", _RX[0]],
              native_extra=[_ZV, _SH, _RS + "DB/LLVMProjectIRDB.cpp", _RS + "Pointer/LLVMAliasSet.cpp", _RS + "TypeHierarchy/LLVMVFTable.cpp"] + _RX[1:6] + [_RS + "Pointer/TypeGraphs/CachedTypeGraph.cpp", _RS + "TypeHierarchy/LLVMTypeHierarchy.cpp", _RS + "ControlFlow/LLVMVFTableProvider.cpp"])],
    slow=["rta_virtual", "dta_virtual", "call_graph"], level="other",
    note="Recognizing virtual calls, the receiver, slots, vtable look-up and dispatch between the strategies are proved for arbitrary call sites. Each strategy is discharged for arbitrary vtable contents, subtype relations (getSubTypes enters through an assumed contract), allocated types, alias sets and call-site signatures; bounded to three types, tables with two functions and two aliased constants. The call-graph construction is discharged against an arbitrary resolver whose answers may grow while targets are handled; bounded to three function bodies with one call each. Building the type hierarchy and the vtable look-up table from symbol names is not claimed.",
)
_TH = _RS + "TypeHierarchy/"
CHECKS["C29"] = dict(
    tus=[dict(src="contracts/typehierarchy.cpp", flags=["-fno-access-control"],
              extra=[_TH + "DIBasedTypeHierarchy.cpp", _TH + "LLVMTypeHierarchy.cpp", _TH + "LLVMVFTable.cpp", _RS + "ControlFlow/LLVMVFTableProvider.cpp"],
              native_extra=[_SH, _ZV, _TH + "DIBasedTypeHierarchyData.cpp", _TH + "LLVMTypeHierarchyData.cpp", _RS + "DB/LLVMProjectIRDB.cpp"])],
    slow=["di_vtables", "di_roundtrip"], level="other",
    note="Both hierarchies are built from fabricated debug information / type-information globals with an arbitrary inheritance relation, arbitrary kinds of types, orders and virtual functions, and stored and loaded again; bounded to three classes with three virtual functions. Assumed: DebugInfoFinder lists every type and subprogram once, demangling turns the prefixes into their long forms, the JSON text layer is lossless. Precondition for storing: class identifiers are not empty and unique. Inherited entries of a derived class's table (debug information lists only its own functions) are not claimed.",
)
_TODO = "No contract machinery for this property has been built yet."
NOT_APPLICABLE = {"C%02d" % i: _TODO for i in range(2, 27) if "C%02d" % i not in CHECKS}
NOT_APPLICABLE["C24"] = "Relates whole-program results to concrete executions of arbitrary programs: a specification needs a semantics of LLVM IR and an inductive argument over the solver's run-time state (heap-allocated hash tables over arbitrary problems), which no contract within reach of the installed verifiers expresses; its per-step obligations are C01, C07-C10."
NOT_APPLICABLE["C25"] = "Needs a run-time semantics of virtual dispatch and function pointers in arbitrary LLVM modules as the specification; the code is tied to LLVM's IR classes whose bodies are outside the verifier's reach. The graph data structure is C13, the definition of each strategy C28."
NOT_APPLICABLE["C26"] = "Termination of the worklist loops needs a ranking function over arbitrary user-supplied lattices and unbounded hash tables; the verifier proves partial correctness only."
