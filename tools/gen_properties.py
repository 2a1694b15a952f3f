#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the list).
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=files[0]) for m in mechanism], observe_at=observe)))


p("C01", "Bit-string constant arithmetic is exact",
  "Evaluating an arithmetic, logical, comparison, shift, extension, truncation, slicing or concatenation operation on two constant bit strings gives exactly the result of that operation on two's-complement integers of that width. Conversions between machine integers and bit strings round-trip, and report an error rather than a wrong value when the number does not fit. Where a bit of an operand is unknown or undefined, a result bit is only reported as 0 or 1 if that is its value for every choice of the unknown bits.",
  ["inputs"], "every bit width in the stated set, every operand value, every placement of unknown bits",
  "The tests evaluate a few dozen operand pairs, nearly all at one width (32) and small values; carries, borrows, sign boundaries and unknown bits quantify over 2^(2w) operand pairs.",
  ["jlm/rvsdg/bitstring/value-representation.hpp", "jlm/rvsdg/bitstring/value-representation.cpp", "jlm/rvsdg/bitstring/arithmetic-impl.hpp", "jlm/rvsdg/bitstring/arithmetic.cpp", "jlm/rvsdg/bitstring/comparison.cpp", "jlm/rvsdg/bitstring/slice.cpp", "jlm/rvsdg/bitstring/concat.cpp"],
  ["a value is a string of '0','1','X','D' bits, least significant first; operations work bit by bit"],
  ["value returned by the evaluation functions and by operand reduction"])
p("C02", "Integer constant folding and simplification preserve the computed value",
  "When the optimizer replaces an integer operation, integer comparison, width conversion, branch-selection mapping or select with constant or identical operands by something simpler, the replacement has exactly the value LLVM defines for the original, for every constant and every run-time input. An operation that LLVM leaves undefined for the given constants may be left alone or folded, but folding never crashes the compiler.",
  ["inputs", "programs"], "every constant value at the stated widths and every run-time operand value, for every foldable operation",
  "Tests fold one or two constant pairs per operation; correctness is a statement about all constants, including sign boundaries and shift amounts at and beyond the width.",
  ["jlm/llvm/ir/operators/IntegerOperations.cpp", "jlm/llvm/ir/operators/ConversionOperations.cpp", "jlm/rvsdg/control.cpp", "jlm/rvsdg/binary.cpp", "jlm/llvm/opt/NodeReduction.cpp", "jlm/llvm/ir/Trace.cpp"],
  ["node reduction replaces a node by the result of a normalization and diverts its users"],
  ["value reaching the exports of the graph before and after node reduction"])
p("C03", "Memory reductions never change what a program reads or writes",
  "Simplifying loads, stores, allocations and the ordering edges between them (forwarding a stored value, dropping an overwritten store, removing duplicate or single ordering edges, merging nested merges and splits, dropping loads and stores of allocations at function exit) leaves every value returned by the function and the final content of all memory visible to the caller unchanged. It never introduces an access to memory outside its object, and never drops or reorders two accesses that may touch the same bytes.",
  ["programs", "inputs"], "every program of the enumerated access patterns (addresses equal, overlapping or disjoint; all access widths in the set; all ordering-edge shapes in the set), all stored values and initial memory contents",
  "Each test fixes one access pattern with one pair of addresses and checks the shape of the result; aliasing patterns, access widths and values together are not sampled.",
  ["jlm/llvm/ir/operators/Load.cpp", "jlm/llvm/ir/operators/Store.cpp", "jlm/llvm/ir/operators/MemoryStateOperations.cpp", "jlm/llvm/opt/NodeReduction.cpp"],
  ["memory ordering is encoded in state edges; normalizations rewire state edges and forward values"],
  ["returned values and final memory of the function before and after"])
p("C04", "Two operations are equal only if they mean the same",
  "Two operations that compare equal agree on every attribute that influences their meaning (kind, operand and result types, constants, predicates, alignment, field paths, mappings, names), and equality is reflexive and symmetric. A copy of an operation equals the original, and changing any one such attribute makes two operations unequal.",
  ["inputs"], "every pair of operations of the enumerated kinds, with attribute values ranging over their full machine range where they are integers",
  "Tests compare a handful of instances of some operations; common subexpression elimination relies on this for every pair of nodes of a program.",
  ["jlm/llvm/ir/operators", "jlm/rvsdg/operation.hpp", "jlm/rvsdg/control.cpp", "jlm/rvsdg/bitstring"],
  ["operator==, copy()"],
  ["result of comparing operations"])
p("C05", "Type identity and memory layout are those of LLVM",
  "Two types compare equal exactly if they have the same structure, equal types have equal hashes. The size, alignment and field offsets computed for a type are those of LLVM's data layout for x86-64: every field lies inside the object, aligned, without overlap, in order, and an array element stride equals the element's size.",
  ["inputs"], "all scalar widths, all array lengths, all struct shapes in the enumerated set (nesting, packed or not)",
  "Tests check a few struct shapes; layout is a function of every combination of field types.",
  ["jlm/llvm/ir/types.cpp", "jlm/llvm/ir/types.hpp", "jlm/rvsdg/type.hpp", "jlm/rvsdg/bitstring/type.cpp", "jlm/rvsdg/FunctionType.cpp"],
  ["recursive size/alignment functions over the type"],
  ["reported sizes, alignments, offsets, equality and hashes"])
p("C06", "Attributes and predicates survive translation to and from LLVM",
  "Every comparison predicate, linkage, calling convention, and attribute kind that the compiler represents is translated to the LLVM enumerator of the same meaning, and translating it back gives the value one started from; distinct values stay distinct. A value that has no counterpart is reported as an error, never mapped to some other value.",
  ["inputs"], "every enumerator value, and every integer outside the enumeration",
  "Tests translate a few enumerators; one swapped pair miscompiles silently every program that uses it.",
  ["jlm/llvm/ir/operators/operators.cpp", "jlm/llvm/ir/Linkage.cpp", "jlm/llvm/ir/CallingConvention.cpp", "jlm/llvm/ir/attribute.cpp", "jlm/llvm/frontend", "jlm/llvm/backend"],
  ["conversion functions built from switch statements and tables"],
  ["result of the conversion functions"])
p("C07", "Scalar evolution describes the values the loop really computes",
  "If loop analysis attributes a recurrence to a variable of a loop, then the variable's value at the start of iteration i is the value of that recurrence at i, computed in the variable's bit width, for every iteration and every initial value. If it predicts a number of iterations for a loop, then the loop executes exactly that many iterations.",
  ["programs", "inputs"], "every loop of the enumerated body shapes, every constant operand in range, every initial value, every iteration up to the stated bound",
  "Tests compare the printed form of the recurrence for fixed loops; wrap-around, negative steps and non-unit steps are arithmetic facts over all constants.",
  ["jlm/llvm/opt/ScalarEvolution.cpp", "jlm/llvm/opt/ScalarEvolution.hpp"],
  ["chains of recurrences, combined by an operator algebra; backedge-taken counts from comparisons"],
  ["recurrences and trip counts reported by the analysis"])
p("C08", "Loop unrolling executes every iteration exactly once",
  "Unrolling a counted loop by any factor leaves the loop's results unchanged for every start value, step and end value, both when they are known constants and when they are run-time inputs: no iteration is lost, added or reordered. The computed number of iterations of a loop with constant bounds is exact.",
  ["programs", "inputs"], "all comparison kinds, all constant or run-time bounds at the stated width for which the loop terminates within the bound, all unroll factors in the set",
  "Tests unroll loops with one set of bounds and check node counts; off-by-one errors depend on remainder, comparison kind, sign and wrap-around.",
  ["jlm/llvm/opt/unroll.cpp", "jlm/llvm/opt/unroll.hpp"],
  ["loop bounds are recognised from the body; the body is copied and a residual loop or guard added"],
  ["outputs of the loop before and after"])
p("C09", "Alias analysis never separates accesses that overlap",
  "If an alias query answers that two memory accesses do not alias, then no execution makes the two accesses touch a common byte; if it answers that they must alias, both accesses always start at the same address. Answers do not depend on the order in which the two accesses are given.",
  ["programs", "inputs"], "every pair of pointers built by the enumerated derivations (allocations, globals, arguments, constant and variable offsets, selects, branches, loops), all offsets and access sizes in machine range",
  "Tests query fixed pairs with small offsets; overlap depends on 64-bit offset and size arithmetic and on how pointers were derived.",
  ["jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp", "jlm/llvm/opt/alias-analyses/AliasAnalysis.cpp", "jlm/llvm/ir/Trace.cpp", "jlm/llvm/ir/operators/GetElementPtr.cpp"],
  ["pointers are traced to their origins with constant offsets; intervals are compared"],
  ["alias query response"])
p("C10", "Utility containers keep their abstract-data-type contracts",
  "The project's sets, bijective maps, intrusive lists and hashes, disjoint sets and worklists behave as the mathematical object they implement: after any sequence of operations, membership, order, size, iteration and lookup in either direction are those of the abstract object, nothing is lost or duplicated, and no freed or foreign element is touched. The integer helpers (logarithms, rounding to multiples, bit widths, sign extension, enumeration bounds) return the mathematical result for every argument in their domain.",
  ["histories", "inputs"], "every history of operations up to the stated length over every element of a small universe with symbolic contents; integer helpers over all machine integers in their domain",
  "Tests follow single histories; container faults need particular orders of insertion, removal, splicing and rehashing.",
  ["jlm/util/HashSet.hpp", "jlm/util/BijectiveMap.hpp", "jlm/util/intrusive-list.hpp", "jlm/util/intrusive-hash.hpp", "jlm/util/disjointset.hpp", "jlm/util/Worklist.hpp", "jlm/util/Math.hpp", "jlm/util/TarjanScc.hpp", "jlm/util/AnnotationMap.hpp", "jlm/util/iterator_range.hpp"],
  ["header-only templates"],
  ["results of queries and iteration"])
p("C11", "RVSDG edits keep the graph well-formed",
  "After any sequence of node creations, removals, edge diversions, input, output, argument and result additions and removals, and subgraph copies, every edge is recorded at both of its ends exactly once, indices match positions, node depth exceeds that of all its producers, the sets of top and bottom nodes are exact, and types agree along every edge. A copied graph has the same structure as the original and shares nothing with it, and pruning removes exactly the nodes that no result needs.",
  ["histories", "programs"], "every history of edits up to the stated length over small regions, with nested regions",
  "Tests exercise single edits on fixed graphs; stale user lists and wrong depths show only after particular sequences and are not observed by most tests.",
  ["jlm/rvsdg/node.cpp", "jlm/rvsdg/region.cpp", "jlm/rvsdg/structural-node.cpp", "jlm/rvsdg/gamma.cpp", "jlm/rvsdg/theta.cpp", "jlm/rvsdg/lambda.cpp", "jlm/rvsdg/Phi.cpp", "jlm/rvsdg/delta.cpp", "jlm/rvsdg/graph.cpp", "jlm/rvsdg/simple-node.cpp"],
  ["intrusive user lists, cached depth, top/bottom node lists"],
  ["graph structure through the public accessors"])
p("C12", "Traversals visit every node once, in dependency order",
  "A top-down traversal of a region visits each node of the region exactly once and after all producers of its operands; a bottom-up traversal visits each exactly once and after all its users. This still holds for the remaining nodes when nodes are created, removed or rewired while the traversal is under way.",
  ["programs", "histories"], "every acyclic region shape up to the stated size and every single edit at every point of the traversal",
  "Tests traverse fixed graphs; visiting order under mutation depends on which node is edited when.",
  ["jlm/rvsdg/traverser.cpp", "jlm/rvsdg/traverser.hpp"],
  ["per-node state tracking with a frontier, updated by region observers"],
  ["sequence of visited nodes"])
p("C13", "Removing common and dead nodes preserves the program",
  "Eliminating common and dead nodes, arguments and results leaves every exported value and every observable effect of the program unchanged for all inputs: two computations are only merged if they always yield the same value, and something is only removed if nothing observable depends on it. This covers branches, loops, functions, mutually recursive functions and global data.",
  ["programs", "inputs"], "every program of the enumerated shapes, all run-time inputs and constants",
  "Tests assert that particular nodes were merged or removed; they do not run the program before and after.",
  ["jlm/llvm/opt/CommonNodeElimination.cpp", "jlm/llvm/opt/DeadNodeElimination.cpp"],
  ["congruence partition refined to a fixpoint over structural nodes; mark and sweep over outputs"],
  ["values of exports before and after"])
p("C14", "Moving code across branches and loops preserves the program",
  "Pushing code out of, or pulling it into, branches and loops, redirecting values that branches or loops pass through unchanged, converting branches to selects, unswitching loops, and exploiting correlated branch predicates leave every value computed by a function, for all inputs, unchanged. None of them introduces undefined behaviour, non-termination or an additional memory access or call that the original execution would not perform.",
  ["programs", "inputs"], "every program of the enumerated shapes, all run-time inputs, loop executions up to the stated number of iterations",
  "Tests inspect the shape of one transformed graph per case; they never compare what is computed.",
  ["jlm/llvm/opt/push.cpp", "jlm/llvm/opt/pull.cpp", "jlm/llvm/opt/InvariantValueRedirection.cpp", "jlm/llvm/opt/IfConversion.cpp", "jlm/llvm/opt/LoopUnswitching.cpp", "jlm/llvm/opt/PredicateCorrelation.cpp", "jlm/rvsdg/gamma.cpp", "jlm/rvsdg/theta.cpp"],
  ["nodes are copied into or out of subregions; predicates are compared structurally"],
  ["values of exports before and after"])
p("C15", "Memory optimizations across regions preserve the program",
  "Forwarding stored values to loads across branches and loops, separating chains of loads, splitting aggregate allocations and removing ordering barriers leave every value returned and the final content of caller-visible memory unchanged, for all inputs and all initial memory contents. A load is only replaced by a value if that value is what the load would have read on every path reaching it.",
  ["programs", "inputs"], "every program of the enumerated shapes (aliasing patterns, offsets, widths, branch and loop nesting), all inputs",
  "Tests check the shape of one result per case, with one aliasing pattern each.",
  ["jlm/llvm/opt/StoreValueForwarding.cpp", "jlm/llvm/opt/LoadChainSeparation.cpp", "jlm/llvm/opt/AggregateAllocaSplitting.cpp", "jlm/llvm/opt/IOBarrierElimination.cpp"],
  ["memory state edges are followed backwards to the defining store, with alias queries"],
  ["returned values and final memory before and after"])
p("C16", "Inlining preserves the program",
  "Replacing a call by the body of the called function leaves every value returned and every observable effect unchanged for all arguments: parameters, results, captured values, memory ordering and stack allocations of the callee are connected to those of the call. A function is only inlined where its body is the one that would have been executed.",
  ["programs", "inputs"], "every caller/callee pair of the enumerated shapes, all arguments",
  "Tests check that the call disappeared for one argument wiring each.",
  ["jlm/llvm/opt/inlining.cpp", "jlm/llvm/ir/CallSummary.cpp", "jlm/llvm/ir/operators/call.cpp"],
  ["callee region copied with a substitution map; state splits and merges reconnected"],
  ["values of exports before and after"])
p("C17", "Loop strength reduction preserves the program",
  "Replacing multiplications and address computations in a loop by running additions leaves all results of the loop unchanged, for every initial value and every step, in every iteration, including wrap-around.",
  ["programs", "inputs"], "every loop of the enumerated shapes, all constants and inputs at the stated width, all iterations up to the bound",
  "Tests check the rewritten shape for fixed constants.",
  ["jlm/llvm/opt/LoopStrengthReduction.cpp", "jlm/llvm/opt/ScalarEvolution.cpp"],
  ["candidate recurrences become new loop variables"],
  ["values of exports before and after"])
p("C18", "Control-flow structuring preserves every execution",
  "Restructuring a control-flow graph yields a graph with proper loops and proper branches that executes the same original instructions in the same order for every sequence of branch decisions. Straightening, pruning and purging a control-flow graph likewise keep every execution, and aggregating a structured graph yields a tree with the same executions.",
  ["programs", "inputs"], "every control-flow graph up to the stated number of basic blocks, every sequence of branch decisions up to the stated length",
  "Tests structure a few hand-written graphs and check only that the result is structured, not that it executes the same instructions.",
  ["jlm/llvm/frontend/ControlFlowRestructuring.cpp", "jlm/llvm/ir/cfg.cpp", "jlm/llvm/ir/cfg-structure.cpp", "jlm/llvm/ir/aggregation.cpp", "jlm/llvm/ir/basic-block.cpp"],
  ["auxiliary predicate variables encode entry, exit and repetition of loops and branches"],
  ["sequence of executed instructions"])
p("C19", "Conversion to and from RVSDG preserves the program",
  "Building the region-based representation from three-address code and generating three-address code back from it both keep, for all inputs, the values a function returns and the order of its observable effects.",
  ["programs", "inputs"], "every function of the enumerated control-flow shapes and instruction sequences, all arguments",
  "Tests convert fixed functions and look for the presence of particular nodes.",
  ["jlm/llvm/frontend/InterProceduralGraphConversion.cpp", "jlm/llvm/backend/RvsdgToIpGraphConverter.cpp", "jlm/llvm/ir/ssa.cpp", "jlm/llvm/ir/variable.cpp", "jlm/llvm/ir/Annotation.cpp"],
  ["demand annotation of the aggregation tree; gamma and theta construction; linearization"],
  ["returned values before and after"])
p("C20", "Points-to analysis covers every possible pointer target",
  "Whatever a pointer can point to according to the constraints of a program is contained in the computed points-to set, whichever combination of solver options is used: the solution is closed under all copy, load, store, escape and call constraints, and merging equivalent pointers or eliminating cycles never shrinks it. All solver configurations compute the same solution.",
  ["programs", "configurations"], "every program of the enumerated family (pointers in memory, as integers, behind selects, loops, calls, function pointers, external calls), all inputs, the naive, the default and two further solver configurations per program; loops up to the stated number of iterations",
  "Tests compare configurations on fixed programs; unsound propagation needs particular constraint combinations.",
  ["jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp", "jlm/llvm/opt/alias-analyses/Andersen.cpp", "jlm/llvm/opt/alias-analyses/PointsToGraph.cpp"],
  ["inclusion constraints solved by a worklist with unification, cycle elimination and preprocessing"],
  ["points-to sets after solving"])
p("C21", "The command line selects the commands and optimizations asked for",
  "The drivers run exactly the commands the given command line asks for, in the right order and with the right input and output files: every option is passed on with its value, the selected optimizations run in the order given, and a compile-only, no-link or print-only request performs no later stage. Unknown or contradictory options are reported, never silently ignored.",
  ["configurations", "inputs"], "every combination of the driver's option values in the stated set",
  "Tests parse a handful of command lines.",
  ["jlm/tooling/CommandLine.cpp", "jlm/tooling/CommandGraph.cpp", "jlm/tooling/CommandGraphGenerator.cpp", "jlm/tooling/Command.cpp"],
  ["option records translated into a graph of commands"],
  ["generated command graph and printed command lines"])
p("C22", "Address computations and pointer tracing give exact offsets",
  "The constant byte offset attributed to an address computation is the one LLVM defines for its type and indices, for every index value including negative ones; simplifying address computations never changes the address. Following a value to its origin through copies, branches, loops and conversions only ever arrives at a value that is equal on every execution.",
  ["inputs", "programs"], "all index values, all type shapes and derivations in the enumerated set",
  "Tests compute a few small offsets; index arithmetic and type layout vary independently.",
  ["jlm/llvm/ir/operators/GetElementPtr.cpp", "jlm/llvm/ir/Trace.cpp", "jlm/rvsdg/Trace.cpp", "jlm/llvm/ir/types.cpp"],
  ["offset accumulated over indices; output tracing through structural nodes"],
  ["reported offset, traced origin"])
p("N01", "End-to-end compilation preserves program behaviour",
  "Compiling an LLVM module through any sequence of optimizations and back to LLVM IR yields a module with the same observable behaviour.",
  ["programs", "configurations"], "all LLVM modules, all optimization sequences",
  "The test-suite compiles a fixed corpus.",
  ["tools/jlm-opt", "jlm/llvm"], ["frontend, optimizer and backend composed"], ["behaviour of the generated module"])
p("N02", "High-level synthesis produces an equivalent circuit",
  "The circuit generated for a function delivers the results the function returns, for all inputs and all legal handshake timings, and never deadlocks.",
  ["programs", "inputs", "schedules"], "all accelerated functions, all inputs, all timings",
  "Tests build circuits for fixed functions and never simulate them.",
  ["jlm/hls/backend/rvsdg2rhls", "jlm/hls/ir"], ["conversion of structured dataflow to latency-insensitive components"], ["token streams at the circuit's ports"])
p("N03", "MLIR round trip preserves the program",
  "Translating the region-based representation to MLIR and back yields an equal program.",
  ["programs"], "all programs in the supported dialect",
  "Tests convert one node kind each.",
  ["jlm/mlir"], ["one conversion routine per operation"], ["graph before and after"])
with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
