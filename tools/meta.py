#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
I = "include/marco/Modeling/"
L = "lib/Modeling/"
DET = "deterministic simulation with fault injection: "

# id: title, statement, over, text, why, files, mechanism[(name, where)], claim|None, reason
P = []
def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  tech=tech, note=note, na=na))

NOTE = ("Seeded search over schedules, faults and generated workloads on the real code, compared with an executable reference "
        "model; bounded sizes, not exhaustive. Trusts the simulator, the reference model, the clang race instrumentation and "
        "the prebuilt LLVM libraries; every reported failure is reproduced twice from its replay file first.")

prop("C01", "A reported matching is a valid one-to-one assignment",
     "Whenever the matching of a system of array equations and array variables succeeds, the reported assignment covers every "
     "scalar equation and every scalar variable exactly once, stays inside their declared domains, and pairs an equation index "
     "only with a variable index it really accesses. This holds for every system, every choice of options and every interleaving "
     "of the worker threads.",
     ["inputs", "schedules", "configurations"],
     "all systems of array equations (any rank, index domains, affine, constant, transposed or general accesses), all matching "
     "options, all worker counts and thread interleavings",
     "The existing tests never run the matching at all; the assignment depends on which worker finishes first, so no sample of "
     "executions settles it.",
     [I + "Matching.h", L + "Matching.cpp", L + "MCIM.cpp", L + "LocalMatchingSolutionsVAF.cpp", L + "LocalMatchingSolutionsMCIM.cpp"],
     [("augmenting path search and application", I + "Matching.h"), ("local matching solutions", L + "LocalMatchingSolutionsVAF.cpp"),
      ("incidence matrices", L + "MCIM.cpp")],
     DET + "matching core under a seeded thread scheduler, checked against the scalar expansion", NOTE)
prop("C02", "Matching succeeds exactly when a complete matching exists",
     "For every system of array equations and variables, the matching terminates without crashing and reports success if and only "
     "if the scalar expansion of the system admits a complete matching. The verdict does not depend on the options, on the number "
     "of workers or on how they are interleaved.",
     ["inputs", "schedules", "configurations"],
     "all systems of array equations, matching options, worker counts and thread interleavings",
     "A missed matching only appears for particular overlaps of array accesses and particular orders of the augmenting paths; "
     "existing tests do not exercise the matching.",
     [I + "Matching.h", L + "IndexSet.cpp", L + "AccessFunction.cpp", L + "AccessFunctionRotoTranslation.cpp", L + "MCIM.cpp"],
     [("leaf simplification, scalarization and augmenting paths", I + "Matching.h"), ("index set algebra", L + "IndexSet.cpp")],
     DET + "verdict compared with a scalar bipartite matching under every simulated schedule", NOTE)
prop("C03", "Dependency graphs and components reflect the real dependencies",
     "For every system of matched equations, the dependency graphs contain exactly one node per equation and an edge exactly where "
     "an equation reads elements written by another. Their strongly connected components are exactly the groups of mutually "
     "dependent nodes and are listed after the ones they depend on. The components of the partitioned equations assign every index "
     "of every equation to exactly one component, never separate equations that depend on each other in a loop, and never depend "
     "on each other cyclically. None of this depends on the number of workers or their interleaving.",
     ["inputs", "schedules"],
     "all systems of matched array equations, worker counts and thread interleavings",
     "Wrong partitions need particular overlaps of array accesses (loops sharing part of the indices, accesses that are not "
     "one-to-one); the tests use a few hand-written systems and never control the workers.",
     [I + "ArrayEquationsDependencyGraph.h", I + "DependencyGraph.h", I + "ScalarEquationsDependencyGraph.h",
      I + "ArrayVariablesDependencyGraph.h", I + "SCCsDependencyGraph.h", I + "Graph.h"],
     [("writes map and edges", I + "ArrayEquationsDependencyGraph.h"), ("cycles search and partitioning", I + "DependencyGraph.h"),
      ("components order", I + "SCCsDependencyGraph.h")],
     DET + "graphs built by simulated workers, compared with the scalar dependency relation", NOTE)
prop("C04", "Schedules compute every value before it is read",
     "For every set of components of matched equations, the schedule contains every index of every equation exactly once; an "
     "equation is placed after everything it depends on; and the iteration directions given to an array equation (forward, "
     "backward, or both when left open) compute each of its elements before the ones that read it. Equations of an algebraic loop "
     "are kept together without a direction. Loops internal to a single array equation are assumed to have been solved before.",
     ["inputs", "schedules"],
     "all systems of components and self-dependent array equations, of any rank and offsets, in any order and with any workers",
     "Directions depend on permutations and offsets of the accesses in each dimension, and only some combinations conflict.",
     [I + "Scheduling.h", I + "SCCsDependencyGraph.h", I + "ScalarEquationsDependencyGraph.h"],
     [("direction inference and scalar fallback", I + "Scheduling.h"), ("post order of the components", I + "SCCsDependencyGraph.h")],
     DET + "the schedule produced under simulated workers is executed symbolically against the scalar dependencies", NOTE)
prop("C06", "Parallel analyses are free of data races, deadlocks and invalid accesses",
     "Whatever the interleaving of the worker threads and wherever one of them is delayed, the parallel analyses of the equation "
     "system never access the same memory concurrently without synchronisation, never use freed or uninitialised objects, never "
     "misuse a lock and never deadlock.",
     ["schedules", "inputs", "fault_sequences"],
     "all interleavings and stalls of the worker threads, on all equation systems",
     "A test observes a handful of uncontrolled executions, and on a loaded machine always nearly the same one.",
     [I + "Matching.h", I + "ArrayEquationsDependencyGraph.h", I + "DependencyGraph.h", I + "ScalarEquationsDependencyGraph.h",
      I + "RTree.h"],
     [("parallel loops over edges, equations and components guarded by mutexes", I + "Matching.h")],
     DET + "vector-clock race detection, heap checking and deadlock detection on simulated schedules", NOTE)
prop("C09", "Index sets behave as sets of integer points",
     "After any sequence of insertions, removals, unions, differences, intersections, complements, slices and projections, an index "
     "set contains exactly the points prescribed by set algebra, enumerates each of them exactly once, reports their exact number, "
     "and answers membership, containment, overlap and equality accordingly. Concurrent readers of a shared set all observe that "
     "same content.",
     ["histories", "inputs", "schedules"],
     "all histories of operations on index sets of any rank, size and internal tree shape, with any interleaving of the clients",
     "The tests use small sets which mostly fit one tree node; wrong results need histories that split and collapse nodes.",
     [L + "IndexSet.cpp", I + "RTree.h", L + "MultidimensionalRange.cpp", L + "Range.cpp", L + "Point.cpp"],
     [("R-tree maintenance", I + "RTree.h"), ("range algebra", L + "MultidimensionalRange.cpp")],
     DET + "histories of concurrent clients checked step by step against a point-set model", NOTE)
prop("C10", "Access functions map, invert and compose as their expressions do",
     "The image of a point or of a set through an access function is exactly what evaluating its expressions gives, division "
     "rounding towards minus infinity and a set yielding all of its elements. The backward image of a set, within given candidate "
     "indices, contains exactly the candidates whose accesses are requested; composition, inversion, added dimensions and copies "
     "denote the corresponding functions; equal functions access the same elements. Concurrent users of a shared function or of "
     "the context it lives in all observe this.",
     ["inputs", "histories", "schedules"],
     "all access functions (affine, permuted, constant, divided, set-valued, with dependent iteration spaces), points, sets and "
     "interleavings of their users",
     "The tests evaluate a few hand-written accesses; wrong images need repeated or unused dimensions, negative values, sets of "
     "several elements or compositions of them.",
     [L + "AccessFunction.cpp", L + "AccessFunctionRotoTranslation.cpp", L + "AccessFunctionGeneric.cpp",
      L + "AccessFunctionConstant.cpp", L + "AccessFunctionAffineConstant.cpp", L + "DimensionAccess.cpp",
      L + "DimensionAccessDiv.cpp", L + "DimensionAccessRange.cpp", L + "DimensionAccessIndices.cpp"],
     [("images and backward images", L + "AccessFunctionGeneric.cpp"), ("composition and inversion", L + "AccessFunction.cpp"),
      ("dimension accesses", L + "DimensionAccess.cpp")],
     DET + "programs of concurrent clients, each result compared with the evaluation of the expressions", NOTE)
prop("C11", "Incidence matrices and local matchings are faithful to the accesses",
     "An incidence matrix contains exactly the pairs of equation and variable indices prescribed by the history of accesses applied "
     "to it, elements set and unset, sums, differences, filters and changes of space, and its projections and comparisons agree "
     "with that content. The local solutions computed for a pair of equation and variable use only pairs that are accessed, never "
     "pair an index twice within one solution, and together cover every accessed pair; enumerating them always terminates. "
     "Concurrent readers of a shared matrix all observe the same.",
     ["histories", "inputs", "schedules"],
     "all histories of operations on incidence matrices over any index spaces and single-valued accesses, all lists of accesses of "
     "a local matching problem, all interleavings of the clients",
     "The tests use a few small matrices built by one access; errors need several accesses overlapping on part of the matrix, or "
     "sequences mixing accesses and single elements.",
     [L + "MCIM.cpp", L + "MCIMGroupGeneric.cpp", L + "MCIMGroupAffineConstant.cpp", L + "MCIMGroupEmpty.cpp",
      L + "LocalMatchingSolutionsVAF.cpp", L + "LocalMatchingSolutionsMCIM.cpp"],
     [("matrix content", L + "MCIM.cpp"), ("local solutions", L + "LocalMatchingSolutionsVAF.cpp")],
     DET + "histories of concurrent clients checked step by step against a set of pairs", NOTE)
prop("C07", "The analyses of the equation system always terminate",
     "Whatever the system of equations, the options, the worker count and the delays of the workers, matching, dependency analysis, "
     "partitioning and scheduling come to an end within a bounded number of steps and with bounded memory, either with a result or "
     "with a reported failure: no endless search, no unbounded recursion, no waiting for work that never comes.",
     ["inputs", "schedules", "fault_sequences"],
     "all equation systems of the explored sizes, all options, interleavings and stalls of the workers",
     "Endless searches only start from particular overlaps of array accesses, and the tests hold none of them.",
     [I + "Matching.h", I + "DependencyGraph.h", I + "Scheduling.h", L + "LocalMatchingSolutionsVAF.cpp"],
     [("augmenting path search", I + "Matching.h"), ("cycles search", I + "DependencyGraph.h"),
      ("enumeration of the local solutions", L + "LocalMatchingSolutionsVAF.cpp")],
     DET + "progress within a bounded number of simulated events and a bounded simulated heap", NOTE)
LX = "include/marco/Lexer/"
PB = "lib/Parser/BaseModelica/"
prop("C13", "Any source text ends in a syntax tree or in a reported error",
     "Whatever bytes a source file contains - intact, truncated, torn, corrupted or edited - the front end terminates without "
     "crashing, without endless loops and without invalid memory accesses, in time bounded by the size of the source. It either "
     "yields the syntax tree of the whole text, or fails and reports at least one error; text which is not a program is never "
     "silently accepted, nor is part of the text silently ignored. Sources being compiled at the same time do not disturb each "
     "other. (Nesting depth is bounded by the stack.)",
     ["inputs", "fault_sequences", "schedules"],
     "all source texts obtained from programs through storage faults and edits, and all interleavings of concurrent front ends",
     "The tests parse a few valid snippets; malformed input fails in as many ways as there are positions in a program.",
     [PB + "Parser.cpp", PB + "StateMachine.cpp", LX + "Lexer.h", LX + "IntegerLexer.h", LX + "FloatLexer.h"],
     [("recursive descent and error reports", PB + "Parser.cpp"), ("token recognition", PB + "StateMachine.cpp")],
     DET + "front ends reading programs back from a faulty store, against an independent recogniser", NOTE)
prop("C14", "Valid programs yield the tree they denote",
     "For every program of the accepted language, whatever its layout and comments, the front end succeeds without errors and its "
     "tree is the one the grammar prescribes: classes, members, prefixes, modifications, sections, equations, statements and "
     "expressions in source order, operators nested by precedence and associativity, names and strings unescaped, and numbers with "
     "the values they denote (real numbers up to rounding); declared members, names and literals carry the line and column they "
     "have in the text. Copying a tree yields an equal tree that shares nothing with the "
     "original.",
     ["inputs", "schedules"],
     "all programs, layouts and concurrent front ends",
     "Trees go wrong for particular combinations of constructs, literals and layouts; the tests cover a few of each.",
     [PB + "Parser.cpp", PB + "StateMachine.cpp", LX + "IntegerLexer.h", LX + "FloatLexer.h", "lib/AST/BaseModelica/Expression.cpp"],
     [("productions", PB + "Parser.cpp"), ("literals", PB + "StateMachine.cpp"), ("copies", "lib/AST/BaseModelica/Expression.cpp")],
     DET + "trees and their copies compared with those of an independent parser", NOTE)
VF = "lib/VariableFilter/"
prop("C16", "Variable filters select exactly the requested variables",
     "A variable filter text is either accepted or refused with at least one reported error, whatever it contains. An accepted filter "
     "made of elements separated by semicolons selects exactly what it lists: the named variables with the given bounds in each "
     "dimension (missing dimensions unbounded, superfluous ones ignored), the derivatives of the named variables, and the variables "
     "or derivatives (as der(name)) whose name is matched by one of the regular expressions; anything else is hidden, and an empty "
     "filter hides no variable. Concurrent users do not disturb each other.",
     ["inputs", "fault_sequences", "schedules"],
     "all filter texts, intact or damaged, all variables and ranks queried, all interleavings of the users",
     "The tests read eleven valid filters; wrong selections need mixes of elements about the same variable, extreme bounds or "
     "malformed text.",
     [VF + "Parser.cpp", VF + "LexerStateMachine.cpp", VF + "VariableFilter.cpp", VF + "Tracker.cpp", VF + "Filter.cpp"],
     [("language of the filters", VF + "Parser.cpp"), ("answers", VF + "VariableFilter.cpp")],
     DET + "filters read from a faulty store and queried by concurrent clients, against an independent reading", NOTE)
BT = "lib/Dialect/BaseModelica/Transforms/"
prop("C18", "Compiled models compute what their equations say",
     "A model of real scalars and arrays (parameters, states with fixed start values integrated by explicit Euler, outputs, other "
     "unknowns), with scalar, loop and whole-array equations over arithmetic, conditional and elementary functions, goes through "
     "the compiler from its text to its schedules: if each equation determines one unknown by arithmetic and the equations can be "
     "ordered, it is compiled; algebraic loops are left to a nonlinear solver if one is chosen, with residuals and derivatives "
     "whose zero is the solution of the equations; if a model is structurally singular, or is refused for another reason, an "
     "error is reported. Executing the schedules of a compiled model (initial conditions, updates of the state and of the other variables) gives every variable "
     "which the chosen options keep the value its equations prescribe, at the initial time and after each step, computed from "
     "states and parameters only. This holds for every choice of the optimisations and every interleaving of the passes.",
     ["programs", "configurations", "schedules"],
     "all such models, all combinations of matching, pruning, promotion, substitution, parallelization options, all worker counts "
     "and interleavings",
     "No test of the build runs the pipeline; wrong code needs particular overlaps of array accesses to meet particular options.",
     [BT + "EquationExplicitation.cpp", BT + "Matching.cpp", BT + "SCCDetection.cpp", BT + "Scheduling.cpp",
      BT + "SingleValuedInductionElimination.cpp", BT + "VariablesPromotion.cpp", BT + "VariablesPruning.cpp",
      BT + "SCCSolvingBySubstitution.cpp", BT + "DerivativesMaterialization.cpp", BT + "EulerForward.cpp",
      BT + "InitialConditionsSolving.cpp", BT + "SCCSolvingWithKINSOL.cpp",
      "lib/Dialect/BaseModelica/IR/Ops.cpp", "lib/Codegen/Lowering/Bridge.cpp"],
     [("from equations to explicit functions", BT + "EquationExplicitation.cpp"), ("matching of the IR", BT + "Matching.cpp"),
      ("schedules", BT + "Scheduling.cpp"), ("integration", BT + "EulerForward.cpp")],
     DET + "models compiled with simulated workers, executed by an interpreter and compared with substitution in the source", NOTE)
prop("C19", "Compiling a model is race-free, memory-safe and always ends",
     "The passes from the text of a model to its parallel schedules, executed by any number of workers in any interleaving, never "
     "access shared data without synchronisation, never touch memory they do not own, never misuse locks or wait for each other "
     "forever, and end in a bounded number of steps, whether the model is accepted or refused.",
     ["programs", "configurations", "schedules"],
     "all models of C18 (also circular, singular and unbalanced), all options, worker counts and interleavings",
     "The passes are parallel and no test of the build runs them; a race needs an interleaving which ordinary executions do not meet.",
     [BT + "Matching.cpp", BT + "DerivativesMaterialization.cpp", "lib/Dialect/BaseModelica/IR/DerivativesMap.cpp", BT + "SCCDetection.cpp",
      BT + "ScheduleParallelization.cpp", BT + "SchedulersInstantiation.cpp"],
     [("parallel passes", BT + "ScheduleParallelization.cpp"), ("derivatives shared by the passes", "lib/Dialect/BaseModelica/IR/DerivativesMap.cpp")],
     DET + "whole pipeline under a seeded scheduler with race, memory and progress checks", NOTE)
prop("C20", "Parallel schedules give the same result in every order",
     "Whatever a compiled model declares to be parallel - blocks of the same group, calls inside a block, iterations of an equation "
     "with independent indices, equations handed to a runtime scheduler - can be executed in any order and leaves every variable "
     "with the same value as the listed order.",
     ["programs", "configurations", "schedules"],
     "all models of C18, all sizes of the groups, with and without runtime schedulers, all permitted execution orders",
     "A dependency lost between two blocks or two iterations shows only when the runtime happens to order them the wrong way.",
     [BT + "ScheduleParallelization.cpp", BT + "SchedulersInstantiation.cpp", BT + "EquationExplicitation.cpp", BT + "Scheduling.cpp"],
     [("groups of blocks", BT + "ScheduleParallelization.cpp"), ("runtime schedulers", BT + "SchedulersInstantiation.cpp"),
      ("independent iterations", BT + "EquationExplicitation.cpp")],
     DET + "emitted schedules executed in random permitted orders and compared with the listed one", NOTE)
exec(open(V + "/tools/meta_more.py").read())

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
               "thorough_cmd": f"python3 check.py {p['id']} thorough", "technique": p["tech"], "level": "exploration",
               "level_note": p["note"]} for p in P if p["id"] in PROPS]
    na = [{"property": p["id"], "reason": p["na"] or "not claimed"} for p in P if p["id"] not in PROPS]
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na,
                   "notes": "No hook was needed in /repo: the seams are the MLIR thread pool, the C library and the compiler's "
                            "race instrumentation. See DESIGN.md."}, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
main()
