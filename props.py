"""Which simulated systems decide which property."""
SYNC = {"data-race", "deadlock", "lock-misuse", "memory-error", "crash"}
LIVE = {"no-progress", "hang", "deadlock"}
ROBUST = SYNC | LIVE | {"silent-failure", "accepted-invalid"}
COMPILED = {"refused-unsolved", "refused-op", "refused-loop", "refused-model", "silent-failure", "accepted-singular", "wrong-code", "wrong-values"}
FAITHFUL = {"rejected-valid", "wrong-tree", "spurious-diagnostic", "wrong-copy", "accepted-invalid"}

HARNESS_INFO = {
    "matching": {
        "real": ["include/marco/Modeling/Matching.h (graph construction, simplification, augmenting paths)",
                 "lib/Modeling (index sets, access functions, incidence matrices, local solutions)"],
        "stub": ["MLIR thread pool -> simulated pool (tasks, workers and pinning under the scheduler)",
                 "std::mutex / condition variables / thread creation / malloc / clocks -> simulator"]},
    "graphs": {
        "real": ["include/marco/Modeling/ArrayEquationsDependencyGraph.h, DependencyGraph.h, ScalarEquationsDependencyGraph.h, "
                 "ArrayVariablesDependencyGraph.h, SCCsDependencyGraph.h, Scheduling.h, Graph.h",
                 "lib/Modeling (index sets, access functions)"],
        "stub": ["bridges between the IR and the graphs -> in-memory equations",
                 "MLIR thread pool -> simulated pool", "std::mutex / malloc / clocks -> simulator"]},
    "sets": {
        "real": ["lib/Modeling/IndexSet.cpp, RTree.h, MultidimensionalRange.cpp, Range.cpp, Point.cpp"],
        "stub": ["client threads, allocator, scheduler -> simulator"]},
    "maps": {
        "real": ["lib/Modeling/AccessFunction*.cpp, DimensionAccess*.cpp", "MLIR affine expressions (uniqued in a shared context)"],
        "stub": ["client threads, allocator, scheduler -> simulator"]},
    "incidence": {
        "real": ["lib/Modeling/MCIM*.cpp, LocalMatchingSolutions*.cpp, access functions and index sets"],
        "stub": ["client threads, allocator, scheduler -> simulator"]},
    "parser": {
        "real": ["lib/Parser/BaseModelica, lib/Lexer, include/marco/Lexer, lib/AST, clang source manager and diagnostics engine"],
        "stub": ["file system -> in-memory store with damage faults", "concurrent compilations, allocator, scheduler -> simulator"]},
    "filter": {
        "real": ["lib/VariableFilter, lib/Lexer, include/marco/Lexer, clang source manager and diagnostics engine"],
        "stub": ["option text -> in-memory store with damage faults", "printer of the diagnostics -> counter (adapted to the "
                 "installed version of clang)", "concurrent users, allocator, scheduler -> simulator"]},
    "pipeline": {
        "real": ["lib/Parser, lib/AST, lib/Codegen/Lowering/BaseModelica (text to IR)",
                 "lib/Dialect/BaseModelica (IR and the passes of the default pipeline up to the parallel schedules, explicit Euler)",
                 "lib/Modeling, lib/Dialect/Modeling, lib/Dialect/Runtime/IR"],
        "stub": ["MLIR thread pool -> simulated pool", "std::mutex / malloc / clocks -> simulator",
                 "code generation and runtime library -> interpreter of the resulting IR which orders the parallel work",
                 "parts of MLIR newer than the installed one -> shims (compat/)"]},
}

_MATCH = ("Each run draws a system of array equations and variables (tilings through roto-translations plus extra affine, "
          "constant, transposed and general accesses; solvable, singular and unbalanced systems), matching options, worker "
          "count, scheduling strategy and faults from its seed, runs the real matching in the simulator and compares the "
          "outcome with a scalar bipartite matching computed on the expanded system.")
_SETS = ("Each run draws shared and private index sets and a program of operations executed by one to four concurrent "
         "clients; every result is compared with a set of integer points.")
_GRAPH = ("Each run draws matched array equations (roto-translated tilings with extra reads, and one- to three-dimensional "
          "recurrences), builds the graphs with simulated workers and compares them with the scalar dependency relation; ")

_MAPS = ("Each run draws access functions (affine, permuted, divided, set-valued, with dependent iteration spaces), index sets and "
         "a program of operations executed by one to four concurrent clients sharing them and the MLIR context; every image, "
         "backward image and derived function is compared with the evaluation of the expressions.")
_INC = ("Each run draws spaces, access functions and a history of operations on incidence matrices executed by one to three "
        "concurrent clients; every matrix is compared with a set of pairs, every local solution with the accesses.")

_PARSER = ("Each run draws a program, writes it to a simulated store which tears, zeroes, flips, loses, repeats or mixes parts of it "
           "and edits its tokens, and has one to three concurrent front ends read the intact and the damaged versions; every "
           "outcome is compared with an independent lexer and recursive parser of the accepted language, which leaves out (grey) "
           "what the documentation does not settle. ")

_PIPE = ("Each run draws a model (array and scalar equations, loops with shifted, reversed and constant subscripts, states, "
         "parameters, outputs; orderable, circular and singular ones) and the options of the compiler, compiles its text with "
         "simulated workers and executes the result, in the order it lists and in orders drawn for the run, for the initial "
         "time and two steps of explicit Euler. ")

PROPS = {
    "C01": dict(parts=[("matching", "sound", None, 1)], quick=80, rule=_MATCH),
    "C02": dict(parts=[("matching", "complete", None, 1)], quick=110, rule=_MATCH),
    "C03": dict(parts=[("graphs", "array", None, 1), ("graphs", "scc", None, 1)],
                rule=_GRAPH + "vertices, edges, strongly connected components and their order must match it, and the components "
                     "of equation views must partition the domains, keep algebraic loops together and be acyclic."),
    "C04": dict(parts=[("graphs", "schedule", None, 1)],
                rule=_GRAPH + "the resulting schedule is executed symbolically, in every direction it leaves open."),
    "C06": dict(parts=[("matching", "all", SYNC, 3), ("graphs", "all", SYNC, 2), ("sets", "default", SYNC, 1),
                ("maps", "default", SYNC, 1), ("incidence", "default", SYNC, 1)], quick=90,
                rule=_MATCH + " Every instrumented memory access is checked by a vector-clock race detector and against the "
                     "simulated heap; lock operations are checked for misuse and deadlock."),
    "C07": dict(parts=[("matching", "all", LIVE, 3), ("graphs", "all", LIVE, 3), ("incidence", "default", LIVE, 1),
                ("sets", "default", LIVE, 1), ("maps", "default", LIVE, 1)], quick=90,
                rule=_MATCH + " A run which does not finish within a fixed number of simulated events, or whose memory outgrows the "
                     "simulated heap, violates the property."),
    "C09": dict(parts=[("sets", "default", None, 1)], rule=_SETS),
    "C10": dict(parts=[("maps", "default", None, 1)], rule=_MAPS),
    "C11": dict(parts=[("incidence", "default", None, 1)], rule=_INC),
    "C13": dict(parts=[("parser", "default", ROBUST, 1)], rule=_PARSER + "Every source must end in a tree or in a reported error."),
    "C16": dict(parts=[("filter", "default", None, 1)],
                rule="Each run draws a variable filter, stores, damages and edits its text, and has one to three concurrent clients "
                     "read the versions and query them for variables and derivatives; verdicts and answers are compared with an "
                     "independent reading of the filter language and of the part of regular expressions all dialects agree on."),
    "C14": dict(parts=[("parser", "default", FAITHFUL, 1)], rule=_PARSER + "The trees and their copies must be the expected ones."),
    "C18": dict(parts=[("pipeline", "default", COMPILED, 1)], quick=90,
                rule=_PIPE + "Values are compared with those obtained from the source by substitution, or with its equations."),
    "C19": dict(parts=[("pipeline", "default", SYNC | LIVE, 1)], quick=90,
                rule=_PIPE + "Accesses to data shared by the passes are checked by a vector-clock race detector, all of them against "
                     "the simulated heap; a run which exceeds its events or memory violates the property."),
    "C20": dict(parts=[("pipeline", "default", {"order-dependent"}, 1)], quick=90,
                rule=_PIPE + "Every permitted order of parallel blocks, of the calls inside them and of the iterations of "
                     "parallel equations must leave the same memory as the listed order."),
}
