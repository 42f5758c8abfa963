prop("C90", "Operation folding preserves values",
     "Folding an expression of constants yields the value the operation has at run time.",
     ["programs", "inputs"], "all expressions and operand values", "Tests sample a few operands per operation.",
     ["lib/Dialect/BaseModelica/IR/Ops.cpp"], [("fold hooks", "lib/Dialect/BaseModelica/IR/Ops.cpp")],
     na="A pure function of its operands, with no schedule, time, I/O or fault to simulate; the folds compiled models go through are "
        "decided as part of C18.")
prop("C05", "Index reduction yields equations from which every derivative is found",
     "For every structurally non-singular differential-algebraic system, index reduction terminates and yields, for each equation, how often "
     "it has to be differentiated so that the resulting system determines the highest derivatives; singular systems are refused.",
     ["programs"], "all differential-algebraic systems", "Tests sample one system.",
     ["include/marco/Modeling/Pantelides.h", "lib/Dialect/BaseModelica/Transforms/Pantelides.cpp"],
     [("Pantelides algorithm", "include/marco/Modeling/Pantelides.h")],
     na="Unfinished at the pinned commit: the pass does not compile (it calls interfaces which have changed), the check for singular "
        "systems without which the algorithm does not end, and the selection of the equations to keep, are missing (TODO in the code). "
        "There is no settled behaviour to decide; C18 and C19 run the pipeline without it.")
