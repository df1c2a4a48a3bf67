"""Properties of libfirm that static analysis cannot decide here, with the reason."""


def p(title, statement, over, quant, why, files, mech):
    return {"title": title, "statement": statement, "over": over, "quant": quant, "why": why, "files": files, "mech": mech}


NA = [
    ("N01", p("Optimisations preserve the behaviour of the compiled program",
              "Every optimisation and lowering pass replaces a graph by one that computes the same results, memory effects and exceptions for every input of the compiled program.",
              ["inputs", "programs"], "every pass, every graph, every input of the compiled program", "The space of graphs is unbounded and the unit tests contain no graphs at all.",
              ["ir/opt", "ir/lower", "ir/opt/iropt.c"], [("local rewrites", "ir/opt/iropt.c transform_node/equivalent_node"), ("passes", "ir/opt/*.c")]),
     "Equivalence of arbitrary rewrites quantifies over the run-time values of the compiled program; that needs translation validation or a solver per rewrite (a different family). Only syntactic side conditions of it are decided (C01, C04 and others)."),
    ("N02", p("Constant arithmetic is exact for every operand and mode",
              "The target value operations (tarval_add ... tarval_convert_to, strcalc, fltcalc) return the mathematically correct result of the mode, including rounding, overflow, NaN and infinity.",
              ["inputs"], "every operation, every mode, every pair of operands", "Unit tests sample a few thousand operand pairs.",
              ["ir/tv/tv.c", "ir/tv/strcalc.c", "ir/tv/fltcalc.c"], [("integer arithmetic on bytes", "ir/tv/strcalc.c"), ("float arithmetic", "ir/tv/fltcalc.c")]),
     "Correctness of multi-byte arithmetic loops is a value-level property with loop invariants over unbounded buffers; no dataflow or typestate abstraction in reach expresses it."),
    ("N03", p("Register allocation never assigns one register to two live values",
              "After register allocation, at every program point all simultaneously live values of a class are in different registers, and every register constraint of every instruction is met.",
              ["programs"], "every graph, every target", "No test runs a back end.",
              ["ir/be/bechordal.c", "ir/be/beprefalloc.c", "ir/be/bespill.c", "ir/be/becopyopt.c"], [("colouring", "ir/be/bechordal.c"), ("constraint handling", "ir/be/beconstr*.c, bessaconstr.c")]),
     "The interference relation is data computed at run time from the input graph; a static argument would be a correctness proof of chordal colouring and spilling."),
    ("N04", p("Compilation terminates on every input program",
              "Every analysis, optimisation and back-end phase terminates for every valid graph.",
              ["inputs", "programs"], "every phase and graph", "Non-termination needs particular graph shapes.",
              ["ir/opt", "ir/ana", "ir/be"], [("fixpoint loops", "ir/opt/combo.c, ir/ana/vrp.c, ir/opt/opt_confirms.c"), ("local optimisation loop", "ir/opt/iropt.c optimize_in_place")]),
     "Termination rests on ranking arguments over run-time graphs and lattices (e.g. that local rewrites never cycle); not decidable by the analyses here."),
    ("N05", p("Alias analysis says 'no alias' only for disjoint accesses",
              "get_alias_relation returns ir_no_alias only if the two accesses can never overlap at run time.",
              ["inputs", "programs"], "every pair of addresses in every program", "Overlap needs particular run-time addresses.",
              ["ir/ana/irmemory.c"], [("alias oracle", "ir/ana/irmemory.c get_alias_relation")]),
     "Soundness quantifies over the run-time addresses of the compiled program and the aliasing rules of the source language."),
    ("N06", p("Emitted machine code computes what the graph denotes",
              "For every graph the assembler text produced by a back end behaves as the graph: instruction selection, scheduling, stack layout and emission are correct for every target.",
              ["inputs", "programs"], "every graph and target", "No back end is run by the tests.",
              ["ir/be/ia32", "ir/be/amd64", "ir/be/arm", "ir/be/sparc", "ir/be/mips", "ir/be/riscv"], [("instruction selection", "*_transform.c"), ("emission", "*_emitter.c")]),
     "Needs a semantics of the machine instructions and equivalence reasoning over values; only structural parts (constructors, operand slots, emitter templates, tables) are decided here."),
]
