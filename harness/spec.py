TECHNIQUE = "symbolic execution of the LLVM IR of the real code, assertions decided by Z3, counterexamples replayed natively"
NOT_APPLICABLE = {}
import os
REPO = os.environ.get("VERIF_REPO", "/repo")

LIB = ["libclingo-dl/src/" + x for x in ("clingo-dl.cc", "propagator.cc", "graph.cc", "parsing.cc", "theory.cc")]


def H(name, src, labels=(), flags=(), sources=LIB, **kw):
    return dict(name=name, src=src, sources=sources, labels=list(labels), flags=list(flags), **kw)


CHECKS = {
    "C01": {"level": "model_checking", "note": "all weights |w| <= 2^24, every truth assignment and decision order of the shapes (up to 4 edges quick), all modes; searches with backjumps, conflicts and limited propagation; ten (or six) generated programs with 6 to 10 vertices and up to 18 constraints, all values of three weights",
            "harnesses": [
        H("sound", "h_solve.cpp", ["model", "conflict"], ["-DSOUND"]),
        H("search", "h_search.cpp", ["model", "conflict"], ["-DANSWERS"]),
        H("large", "h_large.cpp", ["model", "conflict"], ["-DANSWERS"])]},
    "C02": {"level": "model_checking", "note": "as C01: every total assignment of the shapes is forced in every order of the tables; exhaustive within the bounds; ten (or six) generated programs with 6 to 10 vertices and up to 18 constraints, all values of three weights",
            "harnesses": [
        H("complete", "h_solve.cpp", ["forced", "conflict"], ["-DCOMPLETE"]),
        H("large", "h_large.cpp", ["forced", "conflict"], ["-DCOMPLETE"])]},
    "C03": {"level": "model_checking", "note": "every clause of every explored search (decisions, propagation, conflicts, backjumps, restarts) is checked against the theory for all weights; ten (or six) generated programs with 6 to 10 vertices and up to 18 constraints, all values of three weights",
            "harnesses": [
        H("lemmas", "h_search.cpp", ["lemma", "conflict", "model"], ["-DLEMMAS"]),
        H("large", "h_large.cpp", ["lemma", "conflict", "model"], ["-DLEMMAS"])]},
    "C04": {"level": "model_checking", "note": "the visible state after a backjump is compared with that of a fresh propagator given the remaining assignment, for all weights; ten (or six) generated programs with 6 to 10 vertices and up to 18 constraints, all values of three weights",
            "harnesses": [
        H("backtrack", "h_search.cpp", ["restored", "jumped", "model"], ["-DBACKTRACK"]),
        H("large", "h_large.cpp", ["restored", "jumped", "model"], ["-DBACKTRACK"])]},
    "C05": {"level": "model_checking", "note": "at every fixpoint each undecided literal must be consistent with the active constraints, for all weights; ten (or six) generated programs with 6 to 10 vertices and up to 18 constraints, all values of three weights",
            "harnesses": [
        H("full", "h_search.cpp", ["undecided", "conflict", "model"], ["-DFULL"]),
        H("large", "h_large.cpp", ["undecided", "model"], ["-DFULL"])]},
    "C06": {"level": "model_checking", "note": "at every fixpoint each undecided literal is compared with exact distances to zero, for all weights; ten (or six) generated programs with 6 to 10 vertices and up to 18 constraints, all values of three weights",
            "harnesses": [
        H("zero", "h_search.cpp", ["undecided", "conflict", "model"], ["-DZERO"]),
        H("large", "h_large.cpp", ["undecided", "model"], ["-DZERO"])]},
    "C07": {"level": "model_checking", "note": "at every fixpoint parallel, opposite and two-step cycles are checked, for all weights; ten (or six) generated programs with 6 to 10 vertices and up to 18 constraints, all values of three weights",
            "harnesses": [
        H("inverse", "h_search.cpp", ["undecided", "conflict", "model"], ["-DINVERSE"]),
        H("large", "h_large.cpp", ["undecided", "model"], ["-DINVERSE"])]},
    "C13": {"level": "model_checking", "note": "values of every accepted assignment are compared with exact shortest paths, for all weights; ten (or six) generated programs with 6 to 10 vertices and up to 18 constraints, all values of three weights",
            "harnesses": [
        H("canonical", "h_search.cpp", ["canonical", "conflict", "model"], ["-DCANON"]),
        H("large", "h_large.cpp", ["canonical", "model"], ["-DCANON"])]},
    "C11": {"level": "model_checking", "note": "all weights, sizes, cutoffs and cycle shapes up to three edges, one or two steps",
            "harnesses": [
        H("mutex", "h_mutex.cpp", ["mutex", "compatible", "second step"])]},
    "C12": {"level": "model_checking", "note": "all weights of the component shapes, two steps; ten (or six) generated programs with 6 to 10 vertices and up to 18 constraints, all values of three weights",
            "harnesses": [
        H("comp", "h_comp.cpp", ["model", "conflict", "second step"]),
        H("large", "h_large.cpp", ["model", "conflict"], ["-DCOMP"])]},
    "C15": {"level": "model_checking", "note": "all weights; two to three steps with new atoms and facts, also with changing numbers of threads; compared with the theory semantics of the accumulated program; ten (or six) generated programs with 6 to 10 vertices and up to 18 constraints, all values of three weights",
            "harnesses": [
        H("multi", "h_multi.cpp", ["model", "conflict", "last step", "fact", "threads"]),
        H("large", "h_large.cpp", ["model", "step"], ["-DSTEPS"])]},
    "C20": {"level": "model_checking", "note": "all interleavings at callback granularity of two threads with short histories, all weights; data races within a callback are outside",
            "harnesses": [
        H("thread", "h_thread.cpp", ["model", "conflict", "independent"])]},
    "C08": {"level": "model_checking", "note": "all constants |c| <= 2^24 and all variable values, six relations, pairs of atoms sharing literals",
            "harnesses": [
        H("norm", "h_norm.cpp", ["accepted", "excluded"], ["-DNORM"])]},
    "C09": {"level": "model_checking", "note": "all constants |c| <= 2^20 in 29 expression shapes, six relations, strict or not",
            "harnesses": [
        H("expr", "h_norm.cpp", ["accepted", "excluded", "rejected"], ["-DEXPR"])]},
    "C10": {"level": "model_checking", "note": "all pairs of 32 bit operands of each operation; powers: bases up to 60, exponents -2..14; constants of all relations over the full range",
            "harnesses": [
        H("arith", "h_arith.cpp", ["exact", "refused", "power"], ["-fsanitize=signed-integer-overflow", "-fsanitize-undefined-trap-on-error"], []),
        H("limit", "h_norm.cpp", ["accepted", "excluded", "rejected"], ["-DLIMIT"])]},
    "C22": {"level": "model_checking", "note": "queues of up to 7 elements with symbolic costs and up to 18 elements with some symbolic costs, 21 scripts of operations (quick)",
            "harnesses": [
        H("heap", "h_heap.cpp", ["pop", "decrease", "increase"], [], [])]},
    "C21": {"level": "model_checking", "note": "every undecided literal and sign at every fixpoint of the shapes, for all weights, modes and heuristics; also if another theory was registered before",
            "harnesses": [
        H("heur", "h_heur.cpp", ["unchanged", "preferred", "model", "conflict"])]},
    "C14": {"level": "model_checking", "note": "all weights of the shapes at every fixpoint, one or two steps, one or two threads: lookup, symbols, iteration, values and answers are compared with each other and the constraints",
            "harnesses": [
        H("assign", "h_assign.cpp", ["unknown", "stable", "value", "threads", "second step"])]},
    "C17": {"level": "model_checking", "note": "all argument strings of up to 3 bytes, all one character edits of documented words, numbers around 2^64, up to 3 arbitrary bytes after a comma, with default and preset configuration",
            "harnesses": [
        H("options", "h_options.cpp", ["accepted", "refused"], ["-I" + REPO + "/libclingo-dl/src"], [x for x in LIB if "clingo-dl.cc" not in x]),
        H("effect", "h_conf.cpp", ["full", "undecided", "quiet", "model"])]},
    "C18": {"level": "model_checking", "note": "all values of the counters up to 2^40 in up to four steps with 0 to 3 threads; complete runs of up to three steps with changing numbers of threads, compared with the events counted by the harness and with the propagator used directly; the clock is a model",
            "harnesses": [
        H("stats", "h_stats.cpp", ["sum", "accumulated", "reported", "added"])]},
    "C24": {"level": "model_checking", "note": "33 pairs of terms (nested functions, tuples, negated terms, sums, products, strings) for all numbers up to 2^20 and all characters, integer and real valued",
            "harnesses": [
        H("term", "h_term.cpp", ["same", "different", "satisfied", "violated"])]},
    "C23": {"level": "model_checking", "note": "theory atoms with terms of up to three levels built from all operators, numbers, names, strings (also with any two characters), tuples, lists and sets; the n-th call of a function of the library fails for every n up to 400",
            "harnesses": [
        H("tree", "h_malformed.cpp", ["accepted", "refused", "propagated"], ["-DTREE"]),
        H("fault", "h_malformed.cpp", ["failure", "stopped", "finished", "model"], ["-DFAULT"])]},
    "C16": {"level": "model_checking", "note": "all sets of up to 4 attainable values of at most 2^30 in absolute value, every order of answers consistent with the added bounds, all start bounds, factors from 1 to 2147483647 (table), malformed arguments",
            "harnesses": [
        H("opt", "h_opt.cpp", ["answer", "optimum", "no answer", "lower bound", "refused", "error", "interrupted", "plain"], ["-I" + REPO, "-DCLINGODL_VERSION=\"0\""], ["app/lib/src/app.cc"])]},
    "C25": {"level": "model_checking", "note": "all weights that are multiples of 1/4 up to 2^22, every assignment in every decision order; all relations with constants up to 256 and quoted decimal numbers, where epsilon is replaced by 2^-17 (the epsilon of the code is checked on its own to separate multiples of 1/1024)",
            "harnesses": [
        H("real", "h_real.cpp", ["model", "conflict", "canonical", "undecided"]),
        H("strict", "h_real.cpp", ["model", "conflict", "different", "satisfied"], ["-DSTRICT"], [x for x in LIB if "theory.cc" not in x]),
        H("epsilon", "h_eps.cpp", ["epsilon"], [], ["libclingo-dl/src/theory.cc"])]},
    "C19": {"level": "model_checking", "note": "all names of theory atoms of four characters, all signs, values and relations, in 72 statement shapes (rules, constraints, other statements; nested conditions, malformed atoms, unpooled statements), with and without shifting",
            "harnesses": [
        H("rewrite", "h_rewrite.cpp", ["rewritten", "refused", "shift", "failed"])]},
}
