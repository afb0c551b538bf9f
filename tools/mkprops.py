#!/usr/bin/python3
"""Write properties.jsonl."""
import json
import os

L = "libclingo-dl/"
PROP, GRAPH, PARSE, THEORY = L + "src/propagator.cc", L + "src/graph.cc", L + "src/parsing.cc", L + "src/theory.cc"
CAPI, UTIL, CONF = L + "src/clingo-dl.cc", L + "clingo-dl/impl/util.hh", L + "clingo-dl/config.hh"
APP, MAIN, STAT = "app/lib/src/app.cc", "app/src/main.cc", L + "src/theory.cc"
P = []


def p(id, title, statement, over, text, why, mech, files=None, state=None, observe=None):
    fs = files or sorted({w.split(":")[0] for _, w in mech})
    a = {"files": fs, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "Every answer satisfies all difference constraints that hold in it",
  "Whenever the solver accepts a total assignment, the values reported for the variables satisfy every difference constraint whose atom is true (and the complement of every strict constraint whose atom is false). A total assignment whose constraints have no common solution is never accepted.",
  ["inputs", "schedules", "configurations"],
  "all weights, all truth assignments reached in any order of decisions, all propagation modes, sort modes, mutex and component settings",
  "The tests run a few dozen fixed programs; soundness must hold for every weight, every assignment order and every configuration.",
  [("edge consistency and negative cycle detection", GRAPH + ":Graph::add_edge"), ("final check", PROP + ":DLPropagator::check"), ("values", PROP + ":DLPropagator::extend_model")],
  observe=["clingo_propagator check callback", "clingodl_assignment_get_value"])
p("C02", "No answer is lost and configurations agree",
  "A total assignment whose difference constraints have a common solution is never rejected. The set of accepted assignments does not depend on the propagation mode, the sort mode, mutexes, component handling or any other option that only tunes the search.",
  ["inputs", "schedules", "configurations"],
  "all weights, all total assignments, all configurations of the propagator",
  "A lost answer shows only for particular weights and an order of assignments the tests never produce; they check few configurations against each other.",
  [("conflict clauses", PROP + ":DLPropagator::do_propagate"), ("full propagation", GRAPH + ":Graph::propagate_full_"), ("mutexes", PROP + ":DLPropagator::calculate_mutexes_"), ("zero propagation", GRAPH + ":Graph::propagate_zero_")])
p("C03", "Every clause added is implied by the difference constraints",
  "Every clause added to the solver (conflict, propagated literal, mutex, zero clause) is satisfied by every total assignment whose constraints have a common solution. Clauses propagating a literal are unit or conflicting when they are added.",
  ["inputs", "schedules", "histories", "configurations"],
  "all weights, all search histories with decisions, backjumps and restarts, all propagation modes",
  "An invalid clause loses answers only in unlucky searches; the tests look at final answers of small programs.",
  [("conflict and propagation clauses", PROP + ":DLPropagator::do_propagate"), ("explanations", GRAPH + ":Graph::check_cycle_"), ("relevancy of edges", GRAPH + ":Graph::propagate_edge_true_, propagate_edge_false_")])
p("C04", "Backtracking restores the state of the propagator",
  "After any sequence of decisions, propagations, conflicts and backjumps, the propagator behaves exactly as one that saw only the remaining assignment. Values, active constraints and disabled constraints of undone levels leave no trace.",
  ["histories", "inputs", "configurations"],
  "all weights, all sequences of decisions and backjumps up to the bound, all configurations",
  "The tests cannot observe internal state after backtracking, and errors show only as a later wrong answer.",
  [("undo", PROP + ":DLPropagator::undo"), ("trail of the graph", GRAPH + ":Graph::backtrack"), ("inactive edges", GRAPH + ":Graph::disable_edge")],
  state=[{"name": "potentials and trail", "meaning": "current values and how to undo them", "where": GRAPH},
         {"name": "edge states", "meaning": "active and enabled flags, candidate lists", "where": GRAPH}])
p("C05", "Full propagation leaves no implied literal open",
  "With full propagation, after propagating to a fixpoint every constraint that contradicts the active constraints has its literal assigned false. Only constraints which are consistent with the active ones stay undecided.",
  ["inputs", "schedules", "configurations"],
  "all weights, all partial assignments reached in any order, per-thread settings",
  "Missed propagation never changes the answers, so no test of answers can see it.",
  [("shortest paths through the added edge", GRAPH + ":Graph::propagate_full_"), ("candidate edges", GRAPH + ":Graph::propagate_edge_true_, propagate_edge_false_")])
p("C06", "Zero propagation decides constraints implied via the zero node",
  "With zero propagation, after a fixpoint every constraint that is contradicted by the best bounds of its variables with respect to zero is assigned false. This holds per component if zero is split.",
  ["inputs", "schedules", "configurations"],
  "all weights, all partial assignments, with and without component splitting",
  "Missed propagation never changes the answers, so no test of answers can see it.",
  [("distances to zero", GRAPH + ":Graph::propagate_zero_"), ("call", PROP + ":DLPropagator::do_propagate")])
p("C07", "Constraints contradicting an opposite constraint are decided",
  "With inverse propagation or any stronger mode, after propagating to a fixpoint every constraint directly contradicted by an active constraint in the opposite direction between the same two variables is assigned false. The number zero counts as a variable here.",
  ["inputs", "schedules", "configurations"],
  "all weights, all partial assignments, all modes from inverse on",
  "Missed propagation never changes the answers, so no test of answers can see it.",
  [("inverse edges", GRAPH + ":Graph::propagate_simple_"), ("calls per mode", PROP + ":DLPropagator::do_propagate")])
p("C08", "Every relation means what it says, strict or not",
  "The relations <=, <, >=, >, =, != between linear expressions hold for the reported values whenever the atom is true. In rule bodies the atom is true exactly if the relation holds, while in heads a false atom imposes nothing; no answer is duplicated by this.",
  ["inputs", "programs"],
  "all constants, all values of the variables, all combinations of relation, strictness, shared and complementary literals",
  "Tests fix a few constants; off-by-one errors and lost or duplicated answers depend on constants and on how literals are shared.",
  [("normalisation of relations", PROP + ":DLPropagator::normalize_constraint_"), ("epsilon", THEORY + ":epsilon"), ("edges", PROP + ":DLPropagator::add_edges_")])
p("C09", "Linear expressions are evaluated exactly or rejected",
  "A constraint over a linear expression built from sums, differences, products with constants and divisions of constants has the meaning of ordinary integer arithmetic. Expressions which do not simplify to a difference of two variables are rejected with an error and never silently altered.",
  ["inputs", "programs"],
  "all constants, a family of expression shapes, all relations",
  "Tests contain few expression shapes and constants.",
  [("linear terms", PARSE + ":parse_elem"), ("simplification", PARSE + ":simplify"), ("atoms", PARSE + ":parse"), ("check for two variables", PROP + ":DLPropagator::add_edges_")])
p("C10", "Arithmetic on constants is exact or an error",
  "Every arithmetic operation on constants of a program yields the mathematically exact result of the operation or an error if it does not fit. No overflow passes silently, and no result that fits is refused.",
  ["inputs"],
  "all pairs of 32 bit integers per operation",
  "There are 2^64 pairs per operation; the tests sample about a dozen around the limits.",
  [("checked arithmetic", UTIL + ":safe_add, safe_sub, safe_mul, safe_div, safe_mod, safe_inv, safe_pow")])
p("C11", "Mutexes are sound, bounded and complete up to the size",
  "Statically added mutex clauses forbid only combinations of constraints without a common solution and contain at most the configured number of literals. If the limits suffice, every contradicting combination along a cycle up to that size is excluded.",
  ["inputs", "configurations"],
  "all weights, all sizes and cutoffs within the bound, several steps",
  "Mutexes only tune the search; wrong ones lose answers for particular weights only.",
  [("mutexes", PROP + ":DLPropagator::calculate_mutexes_"), ("clauses for opposite edges", PROP + ":DLPropagator::init")])
p("C12", "Splitting into components does not change the meaning",
  "Computing components and giving each its own zero node yields exactly the same answers and values as without. Internal zero nodes are never shown, and components joined in a later step keep consistent values.",
  ["inputs", "histories", "configurations"],
  "all weights, component structures and multi-shot steps within the bound",
  "Tests use two or three component structures with fixed weights.",
  [("components", PROP + ":DLPropagator::cc_calculate_"), ("zero nodes", PROP + ":DLPropagator::init"), ("values", PROP + ":DLPropagator::extend_model")])
p("C13", "Reported values are the least solution, whatever the search",
  "The values reported for an answer are the least ones that satisfy the active constraints when counted from zero, and depend only on the answer. The order in which the search found the answer, the configuration and earlier answers make no difference.",
  ["inputs", "histories", "configurations"],
  "all weights, all orders of decisions, all configurations",
  "Tests compare with one stored result and one search order.",
  [("potentials", GRAPH + ":Graph::add_edge"), ("normalised values", PROP + ":DLPropagator::extend_model")])
p("C14", "The assignment interface is consistent",
  "Iterating over the assignment, testing, looking up and reading values agree with each other and with the symbols added to the answer. Indices are stable, unknown symbols are reported as unknown, and the zero node is never listed.",
  ["inputs", "histories"],
  "all sets of variables within the bound, all weights, all orders of calls",
  "Tests print assignments of a few programs; they do not combine lookups, iteration and shown symbols.",
  [("assignment functions", CAPI + ":clingodl_assignment_begin, clingodl_assignment_next, clingodl_lookup_symbol"), ("symbols", CAPI + ":clingodl_on_model"), ("values", PROP + ":DLPropagator::has_lower_bound, lower_bound")])
p("C15", "Solving in several steps equals solving from scratch",
  "After adding constraints step by step, the answers and values of each step are those of solving the accumulated program from scratch. Learnt state of earlier steps never restricts or relaxes later ones.",
  ["histories", "inputs", "configurations"],
  "all weights, two to three steps with constraints and facts added in between, all configurations",
  "Tests contain a few multi-shot programs with fixed constants.",
  [("re-initialisation", PROP + ":DLPropagator::init"), ("threads states", PROP + ":DLPropagator::initialize_states_"), ("facts", PROP + ":DLPropagator::add_edges_")])
p("C16", "Minimization returns the true optimum and terminates",
  "Minimizing a variable ends, the last answer attains the least value of the variable over all answers, and this bound is reported. The start bound and step factor only influence the number of solve calls.",
  ["inputs", "configurations"],
  "all sets of attainable values, start bounds and factors within the bound",
  "Tests minimize a few fixed problems with default factor.",
  [("optimization loop", APP + ":Optimizer::solve"), ("bounds", APP + ":Optimizer::prepare_"), ("result", APP + ":Optimizer::get_bound")])
p("C17", "Options are validated and take effect exactly where specified",
  "Every documented option value is accepted and sets exactly the documented setting, globally or for the thread it names. Any other value is refused with an error and changes nothing.",
  ["inputs", "configurations"],
  "all argument strings up to the bound, all option names, thread numbers 0 to 63",
  "There are too many malformed strings; tests check a few well-formed ones.",
  [("parsers", CAPI + ":parse_root, parse_budget, parse_mutex, parse_mode, parse_sort, parse_decide, parse_bool"), ("configuration", CAPI + ":clingodl_configure"), ("per thread settings", CONF + ":PropagatorConfig")])
p("C18", "Statistics count what happened, and accumulate without loss",
  "The numbers reported for a step are those of that step, and accumulated numbers are the sum over all steps and threads. Changing the number of threads between steps neither loses numbers nor touches foreign memory.",
  ["inputs", "histories"],
  "all values of the counters, all numbers of threads per step within the bound",
  "Tests do not look at the statistics at all.",
  [("accumulation", PROP + ":Statistics::accu"), ("output", CAPI + ":DLPropagatorFacade::on_statistics")])
p("C19", "Rewriting tags exactly the theory atoms of difference constraints",
  "Rewriting marks every difference constraint atom as head or body according to where it occurs and leaves everything else of the program as it was. When shifting of constraints is enabled, an integrity constraint containing difference literals becomes an equivalent rule that has (the complement of) one of them in the head. Malformed difference constraints are refused.",
  ["programs", "inputs"],
  "all statement shapes within the bound",
  "Tests cover a handful of statements.",
  [("rewriting", PARSE + ":TheoryRewriter"), ("shifting", PARSE + ":shift_rule"), ("unpooling", PARSE + ":transform")])
p("C20", "Threads do not influence each other",
  "The work done for one solver thread never changes the state, clauses or values of another. Whatever the interleaving of callbacks of different threads, each thread behaves as if it were alone.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of two threads at the granularity of callbacks, all weights, per-thread settings",
  "Interleavings are not controlled by tests, and most tests run a single thread.",
  [("per thread state", PROP + ":DLPropagator::initialize_states_"), ("per thread configuration", CONF + ":PropagatorConfig::get_propagate_mode")])
p("C21", "The decision heuristic only flips the sign as configured",
  "The decision heuristic always returns the literal or the complement of the literal the solver proposed. For a literal of a single constraint, minimizing conflicts (min) makes the constraint true if the current values of its variables satisfy it and false otherwise, and maximizing conflicts (max) does the opposite. Without a heuristic the proposed literal is used unchanged, whatever other theories in the process are configured to do.",
  ["inputs", "schedules", "configurations"],
  "all weights, all assignments, all heuristics",
  "Heuristics do not change the answers; the tests do not observe decisions.",
  [("decide", PROP + ":DLPropagator::decide"), ("registration", CAPI + ":DLPropagatorFacade")])
p("C22", "The priority queue always yields a least element",
  "Whatever sequence of insertions, removals and cost changes was performed, removing from the queue yields an element that no other one precedes in the order of costs. No element is lost, duplicated or given a wrong position.",
  ["inputs", "histories"],
  "all costs, all sequences of operations within the bound",
  "Tests use one fixed sequence of costs.",
  [("heap operations", UTIL + ":Heap::push, pop, decrease, increase")])
p("C23", "Malformed constraints and failing calls give an error and never crash",
  "Every theory atom that is not a difference constraint (missing parts, terms that are not linear, numbers that are not finite, malformed names) and every failing function of the library leads to an error reported through the interface, and difference constraints are not refused. No exception escapes and nothing crashes.",
  ["inputs", "programs", "fault_sequences"],
  "all term shapes within the bound, all numbers, every failing call",
  "Tests contain a few malformed constraints only.",
  [("atom parsing", PARSE + ":parse"), ("terms", PARSE + ":evaluate"), ("error translation", CAPI + ":CLINGODL_TRY, CLINGODL_CATCH")])
p("C24", "Variables are named by the terms written in the program",
  "Two difference constraints talk about the same variable exactly if the terms naming it evaluate to the same value. The symbol reported for a variable is that value, including strings with escapes, tuples, nested functions and arithmetic inside of arguments (also with real-valued difference logic).",
  ["inputs", "programs"],
  "all numbers and string characters within the bound, term shapes with nested functions, tuples, strings and arithmetic",
  "Tests use plain names and small numbers.",
  [("evaluation of terms", PARSE + ":evaluate"), ("strings", UTIL + ":unquote"), ("variable map", PROP + ":DLPropagator::map_vertex_")])
p("C25", "Real-valued difference constraints are decided correctly",
  "With real-valued difference logic, answers satisfy their constraints, none is lost, and the values printed are those of the least solution. This includes strict relations and quoted decimal numbers.",
  ["inputs", "configurations"],
  "all weights exactly representable with few fractional bits, all truth assignments",
  "Tests contain three real-valued programs.",
  [("number parsing", PARSE + ":parse_number"), ("epsilon", THEORY + ":epsilon"), ("propagation over doubles", GRAPH + ":Graph<double>")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
