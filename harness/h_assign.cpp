// The interface to the assignment: iteration, lookup, values, and answers agree.
#include "core.hpp"
using namespace core;
struct Shape {
    char const *step1, *step2;
    int tier;
};
static Shape const shapes[] = {
    {"12:a 34:b", "", 0},
    {"10:a 02:b", "", 0},
    {"10:T 02:T 34:a", "", 0},
    {"10:T 02:a 34:b", "23:c", 0},
    {"12:T 34:a", "56:b 03:T", 0},
    {"01:a 20:T", "12:c 34:T", 0},
    {"11:a 22:T", "12:b", 0},
    {"12:a 30:b 45:c", "51:d 46:e", 1},
};
constexpr int NS = sizeof shapes / sizeof *shapes;
struct Conf {
    char const *mode, *cc;
    int threads;
};
static Conf const confs[] = {{"no", "yes", 1}, {"no", "no", 1}, {"zero", "yes", 2}, {"full", "no", 2}};
constexpr int NC = sizeof confs / sizeof *confs;
int sym_variants(int tier) {
    int n = 0;
    for (auto &s : shapes) n += s.tier <= (tier > 0);
    return NC * n;
}

// index of the variable with the given symbol or 0
static int varOf(World &w, clingo_symbol_t s) {
    auto &x = mock::sym(s);
    for (int i = 1; i < w.nv; ++i)
        if (x.type == clingo_symbol_type_function && x.pos && x.args.empty() && x.str == varName(i)) return i;
    return 0;
}

static void check(World &w, Solver &s, std::vector<size_t> &index) {
    unsigned t = s.thread;
    // all variables are known and keep their index
    index.resize(w.nv, 0);
    for (int v = 1; v < w.nv; ++v) {
        size_t i = 0;
        sym_assert(w.lookup(v, i), "a variable of a constraint is unknown");
        if (index[v] != 0) {
            sym_assert(index[v] == i, "the index of a variable changes");
            sym_reach("stable");
        }
        index[v] = i;
        sym_assert(mock::symEq(clingodl_get_symbol(w.th, i), mock::fun(varName(v))), "the symbol of an index is not the one looked up");
        for (int u = 1; u < v; ++u) sym_assert(index[u] != index[v], "two variables share an index");
    }
    // other symbols are unknown
    for (auto x : {mock::fun("unknown"), mock::num(7), mock::fun("x", {mock::num(0)}), mock::fun("x", {}, false), mock::str("x"), mock::str("0")}) {
        size_t i = 0;
        sym_assert(!clingodl_lookup_symbol(w.th, x, &i), "a symbol that is not a variable is found");
        sym_reach("unknown");
    }
    // iterate
    std::vector<int> seen(w.nv, 0);
    size_t idx = 0;
    clingodl_assignment_begin(w.th, t, &idx);
    int n = 0;
    while (clingodl_assignment_next(w.th, t, &idx)) {
        if (++n > 20) sym_fail("iteration does not end");
        sym_assert(clingodl_assignment_has_value(w.th, t, idx), "a listed symbol has no value");
        int v = varOf(w, clingodl_get_symbol(w.th, idx));
        if (v == 0) sym_fail("a symbol that is not a variable is listed");
        if (seen[v]++) sym_fail("a variable is listed twice");
        sym_assert(index[v] == idx, "index and lookup disagree");
    }
    for (int v = 1; v < w.nv; ++v) sym_assert((seen[v] > 0) == clingodl_assignment_has_value(w.th, t, index[v]), "iteration and test for a value disagree");
    // variables of enforced constraints have a value (those that cancel out are not part of one)
    for (int i : w.active(s))
        for (int v : {w.cons[i].u, w.cons[i].v})
            if (v != 0 && w.cons[i].u != w.cons[i].v) sym_assert(seen[v] > 0, "a variable of an enforced constraint has no value");
    // an answer
    w.host->modelThread = t;
    w.host->model.clear();
    if (!clingodl_on_model(w.th, reinterpret_cast<clingo_model_t *>(w.host))) sym_fail("cannot extend the answer");
    std::vector<int> shown(w.nv, 0);
    for (auto m : w.host->model) {
        auto x = mock::sym(m);
        if (x.type != clingo_symbol_type_function || x.str != "dl" || !x.pos || x.args.size() != 2) sym_fail("unexpected symbol in the answer");
        int v = varOf(w, x.args[0]);
        if (v == 0) sym_fail("the answer contains an internal symbol");
        if (shown[v]++) sym_fail("the answer contains a variable twice");
        sym_assert(seen[v] > 0, "the answer contains a variable that has no value");
        if (mock::sym(x.args[1]).type != clingo_symbol_type_number) sym_fail("the value in the answer is not an integer");
        sym_assert(mock::sym(x.args[1]).num == w.value(v, t), "the answer and the assignment disagree");
        sym_reach("value");
    }
    for (int v = 1; v < w.nv; ++v) sym_assert(shown[v] == seen[v], "the answer lacks a variable that has a value");
    w.checkValues(s);
}

static bool search(World &w, Solver &s, std::vector<size_t> &index, bool last) {
    for (;;) {
        auto r = s.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        if (r == mock::CONFLICT) return false;
        check(w, s, index);
        auto l = choose(w, s, true);
        if (l == 0 || (!last && s.level() == 1)) break;
        s.decide(sym_choose("phase", 2) ? -l : l);
    }
    return true;
}

void sym_main(int variant) {
    auto &c = confs[variant % NC];
    auto &sh = shapes[variant / NC];
    World w;
    w.conf("propagate", c.mode);
    w.conf("compute-components", c.cc);
    w.host->threads = c.threads;
    w.reg();
    std::vector<lit> vars;
    build(w, sh.step1, vars);
    std::vector<size_t> index;
    if (!w.host->callInit()) sym_fail("initialization failed");
    if (w.host->topConflict) return;
    for (int t = 0; t < c.threads; ++t) w.host->start(t);
    // only the last thread is assigned something
    auto &s = *w.host->solvers.back();
    if (!search(w, s, index, !*sh.step2)) return;
    if (c.threads > 1) {
        auto &o = *w.host->solvers[0];
        if (o.fixpoint() != mock::OK) return;
        check(w, o, index);
        check(w, s, index);
        sym_reach("threads");
    }
    if (!*sh.step2) return;
    for (auto *x : w.host->solvers) x->undoUntil(0);
    w.host->nextStep();
    w.host->theory.atoms.clear();
    build(w, sh.step2, vars);
    if (!w.host->callInit()) sym_fail("initialization failed");
    if (w.host->topConflict) return;
    for (int t = 0; t < c.threads; ++t) w.host->resume(t);
    sym_reach("second step");
    search(w, s, index, true);
}
