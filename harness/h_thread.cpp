// Threads do not influence each other.
#include "core.hpp"
using namespace core;
static char const *shapes[] = {
    "12:a 21:b 23:c",
    "12:a 23:b 31:c",
    "01:T 12:b 20:c",
    "12:a 03:b 30:c",
};
constexpr int NS = sizeof shapes / sizeof *shapes;
struct Conf {
    char const *m0, *m1, *root1, *sort1;
    int nthreads;
};
static Conf const confs[] = {
    {"no", "full,1", "0,1", "no,1", 2}, {"full", "no,1", "0,1", "weight,1", 2}, {"zero", "zero,1", "0,0", "potential,1", 2},
    {"no", "partial+,0", "3,1", "potential-reversed,1", 3}, {"inverse", "zero,1", "0", "weight-reversed,0", 2},
};
constexpr int NC = sizeof confs / sizeof *confs;

// an answer of a thread has the values of this thread
static void checkAnswer(World &w, int t) {
    w.host->modelThread = t;
    w.host->model.clear();
    if (!clingodl_on_model(w.th, reinterpret_cast<clingo_model_t *>(w.host))) sym_fail("cannot extend the answer");
    int n = 0, shown = 0;
    for (int v = 1; v < w.nv; ++v) n += w.hasValue(v, t);
    for (auto m : w.host->model) {
        auto x = mock::sym(m);
        if (x.str != "dl" || x.args.size() != 2) sym_fail("unexpected symbol in the answer");
        int v = 1;
        while (v < w.nv && !mock::symEq(x.args[0], mock::fun(varName(v)))) ++v;
        if (v == w.nv) sym_fail("unknown variable in the answer");
        sym_assert(w.hasValue(v, t) && mock::sym(x.args[1]).num == w.value(v, t), "an answer has a value of another thread");
        ++shown;
    }
    sym_assert(n == shown, "an answer lacks a value of its thread");
}
int sym_variants(int tier) { return NS * NC; }

void sym_main(int variant) {
    auto &c = confs[variant % NC];
    World w;
    w.conf("propagate", c.m0);
    w.conf("propagate", c.m1);
    w.conf("propagate-root", c.root1);
    w.conf("sort-edges", c.sort1);
    w.host->threads = c.nthreads;
    w.reg();
    std::vector<lit> vars;
    build(w, shapes[variant / NC], vars);
    if (!w.host->callInit()) sym_fail("initialization failed");
    Solver *s[2];
    bool done[2] = {false, false};
    for (int t = 0; t < 2; ++t) s[t] = &w.host->start(t);
    Snap last[2];
    for (int t = 0; t < 2; ++t) {
        auto r = s[t]->fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        if (r == mock::CONFLICT) return;
    }
    for (int t = 0; t < 2; ++t) last[t] = snap(w, t);
    int budget = 4;
    while (!done[0] || !done[1]) {
        int t = done[0] ? 1 : done[1] ? 0 : sym_choose("thread", 2);
        if (budget-- == 0) break;
        auto &x = *s[t];
        lit l = choose(w, x, true);
        if (l == 0) {
            sym_assert(!w.inconsistent(w.active(x)), "inconsistent assignment accepted");
            w.checkValues(x);
            checkCanonical(w, x, true);
            checkAnswer(w, t);
            done[t] = true;
            sym_reach("model");
            continue;
        }
        x.decide(l);
        auto r = x.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        if (r == mock::CONFLICT) {
            sym_reach("conflict");
            sym_assert(w.inconsistent(w.active(x)), "conflict although the constraints are consistent");
            x.undoUntil(x.level() - 1);
            done[t] = true;
        } else {
            w.checkValues(x);
            checkCanonical(w, x, true);
            last[t] = snap(w, t);
        }
        // the other thread is not affected
        same(last[1 - t], snap(w, 1 - t), "a thread changes the values of another one");
        sym_reach("independent");
    }
}
