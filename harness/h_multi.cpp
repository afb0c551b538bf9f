// Multi-shot solving: after further constraints have been added, answers are
// those of the accumulated program.
#include "core.hpp"
using namespace core;
struct Shape {
    char const *step1, *step2, *step3;
    int tier;
};
static Shape const shapes[] = {
    {"12:a 21:b", "23:c 32:d", "", 0},
    {"12:T 01:a", "23:T 31:b", "21:c", 0},
    {"12:a", "23:b", "31:c", 0},
    {"10:a 01:b", "12:c 20:T", "", 0},
    {"12:a 23:b", "31:T", "13:c", 0},
    {"", "12:a 21:b", "01:T", 0},
    {"12:a 21:b", "", "23:c 31:d", 0},
    {"12:a 23:b 31:c", "13:d 21:e", "", 1},
};
constexpr int NS = sizeof shapes / sizeof *shapes;
struct Conf {
    char const *mode, *root, *mutex, *cc;
};
static Conf const confs[] = {{"no", "0", "0", "yes"}, {"inverse", "0", "2", "no"}, {"partial+", "1", "0", "yes"}, {"zero", "0", "0", "yes"}, {"full", "0", "3", "yes"}, {"full", "0", "0", "no"}};
constexpr int NC = sizeof confs / sizeof *confs;
// runs in which the number of threads changes: shape, configuration, threads
struct Threads {
    int shape, conf;
    char const *n;
};
static Threads const threads[] = {{0, 0, "12"}, {1, 4, "12"}, {2, 4, "121"}, {2, 0, "212"}, {3, 3, "13"}, {4, 2, "122"}, {5, 1, "112"}, {6, 4, "221"}, {1, 0, "22"}};
constexpr int NTH = sizeof threads / sizeof *threads;
int sym_variants(int tier) {
    int n = 0;
    for (auto &s : shapes) n += s.tier <= (tier > 0);
    return NC * n + NTH;
}
static int variants1() {
    int n = 0;
    for (auto &s : shapes) n += s.tier == 0;
    return NC * n;
}

// true if the search ended with an accepted assignment; restarts once to learn facts
static bool search(World &w, Solver &s, Conf const &c, bool last) {
    for (;;) {
        auto r = s.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        auto act = w.active(s);
        if (r == mock::CONFLICT) {
            sym_reach("conflict");
            sym_assert(w.inconsistent(act), "conflict although the constraints are consistent");
            return s.resolve() && s.fixpoint() == mock::OK;
        }
        w.checkValues(s);
        if (c.mode[0] == 'f') checkComplete(w, s, CFull);
        if (c.mode[0] == 'z') checkComplete(w, s, CZero);
        auto l = choose(w, s, true);
        if (l == 0 || (!last && s.level() == 2)) break;
        s.decide(l);
    }
    if (!last) return true;
    sym_reach("model");
    sym_assert(!w.inconsistent(w.active(s)), "inconsistent assignment accepted");
    checkCanonical(w, s, *c.cc == 'y');
    return true;
}

// let all threads propagate and return the last one
static Solver *prepare(World &w) {
    auto &h = *w.host;
    // (threads no longer used are removed)
    for (size_t t = h.threads; t < h.solvers.size(); ++t) h.solvers[t] = nullptr;
    h.solvers.resize(h.threads, nullptr);
    for (unsigned t = 0; t < h.threads; ++t) {
        if (h.solvers[t]) h.resume(t);
        else h.start(t);
    }
    for (unsigned t = 0; t + 1 < h.threads; ++t) {
        auto r = h.solvers[t]->fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        if (r == mock::CONFLICT) {
            sym_assert(w.inconsistent(w.active(*h.solvers[t])), "conflict although the constraints are consistent");
            return nullptr;
        }
        w.checkValues(*h.solvers[t]);
    }
    return h.solvers[h.threads - 1];
}

void sym_main(int variant) {
    // (the variants with several threads come after those of the quick tier)
    int at = variants1();
    char const *nth = "111";
    int ci = 0, si = 0;
    if (variant >= at && variant < at + NTH) {
        auto &x = threads[variant - at];
        ci = x.conf;
        si = x.shape;
        nth = x.n;
    } else {
        if (variant >= at) variant -= NTH;
        ci = variant % NC;
        si = variant / NC;
    }
    auto &c = confs[ci];
    auto &sh = shapes[si];
    World w;
    w.conf("propagate", c.mode);
    w.conf("propagate-root", c.root);
    w.conf("add-mutexes", c.mutex);
    w.conf("compute-components", c.cc);
    w.host->threads = nth[0] - '0';
    w.reg();
    std::vector<lit> vars;
    build(w, sh.step1, vars);
    if (!w.host->callInit()) sym_fail("initialization failed");
    if (w.host->topConflict) return;
    auto *s = prepare(w);
    if (!s) return;
    // the first step either fixes a literal on the top level or searches
    if (sym_choose("search", 2)) {
        if (!search(w, *s, c, false)) return;
    } else {
        if (s->fixpoint() != mock::OK) return;
        auto l = choose(w, *s);
        if (l != 0) {
            w.host->clauses.push_back({l});
            for (auto *x : w.host->solvers)
                if (x->fixpoint() != mock::OK) return;
            sym_reach("fact");
        }
    }
    int k = 0;
    for (auto *step : {sh.step2, sh.step3}) {
        if (step == sh.step3 && !*step) break;
        if (nth[k + 1]) ++k;
        for (auto *x : w.host->solvers) x->undoUntil(0);
        w.host->nextStep();
        w.host->theory.atoms.clear();
        w.host->threads = nth[k] - '0';
        build(w, step, vars);
        if (!w.host->callInit()) sym_fail("initialization failed");
        if (w.host->topConflict) return;
        s = prepare(w);
        if (!s) return;
        if (w.host->threads > 1) sym_reach("threads");
        if (step == sh.step2 && *sh.step3) {
            // propagate only, or search the intermediate step
            auto r = s->fixpoint();
            if (r == mock::FAILED) sym_fail("propagator reported an error");
            if (r == mock::CONFLICT) {
                sym_assert(w.inconsistent(w.active(*s)), "conflict although the constraints are consistent");
                return;
            }
            continue;
        }
        search(w, *s, c, true);
        sym_reach("last step");
    }
}
