// Splitting into components: the assignments accepted, and values.
#include "core.hpp"
using namespace core;
struct Shape {
    char const *step1, *step2;
    int comps1, comps2;
    int tier;
};
static Shape const shapes[] = {
    {"12:a 21:b 34:c 43:d", "", 2, 0, 0},
    {"01:T 10:a 03:b 34:c", "", 2, 0, 0},
    {"10:a 01:b 20:c 02:d", "", 2, 0, 0},
    {"10:T 02:a 34:b 40:c", "23:d", 3, 2, 0},
    {"12:T 34:a 03:b", "23:c 41:d", 2, 1, 0},
    {"01:a 20:b", "12:c 03:d", 2, 2, 0},
    {"10:T 20:a", "32:b 13:c 01:d", 2, 1, 0},
    {"14:T 24:T 34:T 01:a 40:T", "", 2, 1, 0},
    {"41:T 42:T 43:T 10:a 04:T", "", 2, 1, 0},
    {"12:a 34:b 03:c", "23:d 41:e", 2, 1, 1},
};
constexpr int NS = sizeof shapes / sizeof *shapes;
struct Conf {
    char const *mode, *cc;
};
static Conf const confs[] = {{"no", "yes"}, {"no", "no"}, {"zero", "yes"}, {"full", "yes"}, {"partial+", "off"}};
constexpr int NC = sizeof confs / sizeof *confs;
int sym_variants(int tier) {
    int n = 0;
    for (auto &s : shapes) n += s.tier <= (tier > 0);
    return NC * n;
}

// iterate over the assignment: exactly the variables, each at most once
static void iterate(World &w) {
    size_t idx;
    clingodl_assignment_begin(w.th, 0, &idx);
    std::vector<int> seen(w.nv, 0);
    while (clingodl_assignment_next(w.th, 0, &idx)) {
        auto s = clingodl_get_symbol(w.th, idx);
        int v = 0;
        for (int i = 1; i < w.nv; ++i)
            if (mock::sym(s).str == varName(i) && mock::sym(s).args.empty()) v = i;
        if (v == 0) sym_fail("an internal symbol is part of the assignment");
        if (seen[v]++) sym_fail("a variable is assigned twice");
    }
    for (int i = 1; i < w.nv; ++i)
        if ((seen[i] > 0) != w.hasValue(i)) sym_fail("iteration misses a variable");
}

static bool search(World &w, Solver &s) {
    for (;;) {
        auto r = s.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        auto act = w.active(s);
        if (r == mock::CONFLICT) {
            sym_reach("conflict");
            sym_assert(w.inconsistent(act), "conflict although the constraints are consistent");
            return false;
        }
        auto l = choose(w, s, true);
        if (l == 0) break;
        // first come first served; the phase is free
        s.decide(sym_choose("phase", 2) ? l : -l);
    }
    sym_reach("model");
    sym_assert(!w.inconsistent(w.active(s)), "inconsistent assignment accepted");
    w.checkValues(s);
    iterate(w);
    return true;
}

void sym_main(int variant) {
    auto &c = confs[variant % NC];
    auto &sh = shapes[variant / NC];
    World w;
    w.conf("propagate", c.mode);
    w.conf("compute-components", c.cc);
    w.reg();
    std::vector<lit> vars;
    build(w, sh.step1, vars);
    if (!w.host->callInit()) sym_fail("initialization failed");
    auto &s = w.host->start();
    if (!*sh.step2) {
        search(w, s);
        return;
    }
    // second step after propagating facts only
    if (s.fixpoint() != mock::OK) return;
    iterate(w);
    w.host->nextStep();
    w.host->theory.atoms.clear();
    build(w, sh.step2, vars);
    if (!w.host->callInit()) sym_fail("initialization failed");
    w.host->resume();
    sym_reach("second step");
    search(w, s);
}
