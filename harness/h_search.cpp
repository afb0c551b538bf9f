// Searches with arbitrary decisions and backjumps.
//  -DLEMMAS    every clause added during search is implied
//  -DBACKTRACK the state after a backjump is the one before the decisions
//  -DFULL -DZERO -DINVERSE  completeness of propagation at fixpoints
//  -DCANON     values are the canonical ones
//  -DANSWERS   answers found after going back, with limited propagation
#include "core.hpp"
using namespace core;

struct Conf {
    char const *mode, *root, *budget, *sort, *cc, *mutex;
    int batch;
};
struct Shape {
    char const *cons;
    int jumps;     // number of backjumps
    bool positive; // decide literals positively only
    int tier;
    int confs = 100; // fifths of the configurations explored in the quick tier
};
static Shape const shapes[] = {
#if defined(ANSWERS)
    {"12:a 21:b", 1, false, 0},
    {"12:a 23:b 31:c", 1, false, 0, 3},
    {"01:T 12:a 20:b 21:c", 1, false, 0, 1},
    {"12:a 21:b", 2, false, 1},
    {"12:a 23:A 31:b 21:c", 1, false, 1},
    {"12:a 12:b 21:c", 1, false, 1},
    {"12:a 23:b 31:c", 2, false, 1},
    {"12:a 21:b 10:c 02:d", 1, false, 1},
    {"01:T 12:a 20:b 21:c", 2, false, 1},
#elif defined(BACKTRACK) || defined(FULL) || defined(ZERO) || defined(INVERSE)
    {"12:a 23:b 31:c", 1, true, 0},
    {"02:T=9 01:a=1 12:a 02:a 02:b 20:c", 1, true, 0, 2},
    {"20:T=9 10:a=1 21:a 20:a 20:b 02:c", 1, true, 0, 2},
    {"02:T 01:a 12:a 02:a 02:b 20:c", 1, true, 1},
    {"20:T 10:a 21:a 20:a 20:b 02:c", 1, true, 1},
    {"12:a 21:b 10:T 02:c", 1, true, 0, 3},
    {"12:T 21:a 10:b 02:c", 1, true, 0, 3},
    {"01:T 12:a 20:b 21:c", 1, true, 0, 3},
    {"12:a 23:A 31:b 21:c", 1, true, 0, 3},
    {"12:a 23:a 31:b 01:T", 1, true, 0},
    {"12:T 03:a 34:b 40:c", 1, true, 0},
    {"12:a 23:b 31:c", 1, false, 1},
    {"12:a 23:b 31:c", 2, true, 1},
    {"12:a 21:b 10:c 02:d", 1, true, 1},
    {"01:T 12:a 20:b 21:c", 2, true, 1},
    {"12:a 23:A 31:b 21:c", 1, false, 1},
#endif
#if defined(FULL)
    // paths that become relevant late
    {"13:T 23:T 34:T 12:a 41:b", 0, true, 0, 2},
    {"31:T 32:T 43:T 21:a 14:b", 0, true, 0, 2},
#endif
#if defined(LEMMAS)
    // paths that branch
    {"23:T 24:T 12:a 43:b 34:c", 0, true, 0, 3},
    {"24:T 23:T 35:T 12:a 54:b", 0, true, 0, 3},
    {"32:T 42:T 21:a 34:b 43:c", 0, true, 0, 3},
    {"23:T 24:T 12:a 43:b 31:c 41:d", 0, true, 1},
#endif
#if !defined(BACKTRACK) && !defined(ANSWERS)
    {"12:a 21:b 10:c 02:d", 0, false, 0},
    {"12:a 23:b 31:c 13:d", 0, false, 0},
    {"01:a 12:b 20:c 21:d", 0, false, 0},
    {"12:a 23:A 31:b 21:c", 0, false, 0},
    {"12:a 23:a 31:b 01:T", 0, false, 0},
    {"01:T 12:a 20:b 21:c 10:d", 0, false, 0, 2},
    {"12:a 03:b 34:c 40:d", 0, false, 0},
#if !defined(CANON)
    {"12:a 23:b 34:c 41:d", 0, false, 0},
    {"12:a 12:b 21:c 23:d", 0, false, 0},
    {"12:a 12:b 23:c 31:d", 0, false, 0},
    {"10:a 02:b 23:c 31:d", 0, false, 0},
#endif
    {"12:a 23:b 31:c 13:d 32:e", 0, false, 1},
    {"01:a 12:b 20:c 21:d 10:e", 0, false, 1},
    {"12:a 03:b 34:c 40:d 43:e", 0, false, 1},
#endif
};
constexpr int NS = sizeof shapes / sizeof *shapes;

#if defined(FULL)
static Conf const confs[] = {{"full", "0", "0", "weight", "yes", "0", 0}, {"full", "0", "0", "potential", "no", "0", 1}, {"no", "100", "0", "no", "yes", "0", 0},
    {"partial", "100", "0", "weight-reversed", "yes", "0", 0}, {"zero", "100", "0", "no", "yes", "0", 0}};
#elif defined(ZERO)
static Conf const confs[] = {{"zero", "0", "0", "weight", "yes", "0", 0}, {"zero", "0", "0", "potential", "no", "0", 1}, {"zero", "1", "0", "no", "yes", "0", 0}};
#elif defined(INVERSE)
static Conf const confs[] = {{"inverse", "0", "0", "weight", "yes", "0", 0}, {"partial", "0", "0", "weight", "yes", "0", 0},
    {"partial+", "0", "0", "weight", "no", "0", 1}, {"full", "0", "0", "no", "yes", "0", 0}, {"zero", "0", "0", "potential-reversed", "yes", "0", 0}};
#elif defined(ANSWERS)
static Conf const confs[] = {{"no", "2", "0", "weight", "yes", "0", 0}, {"no", "1", "0", "no", "no", "0", 1}, {"no", "0", "1", "weight", "yes", "0", 0},
    {"partial+", "2", "0", "potential", "yes", "0", 0}, {"zero", "2", "0", "no", "yes", "0", 0}, {"zero", "0", "3", "no", "yes", "0", 0},
    {"inverse", "1", "1", "weight", "yes", "0", 0}, {"full", "0", "0", "weight", "yes", "0", 0}};
#else
static Conf const confs[] = {
    {"full", "0", "0", "no", "yes", "0", 1},
    {"zero", "0", "0", "weight", "yes", "0", 0},
    {"inverse", "0", "0", "potential-reversed", "no", "0", 1},
    {"no", "0", "0", "weight", "yes", "0", 0},
    {"partial", "0", "0", "weight-reversed", "yes", "0", 0},
    {"partial+", "0", "0", "potential", "yes", "0", 0},
    {"full", "0", "0", "weight", "no", "0", 0},
    {"zero", "2", "0", "no", "yes", "0", 0},
    {"no", "2", "0", "weight", "yes", "0", 0},
    {"partial+", "0", "2", "weight", "yes", "0", 0},
};
#endif
constexpr int NC = sizeof confs / sizeof *confs;

// (the variants of the quick tier come first)
static int variantsOf[2][NS * NC], nvariants[2];
int sym_variants(int tier) {
    for (int t = 0; t < 2; ++t) {
        int &n = nvariants[t] = 0;
        for (int k = 0; k <= t; ++k)
            for (int i = 0; i < NS; ++i)
                for (int c = 0; c < NC; ++c)
                    if ((shapes[i].tier == 0 && c * 5 < shapes[i].confs * NC) == (k == 0)) variantsOf[t][n++] = i * NC + c;
    }
    return nvariants[tier > 0];
}

void sym_main(int variant) {
    sym_variants(1);
    int v = variantsOf[1][variant];
    auto &c = confs[v % NC];
    auto &sh = shapes[v / NC];
    World w;
    w.checkLemmas = false;
#if defined(LEMMAS) || defined(BACKTRACK)
    w.checkLemmas = true;
#endif
    w.conf("propagate", c.mode);
    w.conf("sort-edges", c.sort);
    w.conf("propagate-root", c.root);
    w.conf("propagate-budget", c.budget);
    w.conf("add-mutexes", c.mutex);
    w.conf("compute-components", c.cc);
    w.reg();
    std::vector<lit> vars;
    build(w, sh.cons, vars);
    w.host->batch = c.batch;
    if (!w.host->callInit()) sym_fail("initialization failed");
    Solver &s = w.host->start();

    std::vector<Snap> snaps; // one for each level
    int jumps = sh.jumps;
    for (;;) {
        auto r = s.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        if (r == mock::CONFLICT) {
            sym_reach("conflict");
#if defined(LEMMAS) || defined(BACKTRACK) || defined(ANSWERS)
            if (jumps-- > 0 && s.resolve()) {
#ifdef BACKTRACK
                if (snaps.size() > s.level() + 1) snaps.resize(s.level() + 1);
                // (literals have been added if the level is not the current one)
                same(snaps[s.level()], snap(w), "backtracking does not restore the values");
                sym_reach("restored");
#endif
                continue;
            }
#endif
            return;
        }
        sym_reach("fixpoint");
#ifdef FULL
        checkComplete(w, s, CFull);
#endif
#ifdef ZERO
        checkComplete(w, s, CZero);
#endif
#ifdef INVERSE
        checkComplete(w, s, CInverse);
#endif
#ifdef CANON
        checkCanonical(w, s, *c.cc == 'y');
#endif
#ifdef BACKTRACK
        w.checkValues(s);
        sym_assert(!w.inconsistent(w.active(s)), "inconsistent assignment accepted");
        // what has to be propagated does not depend on undone levels either
        if (strcmp(c.root, "0") == 0 && strcmp(c.budget, "0") == 0 && strcmp(c.mode, "no") != 0)
            checkComplete(w, s, strcmp(c.mode, "full") == 0 ? CFull : strcmp(c.mode, "zero") == 0 ? CZero : CInverse);
        snaps.resize(s.level() + 1);
        snaps[s.level()] = snap(w);
#endif
        int jump = 0;
#if defined(BACKTRACK) || defined(FULL) || defined(ZERO) || defined(INVERSE) || defined(ANSWERS)
        if (jumps > 0 && s.level() > 0) jump = sym_choose("jump", s.level() + 1);
#endif
        if (jump > 0) {
            // jump back over the given number of levels (without learning)
            --jumps;
            s.undoUntil(s.level() - jump);
#ifdef BACKTRACK
            snaps.resize(s.level() + 1);
            same(snaps[s.level()], snap(w), "backtracking does not restore the values");
            sym_reach("restored");
            sym_reach("jumped");
#endif
            continue;
        }
        auto l = choose(w, s, sh.positive);
        if (l == 0) break;
        s.decide(l);
    }
#ifdef ANSWERS
    sym_assert(!w.inconsistent(w.active(s)), "inconsistent assignment accepted");
    w.checkValues(s);
#endif
    sym_reach("model");
}
