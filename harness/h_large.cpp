// Programs over up to ten variables with many constraints, a few of which have
// symbolic weights; the search follows a script with some free choices.
// The programs are derived from a number with a fixed generator.
//  -DLEMMAS    every clause added during search is implied
//  -DBACKTRACK the state after a backjump is the one before the decisions
//  -DFULL -DZERO -DINVERSE  completeness of propagation at fixpoints
//  -DCANON     values are the canonical ones
//  -DANSWERS   accepted assignments are consistent, values are solutions
//  -DCOMPLETE  conflicts and forced literals are justified
//  -DCOMP      as ANSWERS and COMPLETE with several components
//  -DSTEPS     constraints are added in several steps
#include "core.hpp"
using namespace core;

struct Conf {
    char const *mode, *root, *budget, *sort, *cc, *mutex;
    int batch;
};
#if defined(FULL)
static Conf const confs[] = {{"full", "0", "0", "weight", "yes", "0", 0}, {"full", "0", "0", "potential", "no", "0", 1}, {"no", "100", "0", "weight-reversed", "yes", "2", 0}};
#elif defined(ZERO)
static Conf const confs[] = {{"zero", "0", "0", "weight", "yes", "0", 0}, {"zero", "0", "0", "potential", "no", "0", 1}};
#elif defined(INVERSE)
static Conf const confs[] = {{"inverse", "0", "0", "weight", "yes", "0", 0}, {"partial", "0", "0", "no", "yes", "0", 0}, {"partial+", "0", "0", "potential", "no", "0", 1}};
#else
static Conf const confs[] = {
    {"full", "0", "0", "weight", "yes", "0", 0},
    {"no", "0", "0", "potential-reversed", "yes", "0", 0},
    {"zero", "0", "0", "weight", "no", "0", 1},
    {"partial+", "3", "0", "no", "yes", "3", 0},
    {"inverse", "2", "20", "weight-reversed", "no", "0", 1},
    {"partial", "0", "30", "potential", "yes", "4,50", 0},
};
#endif
constexpr int NC = sizeof confs / sizeof *confs;

struct Rng {
    unsigned long long s;
    // (multiplication is fine, all of this is concrete)
    unsigned operator()(unsigned n) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return (unsigned)(s >> 33) % n;
    }
};

struct Program {
    Rng rnd;
    int n, m, blocks;
    int pot[10];
    std::vector<lit> vars;
    std::vector<bool> symbolic;
    Program(unsigned seed) : rnd{seed * 7919ull + 17} {
        for (int i = 0; i < 10; ++i) rnd(2);
        n = 6 + rnd(5); // vertices including zero
        m = n + 3 + rnd(5);
#if defined(COMP)
        blocks = 2 + rnd(3);
#else
        blocks = rnd(4) == 0 ? 2 : 1;
#endif
        for (auto &p : pot) p = (int)rnd(13) - 6;
        pot[0] = 0;
        symbolic.resize(m, false);
        for (int k = 0; k < 3; ++k) symbolic[rnd(m)] = true;
    }
    // add the constraints with numbers from..to
    void add(World &w, int from, int to) {
        for (int i = from; i < to; ++i) {
            int u, v;
            if (i < n - 1 && rnd(3) != 0) {
                // (connect the variables)
                u = i + 1;
                int k = u - blocks;
                v = k > 0 && rnd(4) != 0 ? k : 0;
            } else {
                int b = rnd(blocks);
                auto pick = [&] {
                    if (rnd(4) == 0) return 0;
                    int c = (n - 2 - b) / blocks + 1;
                    return 1 + b + (int)rnd(c) * blocks;
                };
                u = pick();
                v = pick();
                if (u == v) v = u == 0 ? 1 + b : 0;
            }
            if (rnd(2)) {
                int t = u;
                u = v;
                v = t;
            }
            bool fact = rnd(6) == 0;
            int slack = fact || rnd(5) < 3 ? (int)rnd(5) : (int)rnd(4) - 4;
            int wt = pot[u] - pot[v] + slack;
            lit l = 1;
            if (!fact) {
                int k = rnd(8);
                if (k == 0 && !vars.empty()) l = vars[rnd(vars.size())];
                else if (k == 1 && !vars.empty()) l = -vars[rnd(vars.size())];
                else {
                    l = w.newLit();
                    vars.push_back(l);
                }
            }
            w.add(u, v, symbolic[i] ? sym_int("w", wt - 8, wt + 8) : wt, l);
        }
    }
};

#if defined(CANON) || defined(STEPS)
constexpr int QUICK = 6, THOROUGH = 60;
#else
constexpr int QUICK = 10, THOROUGH = 60;
#endif
int sym_variants(int tier) { return NC * (tier ? THOROUGH : QUICK); }

static bool completeMode(Conf const &c, Complete &k) {
    if (strcmp(c.root, "0") != 0 || strcmp(c.budget, "0") != 0 || strcmp(c.mode, "no") == 0) return false;
    k = strcmp(c.mode, "full") == 0 ? CFull : strcmp(c.mode, "zero") == 0 ? CZero : CInverse;
    return true;
}

// true if an assignment is accepted
static bool search(World &w, Program &p, Conf const &c, Solver &s, bool last, int flip) {
    std::vector<Snap> snaps;
    int conflicts = 8, decisions = 0;
    bool jumped = false;
    Rng order{p.rnd.s};
    for (;;) {
        auto r = s.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        if (r == mock::CONFLICT) {
            sym_reach("conflict");
#if defined(COMPLETE) || defined(COMP) || defined(STEPS)
            sym_assert(w.inconsistent(w.active(s)), "conflict although the constraints are consistent");
#endif
            if (conflicts-- == 0 || !s.resolve()) return false;
#ifdef BACKTRACK
            if (snaps.size() > s.level() + 1) snaps.resize(s.level() + 1);
            same(snaps[s.level()], snap(w), "backtracking does not restore the values");
            sym_reach("restored");
#endif
            continue;
        }
#ifdef FULL
        checkComplete(w, s, CFull);
#endif
#ifdef ZERO
        checkComplete(w, s, CZero);
#endif
#ifdef INVERSE
        checkComplete(w, s, CInverse);
#endif
#ifdef CANON
        checkCanonical(w, s, *c.cc == 'y');
#endif
#ifdef COMPLETE
        // no literal is forced wrongly: its complement has to be inconsistent
        if (conflicts == 8 && s.learned.empty()) {
            for (lit x : s.trail) {
                bool dec = x == 1;
                for (lit d : s.decision) dec = dec || d == x;
                if (dec) continue;
                std::vector<int> act;
                for (size_t i = 0; i < w.cons.size(); ++i)
                    if (w.cons[i].l == -x || s.value(w.cons[i].l) > 0) act.push_back(i);
                sym_reach("forced");
                sym_assert(w.inconsistent(act), "a literal is forced although its complement is consistent");
            }
        }
#endif
#if defined(BACKTRACK) || defined(STEPS)
        w.checkValues(s);
        sym_assert(!w.inconsistent(w.active(s)), "inconsistent assignment accepted");
        Complete k;
        if (completeMode(c, k)) checkComplete(w, s, k);
#endif
#ifdef BACKTRACK
        snaps.resize(s.level() + 1);
        snaps[s.level()] = snap(w);
#endif
        if (!jumped && s.level() >= 4) {
            jumped = true;
            int jump = sym_choose("jump", 4);
            if (jump > 0) {
                // jump back without learning
                s.undoUntil(s.level() - jump);
#ifdef BACKTRACK
                snaps.resize(s.level() + 1);
                same(snaps[s.level()], snap(w), "backtracking does not restore the values");
                sym_reach("restored");
                sym_reach("jumped");
#endif
                continue;
            }
        }
        if (!last && s.level() == 3) return true;
        std::vector<lit> free;
        for (lit l : p.vars)
            if (s.value(l) == 0) free.push_back(l);
        if (free.empty()) break;
        lit l = free[order(free.size())];
        bool pos = order(5) != 0;
        if (decisions++ == flip) pos = !pos;
        s.decide(pos ? l : -l);
    }
#if defined(ANSWERS) || defined(COMP) || defined(STEPS)
    sym_assert(!w.inconsistent(w.active(s)), "inconsistent assignment accepted");
    w.checkValues(s);
#endif
#if defined(COMP) || defined(STEPS)
    checkCanonical(w, s, *c.cc == 'y');
#endif
    sym_reach("model");
    return true;
}

void sym_main(int variant) {
    auto &c = confs[variant % NC];
    World w;
    w.checkLemmas = false;
#if defined(LEMMAS)
    w.checkLemmas = true;
#endif
    w.conf("propagate", c.mode);
    w.conf("sort-edges", c.sort);
    w.conf("propagate-root", c.root);
    w.conf("propagate-budget", c.budget);
    w.conf("add-mutexes", c.mutex);
    w.conf("compute-components", c.cc);
    w.reg();
    w.host->batch = c.batch;
    Program p(variant / NC + 1);
    int flip = sym_choose("flip", 3) * 2 - 2; // none, the first, the third
    if (flip < 0) flip = 1000;
#ifdef STEPS
    int at = p.m / 2, mid = p.m * 3 / 4;
    p.add(w, 0, at);
    if (!w.host->callInit()) sym_fail("initialization failed");
    if (w.host->topConflict) return;
    auto &s = w.host->start();
    search(w, p, c, s, false, flip);
    for (int to : {mid, p.m}) {
        s.undoUntil(0);
        w.host->nextStep();
        w.host->theory.atoms.clear();
        p.add(w, at, to);
        at = to;
        if (!w.host->callInit()) sym_fail("initialization failed");
        if (w.host->topConflict) return;
        w.host->resume();
        sym_reach("step");
        if (!search(w, p, c, s, to == p.m, 1000)) return;
    }
#else
    p.add(w, 0, p.m);
    if (!w.host->callInit()) sym_fail("initialization failed");
    if (w.host->topConflict) return;
    search(w, p, c, w.host->start(), true, flip);
#endif
}
