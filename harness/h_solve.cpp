// For every Boolean assignment, the propagator accepts the assignment iff its
// difference constraints are consistent, and reports a solution.
//  -DSOUND    answers: accepted assignments are consistent, values are solutions
//  -DCOMPLETE no answer is lost, for all configurations
#include "core.hpp"
using namespace core;

static char const *modes[] = {"no", "inverse", "partial", "partial+", "zero", "full"};
static char const *shapes[] = {
    "12:a 23:b 31:c",
    "12:a 21:b 10:c 02:d",
    "12:a 23:b 31:c 13:d",
    "01:a 12:b 20:c 21:d",
    "12:a 23:A 31:b 21:c",       // complementary literals
    "12:a 23:a 31:b 01:T",       // shared literals and facts
    "01:a 10:b 12:c 20:c",
    "23:T 24:T 12:a 43:b 34:c",  // paths that branch
};
constexpr int NS = sizeof shapes / sizeof *shapes;

#ifdef COMPLETE
struct Conf {
    char const *mode, *sort, *root, *budget, *mutex, *cc, *heu;
};
static Conf const confs[] = {
    {"no", "no", "0", "0", "0", "yes", "no"},
    {"no", "weight-reversed", "2", "0", "0", "yes", "min"},
    {"no", "potential", "0", "1", "0", "yes", "max"},
    {"inverse", "potential-reversed", "1", "3", "3", "no", "no"},
    {"partial", "weight", "3", "0", "2", "yes", "min"},
    {"partial+", "no", "0", "2", "4,3", "no", "max"},
    {"zero", "potential", "0", "0", "2", "no", "min"},
    {"zero", "weight", "3", "0", "0", "yes", "no"},
    {"zero", "no", "0", "100", "0", "yes", "no"},
    {"full", "weight-reversed", "0", "0", "3", "yes", "max"},
    {"full", "potential", "2", "7", "4", "no", "no"},
};
constexpr int NC = sizeof confs / sizeof *confs;
#else
constexpr int NC = 6;
#endif

int sym_variants(int tier) { return NC * NS; }

void sym_main(int variant) {
    int c = variant % NC;
    World w;
    w.checkLemmas = false;
#ifdef COMPLETE
    w.conf("propagate", confs[c].mode);
    w.conf("sort-edges", confs[c].sort);
    w.conf("propagate-root", confs[c].root);
    w.conf("propagate-budget", confs[c].budget);
    w.conf("add-mutexes", confs[c].mutex);
    w.conf("compute-components", confs[c].cc);
    w.conf("dl-heuristic", confs[c].heu);
#else
    w.conf("propagate", modes[c]);
#endif
    w.reg();
    std::vector<lit> vars;
    build(w, shapes[variant / NC], vars);
    if (!w.host->callInit()) sym_fail("initialization failed");
    Solver &s = w.host->start();
    auto r = s.fixpoint();
    // the assignment to look at, decided in any order
    for (;;) {
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        if (r == mock::CONFLICT) {
            sym_reach("conflict");
            break;
        }
        auto l = choose(w, s);
        if (l == 0) break;
        s.decide(l);
        r = s.fixpoint();
#ifdef COMPLETE
        // no literal is forced wrongly: flipping it has to be inconsistent
        if (r == mock::OK) {
            for (lit x : s.trail) {
                bool dec = x == 1;
                for (lit d : s.decision) dec = dec || d == x;
                if (dec) continue;
                std::vector<int> act;
                for (size_t i = 0; i < w.cons.size(); ++i)
                    if (w.cons[i].l == -x || s.value(w.cons[i].l) > 0) act.push_back(i);
                sym_reach("forced");
                sym_assert(w.inconsistent(act), "a literal is forced although its complement is consistent");
            }
        }
#endif
    }
    auto act = w.active(s);
#ifdef COMPLETE
    if (r == mock::CONFLICT) sym_assert(w.inconsistent(act), "conflict although the constraints are consistent");
#else
    if (r == mock::OK) {
        sym_reach("model");
        sym_assert(!w.inconsistent(act), "inconsistent assignment accepted");
        w.checkValues(s);
    }
#endif
}
