// Settings take effect for exactly the threads and levels they name.
#include "core.hpp"
using namespace core;
static char const *const shapes[] = {"12:a 23:b 31:c", "12:a 21:b 10:c 02:d", "12:T 20:a 01:b 21:c", "12:a 23:A 31:b 21:c", "10:a 02:b 23:c 31:d"};
constexpr int NS = sizeof shapes / sizeof *shapes;
// what the settings mean for the threads: the mode and the level below which full propagation is guaranteed
struct Conf {
    char const *settings[5]; // key=value
    char mode[2];
    unsigned root[2];
    bool budget[2]; // with a (sufficient) budget
};
constexpr unsigned ALL = ~0u;
static Conf const confs[] = {
    {{"propagate=full,1"}, {'n', 'f'}, {0, 0}},
    {{"propagate=full", "propagate=no,0"}, {'n', 'f'}, {0, 0}},
    {{"propagate=no,1", "propagate=full"}, {'f', 'n'}, {0, 0}},
    {{"propagate=zero,0", "propagate=inverse,1"}, {'z', 'i'}, {0, 0}},
    {{"propagate=partial", "propagate=partial+,1", "propagate-root=2,1"}, {'i', 'i'}, {0, 2}},
    {{"propagate-root=4294967296"}, {'n', 'n'}, {ALL, ALL}},
    {{"propagate-root=4294967297,1", "propagate-root=2,0"}, {'n', 'n'}, {2, ALL}},
    {{"propagate-root=18446744073709551615,0", "propagate-root=1"}, {'n', 'n'}, {ALL, 1}},
    {{"propagate-budget=1000,1"}, {'n', 'n'}, {0, ALL}, {false, true}},
    {{"propagate-budget=18446744073709551615", "propagate-budget=0,1"}, {'n', 'n'}, {ALL, 0}, {true, false}},
    {{"propagate=zero", "propagate-root=2,1"}, {'z', 'z'}, {0, 2}},
    {{"propagate=zero", "propagate=full,63"}, {'z', 'z'}, {0, 0}},
};
constexpr int NC = sizeof confs / sizeof *confs;
static char const *const sorts[] = {"weight", "potential-reversed"};
int sym_variants(int tier) { return NS * NC * (tier ? 2 : 1); }

void sym_main(int variant) {
    auto &c = confs[variant % NC];
    World w;
    for (auto *x : c.settings) {
        if (!x) break;
        std::string k = x;
        auto i = k.find('=');
        w.conf(k.substr(0, i).c_str(), k.c_str() + i + 1);
    }
    w.conf("sort-edges", sorts[variant / NC / NS]);
    w.host->threads = 2;
    w.reg();
    std::vector<lit> vars;
    build(w, shapes[variant / NC % NS], vars);
    if (!w.host->callInit()) sym_fail("initialization failed");
    if (w.host->topConflict) return;
    for (int t = 0; t < 2; ++t) {
        w.host->start(t);
        if (c.mode[t] == 'n') w.quietFrom[t] = c.root[t];
    }
    // the threads are run one after the other
    int first = sym_choose("thread", 2);
    auto &s = *w.host->solvers[first];
    int t = first;
    for (;;) {
        auto r = s.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        if (r == mock::CONFLICT) return;
        if (c.mode[t] == 'f' || s.level() < c.root[t]) {
            checkComplete(w, s, CFull);
            sym_reach("full");
        }
        if (c.mode[t] == 'z') checkComplete(w, s, CZero);
        if (c.mode[t] != 'n') checkComplete(w, s, CInverse);
        auto l = choose(w, s, true);
        if (l == 0) break;
        s.decide(l);
    }
    w.checkValues(s);
    sym_assert(!w.inconsistent(w.active(s)), "inconsistent assignment accepted");
    sym_reach("model");
}
