// Clauses added while initializing with mutexes enabled.
#include "core.hpp"
#include <algorithm>
using namespace core;

struct Conf {
    int size;
    char const *opt;
    char const *mode;
};
static Conf const confs[] = {{0, "0", "no"}, {1, "1", "no"}, {2, "2", "no"}, {3, "3", "full"}, {4, "4,100", "no"}, {3, "3,2", "no"}, {5, "5,0", "no"}, {2, "2,4", "zero"}};
constexpr int NC = sizeof confs / sizeof *confs;

struct Shape {
    char const *step1, *step2;
    int tier;
};
static Shape const shapes[] = {
    {"12:a 21:b 23:c 32:d", "", 0},
    {"12:a 23:b 31:c", "21:d", 0},
    {"12:a 23:T 31:b 13:c", "", 0},
    {"12:a 21:A 23:b 31:b", "", 0},
    {"10:a 02:b 21:c 12:T", "01:d", 0},
    {"12:a 23:a 31:b 32:B", "13:c", 0},
    {"12:a 10:b 03:c 34:d", "43:e", 0},
    {"12:T 21:a 12:b 21:b", "", 0},
    {"12:a 23:b 31:c 21:d 32:e", "", 0},
    {"12:a 23:b 31:c 21:d 32:e 13:f", "", 0},
    {"10:a 02:b 21:c 12:d 01:e", "20:f", 0},
    {"12:a 23:b 34:c 41:d 31:e 21:f", "", 0},
    {"12:a 12:b 21:c 21:d", "23:a 32:e", 0},
    {"12:a 23:B 31:c 21:A 32:b", "", 0},
    {"12:a 23:b 31:a 13:b 21:c", "32:d", 0},
    {"12:T 23:b 31:T 13:d 21:T 32:f", "", 0},
    {"12:a 23:b 31:c 21:d 32:e 13:f", "34:g 43:h", 1},
    {"12:a 23:b 34:c 41:d 13:e", "31:f", 1},
};
constexpr int NS = sizeof shapes / sizeof *shapes;
int sym_variants(int tier) {
    int n = 0;
    for (auto &s : shapes) n += s.tier <= (tier > 0);
    return NC * n;
}

// a clause over (a subset of) the given literals has been added
static bool excluded(World &w, std::vector<lit> const &ls) {
    for (auto &cl : w.init) {
        bool sub = true;
        for (lit l : cl) sub = sub && (std::find(ls.begin(), ls.end(), -l) != ls.end() || w.host->init.value(l) < 0);
        if (sub) return true;
    }
    return false;
}
// with sufficient limits, cycles of contradicting constraints are excluded
static void pairs(World &w, size_t from, Conf const &c) {
    if (c.size < 2 || std::string(c.opt) == "3,2" || std::string(c.opt) == "2,4" || std::string(c.opt) == "5,0") return;
    auto free = [&](Con const &x) { return w.host->init.value(x.l) == 0; };
    size_t n = w.cons.size();
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            auto &x = w.cons[i], &y = w.cons[j];
            if (i == j || x.v != y.u || !free(x) || !free(y) || x.l == -y.l) continue;
            if (y.v == x.u && i < j && j >= from) {
                if (!excluded(w, {x.l, y.l})) {
                    sym_assert(x.w + y.w >= 0, "contradicting constraints are not mutually exclusive");
                    sym_reach("compatible");
                }
                continue;
            }
            if (c.size < 3) continue;
            for (size_t k = 0; k < n; ++k) {
                auto &z = w.cons[k];
                if (k == i || k == j || i > j || i > k || std::max(j, k) < from || y.v != z.u || z.v != x.u || !free(z)) continue;
                if (x.l == -z.l || y.l == -z.l || x.l == y.l || x.l == z.l || y.l == z.l) continue;
                if (!excluded(w, {x.l, y.l, z.l})) {
                    sym_assert(x.w + y.w + z.w >= 0, "contradicting constraints are not mutually exclusive");
                    sym_reach("compatible");
                }
            }
        }
}

void sym_main(int variant) {
    auto &c = confs[variant % NC];
    auto &sh = shapes[variant / NC];
    World w;
    w.checkInit = true;
    w.maxMutex = c.size;
    w.conf("propagate", c.mode);
    w.conf("add-mutexes", c.opt);
    w.reg();
    std::vector<lit> vars;
    build(w, sh.step1, vars);
    if (!w.host->callInit()) sym_fail("initialization failed");
    if (w.host->topConflict) {
        std::vector<int> facts;
        for (size_t i = 0; i < w.cons.size(); ++i)
            if (w.host->init.value(w.cons[i].l) > 0) facts.push_back(i);
        sym_reach("top-level conflict");
        return;
    }
    if (c.size == 0 || std::string(c.opt) == "5,0") sym_assert(w.initClauses == 0, "mutexes added although disabled");
    pairs(w, 0, c);
    size_t first = w.cons.size();
    if (*sh.step2) {
        w.host->start();
        auto &s = *w.host->solvers[0];
        auto r = s.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        if (r == mock::CONFLICT) return;
        w.host->nextStep();
        w.host->theory.atoms.clear();
        build(w, sh.step2, vars);
        if (!w.host->callInit()) sym_fail("initialization failed");
        if (w.host->topConflict) return;
        pairs(w, first, c);
        sym_reach("second step");
    }
}
