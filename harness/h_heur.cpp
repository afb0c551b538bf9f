// The decision heuristic.
#include "core.hpp"
using namespace core;
static char const *shapes[] = {
    "12:a 21:b 23:c",
    "12:T 23:a 31:B",
    "01:T 12:a 20:b",
    "12:A 03:b 31:c",
    "12:a 12:a 21:b 31:B",
    "10:a 02:B 23:T 31:d",
};
constexpr int NS = sizeof shapes / sizeof *shapes;
struct Conf {
    char const *heur, *mode, *other; // other: heuristic of a theory registered before (or null)
    char const *cc;
};
static Conf const confs[] = {
    {"min", "no", nullptr, "yes"}, {"max", "no", nullptr, "yes"}, {"no", "zero", nullptr, "no"}, {nullptr, "no", nullptr, "yes"},
    {"min", "full", nullptr, "no"}, {"max", "partial+", nullptr, "no"},
    {"min", "no", "no", "yes"}, {"max", "zero", "min", "yes"}, {"no", "no", "max", "yes"}, {"MIN", "inverse", nullptr, "yes"},
};
constexpr int NC = sizeof confs / sizeof *confs;
int sym_variants(int tier) { return tier ? NS * NC : NS * NC / 2; }

static lit decision(World &w, Solver &s, lit f) {
    auto &p = w.host->prop;
    if (p.decide == nullptr) return f;
    lit d = 0;
    if (!p.decide(s.thread, reinterpret_cast<clingo_assignment_t const *>(&s), f, w.host->propData, &d)) sym_fail("the heuristic reported an error");
    return d;
}

static void checkDecisions(World &w, Solver &s, char const *heur, lit v) {
    Snap before = snap(w);
    {
        for (lit f : {v, -v}) {
            lit d = decision(w, s, f);
            sym_assert(d == f || d == -f, "the heuristic chooses another literal");
            if (heur == nullptr || *heur == 'n') {
                sym_assert(d == f, "a sign is changed although no heuristic is configured");
                sym_reach("unchanged");
                continue;
            }
            // the only constraint of the literal
            int e = -1, n = 0;
            for (size_t i = 0; i < w.cons.size(); ++i)
                if (w.cons[i].l == v || w.cons[i].l == -v) {
                    e = i;
                    ++n;
                }
            if (n == 0) sym_assert(d == f, "the sign of a literal without constraints is changed");
            if (n != 1) continue;
            auto &c = w.cons[e];
            if (c.u == c.v) continue;
            if ((c.u != 0 && !w.hasValue(c.u)) || (c.v != 0 && !w.hasValue(c.v))) continue;
            int a = c.u != 0 ? w.value(c.u) : 0, b = c.v != 0 ? w.value(c.v) : 0;
            bool min = *heur == 'm' ? heur[1] == 'i' : true;
            if (a - b <= c.w) sym_assert(d == (min ? c.l : -c.l), "wrong sign for a constraint satisfied by the current values");
            else sym_assert(d == (min ? -c.l : c.l), "wrong sign for a constraint violated by the current values");
            sym_reach("preferred");
        }
    }
    same(before, snap(w), "the heuristic changes values");
}

void sym_main(int variant) {
    // (the quick tier explores every other combination)
    variant = variant < NS * NC / 2 ? 2 * variant + (2 * variant / NC) % 2 : 2 * (variant - NS * NC / 2) + 1 - (2 * (variant - NS * NC / 2) / NC) % 2;
    auto &c = confs[variant % NC];
    if (c.other != nullptr) {
        World other;
        other.conf("dl-heuristic", c.other);
        other.reg();
        std::vector<lit> vars;
        build(other, "12:a 21:b", vars);
        if (!other.host->callInit()) sym_fail("initialization failed");
    }
    World w;
    w.conf("propagate", c.mode);
    w.conf("compute-components", c.cc);
    if (c.heur != nullptr) w.conf("dl-heuristic", c.heur);
    w.reg();
    std::vector<lit> vars;
    build(w, shapes[variant / NC], vars);
    w.newLit();
    if (!w.host->callInit()) sym_fail("initialization failed");
    Solver &s = w.host->start();
    for (;;) {
        auto r = s.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        if (r == mock::CONFLICT) {
            sym_reach("conflict");
            return;
        }
        auto l = choose(w, s, true);
        if (l == 0) break;
        // inspect this literal or decide one
        int next = sym_choose("next", 3);
        if (next == 0) {
            checkDecisions(w, s, c.heur, l);
            return;
        }
        s.decide(next == 1 ? l : -l);
    }
    sym_assert(!w.inconsistent(w.active(s)), "inconsistent assignment accepted");
    w.checkValues(s);
    sym_reach("model");
}
