// Real-valued constraints whose weights are multiples of 1/4.
//  (default)  <= only: answers, lost answers, implied clauses, canonical values
//  -DSTRICT   all relations; epsilon is replaced by 2^-17 to compute exactly
#include "core.hpp"
#ifdef STRICT
#include <clingo-dl/theory.hh>
#endif
using namespace core;

static char const *modes[] = {"full", "zero", "no", "partial+", "inverse", "partial"};

#ifndef STRICT

static char const *shapes[] = {
    "12:a 23:b 31:c",
    "12:a 21:b 10:c 02:d",
    "12:a 23:A 31:b 21:c",
    "12:a 23:a 31:b 01:T",
    "12:a 03:b 34:c 40:d",
    // thorough
    "01:a 12:b 20:c 21:d",
    "12:a 23:b 34:c 41:d",
    "12:a 23:b 31:c 13:d",
    "10:a 02:b 23:c 31:d",
    "01:T 12:a 20:b 21:c 10:d",
    "12:a 23:b 31:c 13:d 32:e",
};
constexpr int NS = sizeof shapes / sizeof *shapes, QS = 5, QM = 4;
static char const *sorts[] = {"weight", "potential", "no", "weight-reversed", "potential-reversed", "weight"};

int sym_variants(int tier) { return tier ? NS * 6 : QS * QM; }

void sym_main(int variant) {
    int sh = 0, m = 0;
    if (variant < QS * QM) sh = variant / QM, m = variant % QM;
    else {
        // the remaining pairs
        int k = QS * QM;
        for (sh = 0; sh < NS; ++sh) {
            for (m = sh < QS ? QM : 0; m < 6 && k < variant; ++m) ++k;
            if (k == variant && m < 6) break;
        }
    }
    World w;
    w.unit = 4;
    w.conf("rdl", "yes");
    w.conf("propagate", modes[m]);
    w.conf("sort-edges", sorts[(m + sh) % 6]);
    w.conf("dl-heuristic", m & 1 ? "min" : "no");
    w.conf("add-mutexes", m == 3 ? "3" : "0");
    w.checkInit = true;
    w.reg();
    std::vector<lit> vars;
    build(w, shapes[sh], vars);
    if (!w.host->callInit()) sym_fail("initialization failed");
    Solver &s = w.host->start();
    for (;;) {
        auto r = s.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        auto act = w.active(s);
        if (r == mock::CONFLICT) {
            sym_assert(w.inconsistent(act), "conflict although the constraints are consistent");
            sym_reach("conflict");
            return;
        }
        sym_assert(!w.inconsistent(act), "inconsistent assignment accepted");
        w.checkValues(s);
        checkCanonical(w, s, true);
        if (m < 2 || m > 2) checkComplete(w, s, m == 0 ? CFull : m == 1 ? CZero : CInverse);
        auto l = choose(w, s);
        if (l == 0) break;
        s.decide(l);
    }
    sym_reach("model");
}

#else

// units of 1/2^17; constants are multiples of 1/4
constexpr int U = 1 << 17, Q = U / 4, SB = 1 << 10;
namespace ClingoDL {
template <> int epsilon<int>() { return 1; }
template <> double epsilon<double>() { return 1.0 / U; }
} // namespace ClingoDL

struct Rel {
    int u, v;
    char const *rel;
    int str; // constant is written as a string
};
struct Prog {
    std::vector<Rel> rels;
    char const *name;
};
static Rel R(int u, int v, char const *rel, int str = 0) { return {u, v, rel, str}; }
static std::vector<std::vector<Rel>> &progs() {
    static auto *p = new std::vector<std::vector<Rel>>{
        {R(1, 2, "<"), R(2, 1, "<=")},
        {R(1, 2, "<"), R(2, 3, "<"), R(3, 1, "<=")},
        {R(1, 2, ">"), R(1, 0, "<"), R(2, 0, ">=")},
        {R(1, 2, "="), R(2, 0, "<"), R(1, 0, ">")},
        {R(1, 2, "!="), R(1, 2, "<="), R(1, 2, ">=")},
        {R(1, 2, "!="), R(1, 0, "="), R(2, 0, "<=")},
        {R(1, 0, "!="), R(1, 0, ">="), R(1, 0, "<")},
        {R(1, 2, "=", 1), R(2, 1, "<")},
        {R(1, 0, ">=", 2), R(1, 0, "<", 1)},
        {R(1, 2, "<=", 2), R(2, 1, "<=", 3)},
        {R(1, 2, "!=", 3), R(1, 2, "=")},
        {R(1, 2, "="), R(2, 3, "="), R(3, 1, "!=")},
        {R(1, 2, ">"), R(2, 3, "="), R(3, 1, ">="), R(3, 1, "<")},
    };
    return *p;
}

int sym_variants(int) { return progs().size() * 3; }

// a quoted number with chosen digits
static clingo_id_t quoted(World &w, int kind, int &quarters) {
    static char const *frac[] = {"", ".0", ".25", ".5", ".75", ".500", ".2500"};
    static int const val[] = {0, 0, 1, 2, 3, 2, 1};
    std::string s = "\"";
    if (kind == 2) s += "-";
    int d = sym_int("digit", 0, 9);
    s += (char)('0' + d);
    if (kind == 3) s += '2';
    int f = sym_choose("fraction", 7);
    s += frac[f];
    s += "\"";
    quarters = (kind == 3 ? 10 * d + 2 : d) * 4 + val[f];
    if (kind == 2) quarters = -quarters;
    return w.host->theory.id(s.c_str());
}

void sym_main(int variant) {
    auto &prog = progs()[variant / 3];
    World w;
    w.unit = U;
    w.conf("rdl", "yes");
    w.conf("propagate", modes[variant % 3]);
    w.checkLemmas = false;
    w.reg();
    struct C {
        int u, v, c; // in units
        std::string rel;
        lit l;
    };
    std::vector<C> cs;
    for (auto &r : prog) {
        lit l = w.newLit();
        int q = 0;
        clingo_id_t rhs;
        if (r.str) rhs = quoted(w, r.str, q);
        else {
            q = sym_int("w", -SB, SB);
            rhs = w.host->theory.fun("+", {w.host->theory.fun("/", {w.host->theory.num(q - SB * 2), w.host->theory.num(4)}), w.host->theory.num(SB / 2)});
        }
        cs.push_back({r.u, r.v, q * Q, r.rel, l});
        auto t = w.host->theory.fun("-", {w.vertexTerm(r.u), w.vertexTerm(r.v)});
        w.host->theory.diff(false, t, r.rel, rhs, l);
        if (r.u >= w.nv) w.nv = r.u + 1;
        if (r.v >= w.nv) w.nv = r.v + 1;
    }
    int nvars = w.host->nvars;
    if (!w.host->callInit()) sym_fail("initialization failed");
    Solver &s = w.host->start();
    // consistency of the true constraints where != is one of two inequalities;
    // a strict relation differs by one unit, which is less than a quarter
    // divided by the number of constraints
    auto inconsistent = [&]() {
        std::vector<int> ne;
        for (size_t i = 0; i < cs.size(); ++i)
            if (cs[i].rel == "!=" && s.value(cs[i].l) > 0) ne.push_back(i);
        bool all = true;
        for (int side = 0; side < (1 << ne.size()); ++side) {
            w.cons.clear();
            auto le = [&](C const &c, int k) { w.cons.push_back({c.u, c.v, c.c + k, c.l}); };
            auto ge = [&](C const &c, int k) { w.cons.push_back({c.v, c.u, -c.c + k, c.l}); };
            int n = 0;
            for (auto &c : cs) {
                if (s.value(c.l) <= 0) continue;
                if (c.rel == "<=" || c.rel == "=") le(c, 0);
                if (c.rel == ">=" || c.rel == "=") ge(c, 0);
                if (c.rel == "<") le(c, -1);
                if (c.rel == ">") ge(c, -1);
                if (c.rel == "!=") {
                    if (side >> n++ & 1) le(c, -1);
                    else ge(c, -1);
                }
            }
            std::vector<int> act;
            for (size_t i = 0; i < w.cons.size(); ++i) act.push_back(i);
            bool x = w.inconsistent(act);
            all = all & x;
        }
        return all;
    };
    for (;;) {
        auto r = s.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        bool aux = false;
        for (lit d : s.decision) aux = aux || d > nvars || -d > nvars;
        if (r == mock::CONFLICT) {
            if (aux) return; // the other side of a disequality is not tried
            sym_assert(inconsistent(), "conflict although the constraints are consistent");
            sym_reach("conflict");
            return;
        }
        // literals of the program first
        lit l = 0;
        for (int v = 2; v <= w.host->nvars && l == 0; ++v)
            if (s.value(v) == 0) l = sym_choose("sign", 2) ? -v : v;
        if (l == 0) break;
        s.decide(l);
    }
    sym_assert(!inconsistent(), "inconsistent assignment accepted");
    for (auto &c : cs) {
        if (s.value(c.l) <= 0) continue;
        int a = c.u ? w.value(c.u) : 0, b = c.v ? w.value(c.v) : 0;
        bool ok = c.rel == "<=" ? a - b <= c.c : c.rel == ">=" ? a - b >= c.c : c.rel == "<" ? a - b < c.c : c.rel == ">" ? a - b > c.c : c.rel == "=" ? a - b == c.c : a - b != c.c;
        sym_assert(ok, "assignment violates an enforced constraint");
        sym_reach(c.rel == "!=" ? "different" : "satisfied");
    }
    sym_reach("model");
}
#endif
