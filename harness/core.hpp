// Programs over difference constraints u - v <= w with symbolic weights, an
// independent oracle, and a driver following the propagator protocol.
#ifndef CORE_HPP
#define CORE_HPP
#include "mock.hpp"

namespace core {

using mock::Host;
using mock::lit;
using mock::Solver;

constexpr int WB = 1 << 24;  // bound on the absolute value of weights
constexpr int OFF = 1 << 26; // see weightTerm()

// a constraint  u - v <= w  enforced if l is true (vertex 0 is the number 0)
struct Con {
    int u, v, w;
    lit l;
};

inline char const *varName(int v) {
    static char const *n[] = {"0", "x", "y", "z", "s", "t", "a", "b", "c", "d"};
    return n[v];
}

struct World : mock::Observer {
    Host *host = nullptr;
    clingodl_theory_t *th = nullptr;
    std::vector<Con> cons;
    int nv = 1; // number of vertices
    bool checkLemmas = true;
    bool checkReasonOnly = false;
    unsigned quietFrom[4] = {~0u, ~0u, ~0u, ~0u}; // level from which a thread only detects conflicts
    unsigned lemmas = 0;
    unsigned initClauses = 0;
    int unit = 0; // weights are multiples of 1/unit (0: integers)

    World() {
        host = new Host();
        host->obs = this;
        mock::host() = host;
        if (!clingodl_create(&th)) sym_fail("cannot create theory");
    }
    void conf(char const *key, char const *value) {
        if (!clingodl_configure(th, key, value)) sym_fail("valid option rejected");
    }
    void reg() {
        if (!clingodl_register(th, reinterpret_cast<clingo_control_t *>(host))) sym_fail("cannot register theory");
    }
    // the number w as a theory term; written as a sum of two numbers that are
    // not zero to keep the parser from distinguishing zero
    clingo_id_t weightTerm(int w) {
        auto a = host->theory.num(w - OFF);
        auto b = host->theory.num(OFF);
        if (unit > 0) {
            auto q = host->theory.num(unit);
            return host->theory.fun("+", {host->theory.fun("/", {a, q}), host->theory.fun("/", {b, q})});
        }
        return host->theory.fun("+", {a, b});
    }
    clingo_id_t vertexTerm(int v) { return v == 0 ? host->theory.num(0) : host->theory.id(varName(v)); }
    // add program atom  &diff { u - v } <= w  in the head with literal l
    void add(int u, int v, int w, lit l) {
        cons.push_back({u, v, w, l});
        if (u >= nv) nv = u + 1;
        if (v >= nv) nv = v + 1;
        auto t = host->theory.fun("-", {vertexTerm(u), vertexTerm(v)});
        host->theory.diff(false, t, "<=", weightTerm(w), l);
    }
    lit newLit() { return host->newVar(); }

    // ------------------------------------------------------------ oracle
    std::vector<int> path; // vertices on the current path
    bool neg = false;
    void cycles(std::vector<int> const &act, int start, int at, int sum, unsigned used) {
        for (int i : act) {
            auto &c = cons[i];
            if (c.u != at) continue;
            if (c.v == start) {
                neg = neg | (sum + c.w < 0);
                continue;
            }
            // each cycle is found from its smallest vertex
            if (c.v < start || (used >> c.v & 1)) continue;
            cycles(act, start, c.v, sum + c.w, used | 1u << c.v);
        }
    }
    // is there a negative cycle among the given constraints
    bool inconsistent(std::vector<int> const &act) {
        neg = false;
        for (int v = 0; v < nv; ++v) cycles(act, v, v, 0, 1u << v);
        return neg;
    }
    // is there a negative cycle with constraint i
    bool closes(std::vector<int> const &act, int i) {
        neg = false;
        if (cons[i].u == cons[i].v) return cons[i].w < 0;
        closing(act, i, cons[i].v, cons[i].w, 1u << cons[i].v);
        return neg;
    }
    void closing(std::vector<int> const &act, int e, int at, int sum, unsigned used) {
        for (int i : act) {
            auto &c = cons[i];
            if (c.u != at) continue;
            if (c.v == cons[e].u) {
                neg = neg | (sum + c.w < 0);
                continue;
            }
            if (used >> c.v & 1) continue;
            closing(act, e, c.v, sum + c.w, used | 1u << c.v);
        }
    }
    std::vector<int> active(Solver &s) {
        std::vector<int> r;
        for (size_t i = 0; i < cons.size(); ++i)
            if (s.value(cons[i].l) > 0) r.push_back(i);
        return r;
    }
    // constraints enforced by the negation of a clause and the facts
    std::vector<int> reason(Solver *s, lit const *c, size_t n) {
        std::vector<int> r;
        for (size_t i = 0; i < cons.size(); ++i) {
            bool in = cons[i].l == 1;
            for (size_t k = 0; k < n; ++k) in = in || c[k] == -cons[i].l;
            if (in) r.push_back(i);
        }
        return r;
    }
    // every clause has to be implied by the difference constraints: if all its
    // literals are false, then the enforced constraints are inconsistent
    void lemma(Solver &s, lit const *c, size_t n) override {
        ++lemmas;
        if (!checkLemmas) return;
        // it is conflicting or unit (or satisfied in advance)
        lit open = 0;
        for (size_t k = 0; k < n; ++k) {
            if (s.value(c[k]) < 0 || c[k] == open) continue;
            sym_assert(open == 0, "clause added during search is neither unit nor conflicting");
            open = c[k];
        }
        if (s.level() >= quietFrom[s.thread]) {
            sym_assert(open == 0, "a constraint is propagated although propagation is disabled");
            sym_reach("quiet");
        }
        for (size_t k = 0; k < n; ++k) {
            // a clause containing complementary literals is a tautology
            for (size_t j = 0; j < k; ++j)
                if (c[j] == -c[k]) return;
            if (c[k] == 1) return;
        }
        sym_assert(inconsistent(reason(&s, c, n)), "clause added during search is not implied by the difference constraints");
        sym_reach("lemma");
    }

    // clauses added while initializing (if only constraints given by add() exist)
    bool checkInit = false;
    int maxMutex = -1;
    std::vector<std::vector<lit>> init;
    void initClause(lit const *c, size_t n) override {
        ++initClauses;
        init.emplace_back(c, c + n);
        if (!checkInit) return;
        std::vector<lit> free;
        for (size_t k = 0; k < n; ++k) {
            bool dup = host->init.value(c[k]) != 0;
            for (lit l : free) dup = dup || l == c[k];
            for (lit l : free)
                if (l == -c[k]) return;
            if (c[k] == 1) return;
            if (!dup) free.push_back(c[k]);
        }
        if (maxMutex >= 0) sym_assert((int)free.size() <= maxMutex, "mutex exceeds the maximum size");
        sym_assert(inconsistent(reason(nullptr, c, n)), "clause added during initialization is not implied by the difference constraints");
        sym_reach("mutex");
    }

    // ------------------------------------------------------------ assignment
    bool lookup(int v, size_t &idx) {
        auto sym = v == 0 ? mock::num(0) : mock::fun(varName(v));
        return clingodl_lookup_symbol(th, sym, &idx);
    }
    bool hasValue(int v, unsigned thread = 0) {
        size_t idx = 0;
        return lookup(v, idx) && clingodl_assignment_has_value(th, thread, idx);
    }
    int value(int v, unsigned thread = 0) {
        size_t idx = 0;
        if (!lookup(v, idx)) sym_fail("symbol not found");
        if (!clingodl_assignment_has_value(th, thread, idx)) sym_fail("no value");
        clingodl_value_t x;
        clingodl_assignment_get_value(th, thread, idx, &x);
        if (unit > 0) {
            if (x.type != clingodl_value_type_double) sym_fail("value is not a double");
            double d = x.double_number * unit;
            int r = (int)d;
            sym_assert(r == d, "value is not a sum of constants");
            return r;
        }
        if (x.type != clingodl_value_type_int) sym_fail("value is not an integer");
        return x.int_number;
    }
    // the assignment satisfies all enforced constraints
    void checkValues(Solver &s) {
        auto act = active(s);
        std::vector<int> val(nv, 0);
        for (int i : act) {
            for (int v : {cons[i].u, cons[i].v}) {
                if (v == 0 || cons[i].u == cons[i].v) continue;
                if (!hasValue(v, s.thread)) sym_fail("variable of an enforced constraint has no value");
                val[v] = value(v, s.thread);
            }
            sym_assert(val[cons[i].u] - val[cons[i].v] <= cons[i].w, "assignment violates an enforced constraint");
        }
    }
};


// ------------------------------------------------------------ shapes
// A shape is a list of constraints "uv:lit" with vertices 0..9 (0 is the
// number zero) and literals T (fact), a..h, or A..H for their negation; the
// weight is symbolic unless given as "uv:lit=n".
inline int litIndex(char c) { return c >= 'a' && c <= 'h' ? c - 'a' + 1 : -(c - 'A' + 1); }

// build the constraints of a shape with symbolic weights
inline void build(World &w, char const *shape, std::vector<lit> &vars, int lo = -WB, int hi = WB) {
    for (char const *p = shape; *p;) {
        int u = p[0] - '0', v = p[1] - '0';
        char c = p[3];
        lit l = 1;
        if (c != 'T') {
            int k = litIndex(c);
            int a = k > 0 ? k : -k;
            while ((int)vars.size() < a) vars.push_back(w.newLit());
            l = k > 0 ? vars[a - 1] : -vars[a - 1];
        }
        p += 4;
        // (a weight can be fixed with "uv:l=n")
        int wt = 0;
        if (*p == '=') {
            char *e = nullptr;
            wt = (int)strtol(p + 1, &e, 10);
            p = e;
        } else {
            wt = sym_int("w", lo, hi);
        }
        w.add(u, v, wt, l);
        while (*p == ' ') ++p;
    }
}

// shortest-path style enumeration: all simple path sums from a to b
inline void paths(World &w, std::vector<int> const &act, int at, int to, int sum, unsigned used, std::vector<int> &out) {
    if (at == to) {
        out.push_back(sum);
        return;
    }
    for (int i : act) {
        auto &c = w.cons[i];
        if (c.u != at || (used >> c.v & 1)) continue;
        paths(w, act, c.v, to, sum + c.w, used | 1u << c.v, out);
    }
}

// is there a closed walk through vertex 0 with constraint i and negative weight
inline bool closesZero(World &w, std::vector<int> const &act, int i) {
    std::vector<int> p, q;
    paths(w, act, 0, w.cons[i].u, 0, 1u, p);
    paths(w, act, w.cons[i].v, 0, 0, 1u << w.cons[i].v, q);
    bool neg = false;
    for (int a : p)
        for (int b : q) neg = neg | (a + b + w.cons[i].w < 0);
    return neg;
}
// is there an enforced constraint in the opposite direction contradicting constraint i
inline bool closesInverse(World &w, std::vector<int> const &act, int i) {
    bool neg = false;
    for (int j : act)
        if (w.cons[j].u == w.cons[i].v && w.cons[j].v == w.cons[i].u) neg = neg | (w.cons[j].w + w.cons[i].w < 0);
    return neg;
}

// at a fixpoint no constraint of an undecided literal contradicts the enforced ones
enum Complete { CFull, CZero, CInverse };
inline void checkComplete(World &w, Solver &s, Complete what) {
    auto act = w.active(s);
    for (size_t i = 0; i < w.cons.size(); ++i) {
        if (s.value(w.cons[i].l) != 0) continue;
        switch (what) {
            case CFull: sym_assert(!w.closes(act, i), "a constraint contradicting the enforced constraints is undecided"); break;
            case CZero: sym_assert(!closesZero(w, act, i), "a constraint contradicting the enforced constraints through zero is undecided"); break;
            case CInverse: sym_assert(!closesInverse(w, act, i), "a constraint contradicting an enforced inverse constraint is undecided"); break;
        }
        sym_reach("undecided");
    }
}

// values observed through the interface
struct Snap {
    std::vector<int> has, val;
};
inline Snap snap(World &w, unsigned thread = 0) {
    Snap r;
    for (int v = 1; v < w.nv; ++v) {
        bool h = w.hasValue(v, thread);
        r.has.push_back(h);
        r.val.push_back(h ? w.value(v, thread) : 0);
    }
    return r;
}
inline void same(Snap const &a, Snap const &b, char const *msg) {
    for (size_t i = 0; i < a.has.size(); ++i) {
        sym_assert(a.has[i] == b.has[i], msg);
        if (a.has[i] && b.has[i]) sym_assert(a.val[i] == b.val[i], msg);
    }
}

// the least assignment: value(v) = D(v) - D(zero of v's component) where
// D(v) = max(0, longest path to v); the zero of a component is a copy of 0
// restricted to the constraints of the component
struct Canon {
    std::vector<int> comp; // component of each variable (0 is in none)
};
inline void components(World &w, bool split, std::vector<int> &comp) {
    comp.assign(w.nv, 0);
    if (!split) return;
    for (int v = 0; v < w.nv; ++v) comp[v] = v;
    for (int k = 0; k < w.nv; ++k)
        for (auto &c : w.cons)
            if (c.u != 0 && c.v != 0) {
                int m = comp[c.u] < comp[c.v] ? comp[c.u] : comp[c.v];
                comp[c.u] = comp[c.v] = m;
            }
}
// -D(v) candidates: sums of simple paths from any vertex to v (u - v <= w is an
// edge from u to v of weight w, the potential of v is at most that of u plus w)
inline void dists(World &w, std::vector<int> const &act, std::vector<int> const &comp, int v, int cc, std::vector<int> &out) {
    std::vector<int> in;
    for (int i : act) {
        auto &c = w.cons[i];
        int x = c.u != 0 ? c.u : c.v;
        if (comp[x] == cc) in.push_back(i);
    }
    for (int u = 0; u < w.nv; ++u) paths(w, in, u, v, 0, 1u << u, out);
}
inline void checkCanonical(World &w, Solver &s, bool split) {
    std::vector<int> comp;
    components(w, split, comp);
    auto act = w.active(s);
    for (int v = 1; v < w.nv; ++v) {
        if (!w.hasValue(v, s.thread)) continue;
        std::vector<int> dv, dz;
        dists(w, act, comp, v, comp[v], dv);
        dists(w, act, comp, 0, comp[v], dz);
        // potentials: pv = min dv, pz = min dz (both contain 0)
        auto mn = [](std::vector<int> const &x) {
            int m = x[0];
            for (size_t i = 1; i < x.size(); ++i)
                if (x[i] < m) m = x[i];
            return m;
        };
        sym_assert(w.value(v, s.thread) == mn(dz) - mn(dv), "value is not the canonical one");
        sym_reach("canonical");
    }
}

// an undecided literal and phase chosen freely; 0 if there is none
inline lit choose(World &w, Solver &s, bool positive = false) {
    std::vector<lit> free;
    for (int v = 2; v <= w.host->nvars; ++v)
        if (s.value(v) == 0) free.push_back(v);
    if (free.empty()) return 0;
    if (positive) return free[sym_choose("lit", free.size())];
    int k = sym_choose("lit", 2 * free.size());
    return k & 1 ? -free[k / 2] : free[k / 2];
}

inline std::string num(long long n) { return std::to_string(n); }

} // namespace core
#endif
