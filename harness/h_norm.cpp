// Meaning of difference constraints, from theory atoms to answers.
//  -DNORM  all relations, strict and non-strict, one or two atoms over the same difference
//  -DEXPR  linear expressions
// The variables are fixed to arbitrary values by facts; an atom may be true
// exactly if the relation holds, and in case of strict semantics it may be
// false exactly if the relation does not hold.
#include "core.hpp"
#include <climits>
using namespace core;
using i64 = long long;

static char const *rels[] = {"<=", "<", ">=", ">", "=", "!="};

struct Poly {
    i64 k[3] = {0, 0, 0}; // coefficients of x, y, and z
    i64 c = 0;
    bool bad = false;
    bool constant() const { return k[0] == 0 && k[1] == 0 && k[2] == 0; }
};

// Terms in prefix notation: x y z variables, c d symbolic constants, digits,
// (op a), (op a b), and quoted numbers.
struct Terms {
    World &w;
    int c = 0, d = 0;
    char const *p = nullptr;
    Terms(World &w) : w(w) {}
    clingo_id_t parse(char const *s, Poly &r) {
        p = s;
        return term(r);
    }
    clingo_id_t term(Poly &r) {
        auto &th = w.host->theory;
        while (*p == ' ') ++p;
        if (*p == '(') {
            std::string op(1, p[1]);
            p += 2;
            Poly a, b;
            auto x = term(a);
            while (*p == ' ') ++p;
            if (*p == ')') {
                ++p;
                for (int i = 0; i < 3; ++i) r.k[i] = op == "-" ? -a.k[i] : a.k[i];
                r.c = op == "-" ? -a.c : a.c;
                r.bad = a.bad;
                return th.fun(op.c_str(), {x});
            }
            auto y = term(b);
            while (*p == ' ') ++p;
            ++p;
            r.bad = a.bad | b.bad;
            if (op == "+" || op == "-") {
                int s = op == "+" ? 1 : -1;
                for (int i = 0; i < 3; ++i) r.k[i] = s > 0 ? a.k[i] + b.k[i] : a.k[i] - b.k[i];
                r.c = s > 0 ? a.c + b.c : a.c - b.c;
            } else if (op == "*") {
                bool ca = isConst(a), cb = isConst(b);
                if (!ca && !cb) r.bad = true;
                Poly &v = ca ? b : a, &k = ca ? a : b;
                for (int i = 0; i < 3; ++i) r.k[i] = prod(v.k[i], k.c);
                r.c = prod(v.c, k.c);
            } else if (op == "/") {
                r.bad = r.bad || !isConst(a) || !isConst(b);
                if (b.c == 0) r.bad = true;
                else r.c = a.c / b.c;
            }
            return th.fun(op.c_str(), {x, y});
        }
        if (*p >= '0' && *p <= '9') {
            int n = 0;
            for (; *p >= '0' && *p <= '9'; ++p) n = 10 * n + (*p - '0');
            r.c = n;
            return th.num(n);
        }
        if (*p == '"') {
            char const *b = p++;
            bool neg = *p == '-';
            if (neg) ++p;
            int n = 0;
            for (; *p >= '0' && *p <= '9'; ++p) n = 10 * n + (*p - '0');
            if (*p == '.')
                for (++p; *p == '0'; ++p) {}
            ++p;
            r.c = neg ? -n : n;
            return th.id(std::string(b, p).c_str());
        }
        char v = *p++;
        if (v == 'c' || v == 'd') {
            r.c = v == 'c' ? c : d;
            return th.num(v == 'c' ? c : d);
        }
        r.k[v - 'x'] = 1;
        return th.id(std::string(1, v).c_str());
    }
    // syntactically without variables
    bool isConst(Poly const &a) {
        for (int i = 0; i < 3; ++i)
            if (sym_is_symbolic((int)a.k[i]) || a.k[i] != 0) return false;
        return true;
    }
    static i64 prod(i64 a, i64 b) { return a == 0 || b == 0 ? 0 : a == 1 ? b : b == 1 ? a : a * b; }
};

static bool holds(int rel, i64 d) {
    switch (rel) {
        case 0: return d <= 0;
        case 1: return d < 0;
        case 2: return d >= 0;
        case 3: return d > 0;
        case 4: return d == 0;
        default: return d != 0;
    }
}

// number of assignments accepted (at most two)
static int count(World &w, Solver &s) {
    int n = 0;
    for (;;) {
        auto r = s.fixpoint();
        if (r == mock::FAILED) sym_fail("propagator reported an error");
        bool stop = r == mock::CONFLICT;
        if (!stop) {
            lit l = 0;
            for (int v = 2; v <= w.host->nvars && l == 0; ++v)
                if (s.value(v) == 0) l = v;
            if (l != 0) {
                s.decide(l);
                continue;
            }
            ++n;
            if (n == 2 || s.level() == 0) return n;
        }
        if (!s.resolve()) return n;
    }
}

static lit literal(World &w, std::vector<lit> &vars, char c) {
    if (c == 'T') return 1;
    if (c == 'F') return -1;
    int k = litIndex(c), a = k > 0 ? k : -k;
    while ((int)vars.size() < a) vars.push_back(w.newLit());
    return k > 0 ? vars[a - 1] : -vars[a - 1];
}

struct Case {
    char const *lhs, *rhs;
};
#ifdef LIMIT
#define NORM
static Case const cases[] = {{"(- x y)", "c"}, {"x", "c"}, {"c", "d"}, {"(- y x)", "(- c d)"}, {"(- (- x c) y)", "d"}, {"(+ x d)", "c"}, {"(- x y)", "(* c d)"}, {"(- x y)", "(/ c d)"}, {"(- x (* c d))", "y"}, {"(* c (- 1 d))", "(- x y)"}};
struct Mix {
    char const *lits;
    int rel2, tag2;
};
static Mix const mixes[] = {{"a", 0, 0}};
constexpr int NM = 1;
constexpr int CB = 0;
#elif defined(NORM)
static Case const cases[] = {{"(- x y)", "c"}, {"x", "c"}, {"(- 0 x)", "c"}, {"c", "d"}, {"c", "(- x y)"}, {"(- y x)", "c"}};
struct Mix {
    char const *lits; // one or two literals
    int rel2, tag2;   // second atom
};
static Mix const mixes[] = {{"a", 0, 0}, {"A", 0, 0}, {"T", 0, 0}, {"F", 0, 0}, {"ab", 4, 1}, {"aa", 5, 0}, {"aA", 4, 0}, {"aa", 5, 1}, {"Aa", 2, 1}, {"ab", 1, 0}};
constexpr int NM = sizeof mixes / sizeof *mixes;
constexpr int CB = 1 << 24;
#else
static Case const cases[] = {
    {"(- x (- y c))", "d"},
    {"(+ (- x y) c)", "(* 2 d)"},
    {"(- (+ x y) (+ y c))", "(- z d)"},
    {"(* 2 (- x (+ z c)))", "(+ (- x z) d)"},
    {"(- (* 3 x) (* x 2))", "(+ z c)"},
    {"(- (- x))", "(- (- y c))"},
    {"(* c (- 2 1))", "(- (+ d x) x)"},
    {"(* (- x y) 1)", "(* (- 1) (- c))"},
    {"(+ x y)", "c"},
    {"(- (* 2 x) y)", "c"},
    {"(- (+ x y) z)", "c"},
    {"(* x y)", "c"},
    {"(* 2 x)", "(* 2 c)"},
    {"(- (* 0 x) y)", "c"},
    {"(- (* 2 (- x (+ z y))) (* 6 z))", "(+ (- (* 2 (- (* (- 4) z) y)) x) d)"},
    {"(- x y)", "(* c 3)"},
    {"(- x y)", "(- 3 (- 0 (- c d)))"},
    {"(- x y)", "(+ c (/ 7 2))"},
    {"(- x (/ 6 3))", "(- y (/ (- 9) 2))"},
    {"(/ x 2)", "c"},
    {"(- x y)", "(/ 7 0)"},
    {"(- x (+ y (* (/ 8 3) c)))", "d"},
    {"(- (+ x y) (+ x y))", "(- c d)"},
    {"(- (- x y) (+ c \"3\"))", "\"-2.0\""},
    {"x", "y"},
    {"(- y)", "(- c x)"},
    {"(- x y)", "(- x y)"},
    {"(- x 0)", "(- y 0)"},
    {"(- 0 x)", "(* c 0)"},
};
constexpr int CB = 1 << 20;
#endif
constexpr int NCASE = sizeof cases / sizeof *cases;

#ifdef NORM
int sym_variants(int tier) { return NCASE * 6 * 2 * NM; }
#else
int sym_variants(int tier) { return NCASE * 6 * 2 + 8 * 4; }
#endif

struct A {
    int rel, tag;
    lit l;
    Poly diff;
};

void sym_main(int variant) {
#ifdef NORM
    auto &cs = cases[variant % NCASE];
    variant /= NCASE;
    int rel = variant % 6;
    variant /= 6;
    int tag = variant % 2;
    auto &mix = mixes[variant / 2];
    char const *lits = mix.lits;
#else
    int rel, tag;
    Case cs;
    char const *lits = "a";
    bool coef = variant >= NCASE * 12;
    if (coef) {
        // a symbolic coefficient
        variant -= NCASE * 12;
        static Case const coefs[] = {{"(- (* c x) y)", "d"}, {"(- x (* y c))", "d"}, {"(* c x)", "d"}, {"(- (+ (* c x) y) x)", "d"},
            {"(- y (* c x))", "d"}, {"(- (* c y) x)", "d"}, {"(+ (* c x) (* d y))", "3"}, {"(* c y)", "(+ (* d x) 7)"}};
        cs = coefs[variant % 8];
        rel = variant / 16 * 2, tag = variant / 8 % 2;
    } else {
        cs = cases[variant % NCASE];
        variant /= NCASE;
        rel = variant % 6;
        tag = variant / 6;
    }
#endif
    World w;
    w.checkLemmas = false;
    w.reg();
    std::vector<lit> vars;
    Terms t(w);
    int val[3];
#ifdef LIMIT
    // the variables are zero and the constant is any number
    val[0] = val[1] = val[2] = 0;
    t.c = sym_int("c", INT_MIN, INT_MAX);
    if (std::strchr(cs.lhs, '*') || std::strchr(cs.rhs, '*') || std::strchr(cs.rhs, '/')) {
        static int const ds[] = {-3, -1, 0, 1, 2, 46341, INT_MIN, -65536, -2, 5, INT_MAX};
        t.d = ds[sym_choose("d", rel == 0 && tag == 0 ? 11 : 6)];
    } else
        t.d = sym_int("d", INT_MIN, INT_MAX);
#else
    val[0] = sym_int("x", -CB, CB);
    val[1] = sym_int("y", -CB, CB);
    val[2] = sym_int("z", -CB, CB);
    t.c = sym_int("c", -CB, CB);
    t.d = sym_int("d", -CB, CB);
#endif
    // the atoms
    std::vector<A> atoms;
    for (int i = 0; lits[i]; ++i) {
        Poly l, r;
        auto a = t.parse(cs.lhs, l), b = t.parse(cs.rhs, r);
        A x;
        x.rel = rel;
        x.tag = tag;
#ifdef NORM
        if (i == 1) x.rel = mix.rel2, x.tag = mix.tag2;
#endif
        x.l = literal(w, vars, lits[i]);
        for (int k = 0; k < 3; ++k) x.diff.k[k] = l.k[k] - r.k[k];
        x.diff.c = l.c - r.c;
        x.diff.bad = l.bad || r.bad;
        w.host->theory.diff(x.tag == 1, a, rels[x.rel], b, x.l);
        atoms.push_back(x);
    }
    // is the first atom a difference constraint?
    bool bad = atoms[0].diff.bad;
    int pos = 0, neg = 0, more = 0;
    bool uses[3];
    for (int k = 0; k < 3; ++k) {
        i64 co = atoms[0].diff.k[k];
        uses[k] = co != 0;
        pos += co == 1;
        neg += co == -1;
        more += co != 0 && co != 1 && co != -1;
    }
    bad = bad || more > 0 || pos > 1 || neg > 1;
    // fix the variables
    for (int k = 0; k < 3; ++k)
        if (uses[k] && !bad) {
            w.add(k + 1, 0, val[k], 1);
            w.add(0, k + 1, -val[k], 1);
        }
    if (!w.host->callInit()) {
        sym_reach("rejected");
#ifdef LIMIT
        if (!bad) {
            bool arith = std::strchr(cs.lhs, '*') || std::strchr(cs.rhs, '*') || std::strchr(cs.rhs, '/');
            int const lim = arith ? 46000 : 1 << 30;
            bool small = (t.c >= -lim) & (t.c <= lim) & (t.d >= -lim) & (t.d <= lim) & (atoms[0].diff.c >= -INT_MAX + 2) & (atoms[0].diff.c <= INT_MAX - 2);
            sym_assert(!small, "constant that fits is refused");
        }
        return;
#endif
        if (!bad) sym_fail("difference constraint rejected");
        return;
    }
#ifdef LIMIT
    {
        i64 k = atoms[0].diff.c;
        if (!bad && !atoms[0].diff.constant()) {
            if ((-k > INT_MAX) | (-k < INT_MIN)) sym_fail("overflow passes silently");
            // larger sums of weights overflow later on
            if ((k > 1 << 30) | (k < -(1 << 30))) return;
        }
    }
#endif
    if (bad) sym_fail("constraint that is not a difference constraint accepted");
    // choose truth values
    for (lit v : vars) w.host->clauses.push_back({sym_choose("phase", 2) ? v : -v});
    bool expect = true;
    std::vector<int> truth;
    for (auto &x : atoms) {
        bool tv = x.l == 1 || (x.l != -1 && w.host->clauses[w.host->clauses.size() - vars.size() + (x.l > 0 ? x.l : -x.l) - vars[0]][0] == x.l);
        i64 d = x.diff.c;
        for (int k = 0; k < 3; ++k) d += x.diff.k[k] == 1 ? (i64)val[k] : x.diff.k[k] == -1 ? -(i64)val[k] : 0;
        if (tv) expect = expect & holds(x.rel, d);
        else if (x.tag) expect = expect & !holds(x.rel, d);
    }
    int n = 0;
    if (!w.host->topConflict) n = count(w, w.host->start());
    sym_assert(n <= 1, "an answer is duplicated");
    if (n) {
        sym_reach("accepted");
        sym_assert(expect, "an answer violates the meaning of a constraint");
    } else {
        sym_reach("excluded");
        sym_assert(!expect, "an answer is lost");
    }
}
