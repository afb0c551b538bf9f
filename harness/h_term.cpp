// Variables are named by the values of the terms written in the program.
#include "core.hpp"
using namespace core;
using i64 = long long;

namespace {

// ------------------------------------------------------------------- values
struct Val {
    int type = clingo_symbol_type_number;
    i64 n = 0;
    bool pos = true;
    std::string str;
    std::vector<Val> args;
};
clingo_symbol_t symbol(Val const &v) {
    if (v.type == clingo_symbol_type_number) return mock::num((int)v.n);
    if (v.type == clingo_symbol_type_string) return mock::str(v.str.c_str());
    std::vector<clingo_symbol_t> args;
    for (auto &x : v.args) args.push_back(symbol(x));
    return mock::fun(v.str.c_str(), args, v.pos);
}
bool equal(Val const &a, Val const &b) {
    if (a.type != b.type || a.pos != b.pos || a.args.size() != b.args.size() || a.str.size() != b.str.size()) return false;
    bool eq = a.n == b.n;
    for (size_t i = 0; i < a.str.size(); ++i) eq = eq & (a.str[i] == b.str[i]);
    if (!eq) return false;
    for (size_t i = 0; i < a.args.size(); ++i)
        if (!equal(a.args[i], b.args[i])) return false;
    return true;
}

// ------------------------------------------------------------------- terms
// Terms in prefix notation: N M K symbolic numbers, digits, lower case names,
// (f a ..) functions, (, a ..) tuples, (+ a b) etc. arithmetic (with % for the
// remainder and ^ for powers), (- a) the
// negation, and strings '..' in which ? is any character.
struct Terms {
    mock::Theory &th;
    int num[3];
    std::vector<char> chars; // of ?
    size_t at = 0;
    char const *p = nullptr;
    clingo_id_t parse(char const *s, Val &v) {
        p = s;
        return term(v);
    }
    clingo_id_t term(Val &v) {
        while (*p == ' ') ++p;
        if (*p == '(') {
            char op = p[1];
            p += 2;
            std::vector<Val> a;
            std::vector<clingo_id_t> t;
            for (;;) {
                while (*p == ' ') ++p;
                if (*p == ')') break;
                a.emplace_back();
                t.push_back(term(a.back()));
            }
            ++p;
            bool arith = std::strchr("+*/-%^", op) != nullptr;
            if (!arith) {
                v.type = clingo_symbol_type_function;
                if (op != ',') v.str = std::string(1, op);
                v.args = a;
                return op == ',' ? th.tuple(t) : th.fun(v.str.c_str(), t);
            }
            if (a.size() == 1) {
                v = a[0];
                if (v.type == clingo_symbol_type_number) v.n = -v.n;
                else v.pos = !v.pos;
            } else {
                i64 x = a[0].n, y = a[1].n;
                v.n = op == '+' ? x + y : op == '-' ? x - y : op == '*' ? (y == 2 ? 2 * x : y == -1 ? -x : x * y) : op == '/' ? x / y : op == '%' ? x % y : x;
                if (op == '^')
                    for (i64 i = 1; i < y; ++i) v.n *= x;
            }
            return th.fun(op == '%' ? "\\" : op == '^' ? "**" : std::string(1, op).c_str(), t);
        }
        if (*p >= '0' && *p <= '9') {
            v.n = *p++ - '0';
            return th.num((int)v.n);
        }
        if (*p >= 'K' && *p <= 'N') {
            int k = *p == 'N' ? 0 : *p == 'M' ? 1 : 2;
            ++p;
            v.n = num[k];
            return th.num(num[k]);
        }
        if (*p == '\'') {
            v.type = clingo_symbol_type_string;
            std::string quoted = "\"";
            for (++p; *p != '\''; ++p) {
                char c = *p;
                if (c == '?') {
                    if (at == chars.size()) chars.push_back((char)sym_int("char", 1, 127));
                    c = chars[at++];
                }
                v.str.push_back(c);
                if (c == '\n') quoted += "\\n";
                else if (c == '\\') quoted += "\\\\";
                else if (c == '"') quoted += "\\\"";
                else quoted.push_back(c);
            }
            ++p;
            quoted += "\"";
            return th.id(quoted.c_str());
        }
        v.type = clingo_symbol_type_function;
        char const *b = p;
        while (*p >= 'a' && *p <= 'z') ++p;
        v.str = std::string(b, p);
        return th.id(v.str.c_str());
    }
};

// pairs of terms naming variables, and a third one
struct Case {
    char const *a, *b, *c;
};
Case const cases[] = {
    {"(f N)", "(f M)", "(f K)"},
    {"(f N)", "(g N)", "(f M)"},
    {"(f N)", "(f N M)", "(f M)"},
    {"(f (+ N M))", "(f (+ M N))", "(f K)"},
    {"(f (+ N 1))", "(f (- M 1))", "(f N)"},
    {"(f (* N 2))", "(f (+ M M))", "(f M)"},
    {"(f (* (- N) 2))", "(f (- (- M) K))", "(f N)"},
    {"(f (- N))", "(f M)", "(f (- 0 N))"},
    {"(f (- (- a)))", "(f (- a))", "(f a)"},
    {"(f (- (g N)))", "(f (g N))", "(f (- (g M)))"},
    {"(f (g N) M)", "(f (g M) N)", "(f (g K) K)"},
    {"(f (g (g (+ N M))))", "(f (g (g N)))", "(f (g N))"},
    {"(, N M)", "(, M N)", "(, N N)"},
    {"(, N)", "(f N)", "(, M)"},
    {"(,)", "(, N)", "(, (,))"},
    {"(f (, N a))", "(f (, M a))", "(f N a)"},
    {"(, (, N) M)", "(, N M)", "(, (, M) M)"},
    {"a", "(f a)", "(a a)"},
    {"a", "ab", "b"},
    {"a", "'a'", "(f 'a')"},
    {"(f '?')", "(f '?')", "(f '?')"},
    {"(f '??')", "(f '??')", "(f '?')"},
    {"(f 'a?b')", "(f 'a?b')", "(f 'ab')"},
    {"(f '???')", "(f '?')", "(f a)"},
    {"'k?'", "'k?'", "'k'"},
    {"'k??'", "k", "(k '??')"},
    {"(f '')", "f", "(f '?')"},
    {"''", "a", "(f '')"},
    {"(f N 'k?')", "(f M 'k?')", "(f N k)"},
    {"(f 1)", "(f N)", "(f '1')"},
    {"(f (/ 7 2))", "(f (/ (- 7) 2))", "(f N)"},
    {"(f (- (* (+ N M) 2) (* M 2)))", "(f (* N 2))", "(f N)"},
    {"(f (, (+ N 1) (- M 1)))", "(f (, M N))", "(f (, N M))"},
    {"(f (% 7 4))", "(f N)", "(f (% (- 7) 4))"},
    {"(f (% N 3))", "(f M)", "(f (% K 5))"},
    {"(f (^ 3 2))", "(f N)", "(f (^ 2 3))"},
    {"(f (^ (- 2) 3))", "(f N)", "(f (* 2 N))"},
};
constexpr int NC = sizeof cases / sizeof *cases;

} // namespace

int sym_variants(int) { return 2 * 2 * NC; }

void sym_main(int variant) {
    auto &cs = cases[variant % NC];
    variant /= NC;
    bool rdl = variant % 2;
    // (fractions are different numbers if real-valued)
    if (rdl && (std::strchr(cs.a, '/') || std::strstr(cs.a, "% N"))) return;
    World w;
    if (rdl) w.conf("rdl", "yes");
    w.reg();
    Terms t{w.host->theory, {}, {}, 0, nullptr};
    for (int i = 0; i < 3; ++i) t.num[i] = sym_int("n", -(1 << 20), 1 << 20);
    Val a, b, c;
    auto ta = t.parse(cs.a, a), tb = t.parse(cs.b, b);
    t.parse(cs.c, c);
    auto &th = w.host->theory;
    bool eq = equal(a, b);
    if (variant / 2 == 0) {
        // the number of variables and their names
        th.diff(false, th.fun("-", {ta, th.id("p")}), "<=", th.num(3), 1);
        th.diff(false, th.fun("-", {th.id("p"), tb}), "<=", th.num(4), 1);
        if (!w.host->callInit()) sym_fail("initialization failed");
        size_t ia = 0, ib = 0, ic = 0;
        auto sa = symbol(a), sb = symbol(b), sc = symbol(c);
        if (!clingodl_lookup_symbol(w.th, sa, &ia) || !clingodl_lookup_symbol(w.th, sb, &ib)) sym_fail("a variable is not found by its value");
        sym_assert((ia == ib) == eq, "variables are identified although their names differ, or the other way around");
        if (!mock::symEq(clingodl_get_symbol(w.th, ia), sa) || !mock::symEq(clingodl_get_symbol(w.th, ib), sb)) sym_fail("a variable has another name");
        bool ec = equal(c, a) || equal(c, b);
        sym_assert(clingodl_lookup_symbol(w.th, sc, &ic) == ec, "a variable is found although it does not exist");
        // iteration
        int n = 0;
        size_t i = 0;
        clingodl_assignment_begin(w.th, 0, &i);
        auto &s = w.host->start();
        if (s.fixpoint() != mock::OK) {
            sym_assert(false, "conflict although the constraints are consistent");
            return;
        }
        clingodl_assignment_begin(w.th, 0, &i);
        while (clingodl_assignment_next(w.th, 0, &i)) {
            if (i != ia && i != ib && !mock::symEq(clingodl_get_symbol(w.th, i), mock::fun("p"))) sym_fail("an unknown variable");
            ++n;
        }
        sym_assert(n == (eq ? 2 : 3), "the number of variables is wrong");
        sym_reach(eq ? "same" : "different");
    } else {
        // a - b <= -1 is satisfiable exactly if these are different variables
        th.diff(false, th.fun("-", {ta, tb}), "<=", th.fun("-", {th.num(1)}), 1);
        bool ok = w.host->callInit();
        if (!ok) sym_fail("initialization failed");
        ok = !w.host->topConflict;
        if (ok) ok = w.host->start().fixpoint() == mock::OK;
        sym_assert(ok != eq, "a constraint is about other variables");
        sym_reach(ok ? "satisfied" : "violated");
    }
}
