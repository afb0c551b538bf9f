// Whatever is not a difference constraint is reported as an error.
//  -DTREE   theory atoms made of arbitrary terms
//  -DFAULT  functions of the library that fail
#include "core.hpp"
using namespace core;
using i64 = long long;

namespace {

bool reported() { return clingo_error_code() != clingo_error_success && clingo_error_message() && *clingo_error_message(); }

#ifdef TREE
// ------------------------------------------------------------------- values
struct Val {
    int type = clingo_symbol_type_number;
    i64 n = 0;
    double d = 0; // of strings that are numbers
    bool numeric = false, infinite = false;
    bool pos = true;
    bool bad = false;
    std::string str;
    std::vector<Val> args;
};
bool equal(Val const &a, Val const &b) {
    if (a.type != b.type || a.pos != b.pos || a.args.size() != b.args.size() || a.str.size() != b.str.size()) return false;
    bool eq = a.n == b.n;
    for (size_t i = 0; i < a.str.size(); ++i) eq = eq & (a.str[i] == b.str[i]);
    if (!eq) return false;
    for (size_t i = 0; i < a.args.size(); ++i)
        if (!equal(a.args[i], b.args[i])) return false;
    return true;
}
// linear terms; numbers are given in units of 1/4
struct Poly {
    std::vector<std::pair<Val, i64>> vars;
    i64 c = 0;
    bool bad = false;
    bool unknown = false; // not decided by this oracle
    void add(Val const &v, i64 k) {
        for (auto &x : vars)
            if (equal(x.first, v)) {
                x.second += k;
                return;
            }
        vars.emplace_back(v, k);
    }
};
struct Term {
    clingo_id_t id;
    Poly lin; // as a linear term
    Val val;  // as an argument
};

struct Gen {
    mock::Theory &th;
    bool rdl;
    int numbers = 0;
    bool symbolic = false; // strings with any characters

    Term number(int n) {
        Term t;
        t.id = th.num(n);
        t.lin.c = 4 * (i64)n;
        t.val.n = n;
        return t;
    }
    void variable(Term &t) {
        t.lin.bad = t.val.bad;
        t.lin.add(t.val, 1);
    }
    Term name(char const *n) {
        Term t;
        t.id = th.id(n);
        t.val.type = clingo_symbol_type_function;
        t.val.str = n;
        variable(t);
        return t;
    }
    // value: four times the number or nothing
    Term string(std::string const &s, bool numeric, i64 quarters = 0, bool bad = false) {
        Term t;
        t.id = th.id(("\"" + s + "\"").c_str());
        t.val.type = clingo_symbol_type_string;
        t.val.str = s;
        t.val.numeric = numeric;
        t.val.d = quarters / 4.0;
        t.val.infinite = bad;
        if (bad) t.lin.bad = true;
        else if (numeric) {
            t.lin.c = quarters;
            t.lin.bad = !rdl && quarters % 4 != 0;
        } else variable(t);
        return t;
    }
    Term chars() {
        char a = (char)sym_int("char", 33, 126), b = (char)sym_int("char", 33, 126);
        auto digit = [](char c) { return c >= '0' && c <= '9'; };
        sym_assume(a != '\\' && a != '"' && b != '\\' && b != '"');
        std::string s{a, b};
        if (digit(a) && digit(b)) return string(s, true, 4 * (10 * (a - '0') + (b - '0')));
        if (digit(a) && b == '.') return string(s, true, 4 * (a - '0'));
        if (a == '.' && digit(b)) {
            // (fractions in tenths)
            int k = sym_conc(b - '0');
            auto t = string(s, true, k == 5 ? 2 : 0, k != 0 && !rdl);
            t.lin.unknown = k != 0 && k != 5 && rdl;
            return t;
        }
        if (a == '+' && digit(b)) return string(s, true, 4 * (b - '0'));
        if (a == '-' && digit(b)) return string(s, true, -4 * (b - '0'));
        return string(s, false);
    }
    Term group(int type, char const *n, std::vector<Term> const &args) {
        Term t;
        std::vector<clingo_id_t> ids;
        for (auto &x : args) {
            ids.push_back(x.id);
            t.val.bad = t.val.bad || x.val.bad;
            t.val.args.push_back(x.val);
        }
        t.id = th.term(type, 0, n, ids);
        t.val.type = clingo_symbol_type_function;
        t.val.str = n;
        if (type == clingo_theory_term_type_set || type == clingo_theory_term_type_list) t.val.bad = true;
        variable(t);
        return t;
    }
    Term negate(Term const &a) {
        Term t;
        t.id = th.fun("-", {a.id});
        t.lin = a.lin;
        t.lin.c = -t.lin.c;
        for (auto &x : t.lin.vars) x.second = -x.second;
        t.val = a.val;
        if (a.val.type == clingo_symbol_type_number) t.val.n = -a.val.n;
        else if (a.val.type == clingo_symbol_type_function && !a.val.str.empty()) t.val.pos = !a.val.pos;
        else t.val.bad = true;
        return t;
    }
    Term binary(char op, Term const &a, Term const &b) {
        Term t;
        char const n[] = {op, 0};
        t.id = th.fun(n, {a.id, b.id});
        // linear
        t.lin.bad = a.lin.bad || b.lin.bad;
        t.lin.unknown = a.lin.unknown || b.lin.unknown;
        if (op == '+' || op == '-') {
            i64 s = op == '+' ? 1 : -1;
            t.lin.vars = a.lin.vars;
            t.lin.c = s > 0 ? a.lin.c + b.lin.c : a.lin.c - b.lin.c;
            for (auto &x : b.lin.vars) t.lin.add(x.first, s > 0 ? x.second : -x.second);
        } else if (op == '*') {
            if (!a.lin.vars.empty() && !b.lin.vars.empty()) t.lin.bad = true;
            else {
                auto &v = a.lin.vars.empty() ? b.lin : a.lin;
                // (numbers are concrete here)
                i64 k = a.lin.vars.empty() ? a.lin.c : b.lin.c;
                if (k % 4 != 0 || v.c % 4 != 0) t.lin.unknown = true;
                t.lin.c = k / 4 == 0 ? 0 : k / 4 == 1 ? v.c : k / 4 == -1 ? -v.c : k * v.c / 4;
                for (auto &x : v.vars) t.lin.vars.emplace_back(x.first, k / 4 * x.second);
            }
        } else {
            bool va = false, vb = false;
            for (auto &x : a.lin.vars) va = va || x.second != 0;
            for (auto &x : b.lin.vars) vb = vb || x.second != 0;
            if (va || vb || b.lin.c == 0) t.lin.bad = true;
            else if (rdl) t.lin.unknown = true;
            else t.lin.c = 4 * ((a.lin.c / 4) / (b.lin.c / 4));
        }
        // argument
        t.val.bad = a.val.bad || b.val.bad;
        auto num = [&](Val const &v) { return v.type == clingo_symbol_type_number || (rdl && v.numeric && !v.infinite); };
        if (!num(a.val) || !num(b.val)) t.val.bad = true;
        if (t.val.bad) return finish(t);
        if (op == '/') {
            if (b.val.type == clingo_symbol_type_number ? b.val.n == 0 : b.val.d == 0) t.val.bad = true;
        }
        // (the names are checked elsewhere; only tell errors from names here)
        t.val.type = clingo_symbol_type_number;
        t.val.numeric = true;
        t.val.n = 1000 + ++numbers;
        return finish(t);
    }
    Term finish(Term t) { return t; }
    // terms without arithmetic on top
    Term leaf(bool simple) {
        switch (sym_choose("leaf", simple ? 9 : 18)) {
            case 0: return number(sym_int("n", -100, 100));
            case 1: return number(0);
            case 2: return number(2);
            case 3: return name("x");
            case 4: return name("y");
            case 5: return string("3", true, 12);
            case 6: return string("k", false);
            case 7: return group(clingo_theory_term_type_list, "", {number(1)});
            case 8: return group(clingo_theory_term_type_tuple, "", {name("x"), number(1)});
            case 9: return string("2.5", true, 10);
            case 10: return string("inf", true, 0, true);
            case 11: return string("-nan", true, 0, true);
            case 12: return string("", false);
            case 13: return symbolic ? chars() : string("-4.0", true, -16);
            case 14: return group(clingo_theory_term_type_set, "", {name("x")});
            case 15: return string("1e999", true, 0, true);
            case 16: return string("7b", false);
            default: return number(-1);
        }
    }
    Term arith(bool simple) {
        switch (sym_choose("op", 5)) {
            case 0: return negate(leaf(false));
            default: {
                char op = "+-*/"[sym_choose("binary", 4)];
                Term a, b;
                if (op == '*' || op == '/') {
                    // (one operand is concrete)
                    bool first = sym_choose("first", 2);
                    static int const ks[] = {0, 1, -1, 2, -3};
                    Term c = number(ks[sym_choose("number", 5)]);
                    if (op == '/') {
                        Term n = number(7);
                        a = first ? c : leaf(simple);
                        if (!first && a.lin.vars.empty()) a = n;
                        b = c;
                        if (first) {
                            b = leaf(simple);
                            if (b.lin.vars.empty() && !b.lin.bad && b.lin.c != 0) b = n;
                        }
                    } else {
                        a = first ? c : leaf(simple);
                        b = first ? leaf(simple) : c;
                    }
                } else {
                    a = leaf(simple);
                    b = leaf(true);
                }
                return binary(op, a, b);
            }
        }
    }
};

char const *const kinds[] = {"leaf", "arith", "difference", "argument", "nested", "product", "structure"};
constexpr int NK = sizeof kinds / sizeof *kinds;

void tree(int variant) {
    char const *kind = kinds[variant % NK];
    variant /= NK;
    bool rdl = variant % 2, body = variant / 2;
    World w;
    if (rdl) w.conf("rdl", "yes");
    w.reg();
    auto &th = w.host->theory;
    Gen g{th, rdl};
    Term l, r;
    bool legal = !(rdl && body);
    if (strcmp(kind, "leaf") == 0) {
        g.symbolic = true;
        l = g.leaf(false);
        g.symbolic = false;
        r = g.leaf(true);
    } else if (strcmp(kind, "arith") == 0) {
        l = g.arith(false);
        r = g.number(1);
    } else if (strcmp(kind, "difference") == 0) {
        auto a = g.leaf(false);
        auto b = g.leaf(true);
        l = g.binary('-', a, b);
        r = sym_choose("rhs", 2) ? g.name("y") : g.number(3);
    } else if (strcmp(kind, "argument") == 0) {
        auto a = g.arith(true);
        l = g.group(clingo_theory_term_type_function, "f", {a});
        r = g.number(1);
    } else if (strcmp(kind, "nested") == 0) {
        bool tuple = sym_choose("tuple", 2);
        auto x = g.leaf(false);
        auto y = g.leaf(true);
        auto a = g.group(tuple ? clingo_theory_term_type_tuple : clingo_theory_term_type_function, tuple ? "" : "g", {x, y});
        if (sym_choose("neg", 2)) a = g.negate(a);
        l = g.group(clingo_theory_term_type_function, "f", {a});
        r = g.number(1);
    } else if (strcmp(kind, "product") == 0) {
        auto a = g.leaf(true);
        auto b = g.leaf(true);
        l = g.binary('*', g.number(2), g.binary('-', a, b));
        auto c = g.leaf(true);
        r = g.binary('-', c, g.name("y"));
    } else {
        // parts are missing
        l = g.binary('-', g.name("x"), g.name("y"));
        r = g.number(2);
        int at = th.diff(body, l.id, "<=", r.id, 1);
        auto &a = th.atoms[at];
        switch (sym_choose("part", 6)) {
            case 0: break;
            case 1: a.guard = false, legal = false; break;
            case 2: a.elems.push_back(a.elems[0]), legal = false; break;
            case 3: th.elems[a.elems[0]].tuple.clear(), legal = false; break;
            case 4: th.elems[a.elems[0]].cond.push_back(w.newLit()), legal = false; break;
            case 5: a.term = th.id(sym_choose("name", 2) ? "diff" : "__diff_"), legal = true; break;
        }
        bool ok = w.host->callInit();
        sym_assert(ok == legal, legal ? "a difference constraint is refused" : "a malformed atom is accepted");
        if (!ok && !reported()) sym_fail("refused without an error");
        sym_reach(ok ? "accepted" : "refused");
        return;
    }
    th.diff(body, l.id, "<=", r.id, 1);
    auto d = g.binary('-', l, r);
    if (d.lin.unknown) return;
    if (d.lin.bad) legal = false;
    int pos = 0, neg = 0, more = 0;
    for (auto &x : d.lin.vars) {
        pos += x.second == 1;
        neg += x.second == -1;
        more += x.second != 0 && x.second != 1 && x.second != -1;
    }
    if (more || pos > 1 || neg > 1) legal = false;
    bool ok = w.host->callInit();
    sym_assert(ok == legal, legal ? "a difference constraint is refused" : "a malformed constraint is accepted");
    if (!ok && !reported()) sym_fail("refused without an error");
    sym_reach(ok ? "accepted" : "refused");
    if (ok && !w.host->topConflict) {
        if (w.host->start().fixpoint() == mock::FAILED) sym_fail("propagator reported an error");
        sym_reach("propagated");
    }
}
#endif

#ifdef FAULT
char const *const progs[] = {"12:a 21:b 10:T", "12:a 23:a 31:a", "12:T 21:T", "10:a 01:b"};
constexpr int NP = sizeof progs / sizeof *progs;
char const *const modes[] = {"no", "full", "partial+"};

// the k-th call fails: run everything until an error is reported
void inject(int variant) {
    char const *prog = progs[variant % NP];
    variant /= NP;
    char const *mode = modes[variant % 3];
    bool rdl = variant / 3;
    World w;
    w.checkLemmas = false;
    w.conf("propagate", mode);
    w.conf("add-mutexes", "3");
    w.conf("dl-heuristic", "min");
    if (rdl) w.conf("rdl", "yes");
    auto &f = mock::faults();
    f = mock::Fault();
    static char const *const rel[] = {"<=", "<", ">=", ">", "=", "!="};
    std::vector<lit> vars;
    build(w, prog, vars, -4, 4);
    // a constraint that needs auxiliary literals
    auto &th = w.host->theory;
    int k = sym_choose("relation", 6);
    th.diff(!rdl && sym_choose("body", 2), th.fun("-", {th.fun("f", {th.fun("+", {th.num(1), th.num(2)})}), th.id("\"s\"")}), rel[k], th.num(3), w.newLit());
    f.at = 1 + sym_choose("fault", 400);
    auto failed = [&](bool ok) {
        if (!f.hit) {
            if (!ok) sym_fail("an error although nothing failed");
            return false;
        }
        // the failure is reported by the function that encountered it
        if (ok) sym_fail("an error is lost");
        if (!reported()) sym_fail("failed without an error");
        sym_reach("failure");
        return true;
    };
    bool done = failed(clingodl_register(w.th, reinterpret_cast<clingo_control_t *>(w.host))) || failed(w.host->callInit());
    if (!done && !w.host->topConflict) {
        auto &s = w.host->start();
        for (;;) {
            auto r = s.fixpoint();
            done = failed(r != mock::FAILED);
            if (done || r == mock::CONFLICT) break;
            lit l = 0;
            for (int v = 2; v <= w.host->nvars && l == 0; ++v)
                if (s.value(v) == 0) l = v;
            if (l == 0) break;
            lit d = 0;
            done = failed(w.host->prop.decide(0, reinterpret_cast<clingo_assignment_t const *>(&s), l, w.host->propData, &d));
            if (done) break;
            s.decide(d);
        }
        if (!done && s.total() && !s.conflict) {
            done = failed(clingodl_on_model(w.th, reinterpret_cast<clingo_model_t *>(w.host)));
            sym_reach("model");
        }
    }
    sym_reach(done ? "stopped" : "finished");
    clingodl_destroy(w.th);
}
#endif

} // namespace

#ifdef TREE
int sym_variants(int) { return NK * 4; }
void sym_main(int variant) { tree(variant); }
#else
int sym_variants(int) { return NP * 3 * 2; }
void sym_main(int variant) { inject(variant); }
#endif
