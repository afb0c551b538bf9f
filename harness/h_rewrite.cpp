// Rewriting of statements: theory atoms of difference constraints are tagged
// according to where they occur, and integrity constraints are shifted.
#include "mock_ast.hpp"
using namespace ast;

namespace {

#define A(x) clingo_ast_attribute_##x
#define T(x) clingo_ast_type_##x

// ------------------------------------------------------------- construction
struct Variant {
    char const *head;
    char const *body;
    int stm = 0;           // 0 rule, 1 minimize, 2 show, 3 external, 4 edge, 5 heuristic, 6 project
    int pool = 0;          // number of statements after unpooling (0: the statement itself)
};
// heads: 0 boolean constant, a atom, d/t theory atom, c disjunction, h choice
// body:  a atom, d theory atom, D one given by a symbolic term, t other theory atom with
//        conditions, g aggregate with conditions, c conditional literal, x theory atom with
//        arguments, e f k m malformed difference constraints, n theory atom without guard
Variant const variants[] = {
    {"0", "d"}, {"0", "ad"}, {"0", "da"}, {"0", "dd"}, {"0", "gd"}, {"0", "dg"}, {"0", "td"}, {"0", "dt"},
    {"0", "cda"}, {"0", "D"}, {"0", "aD"}, {"0", "x"}, {"0", "xd"}, {"0", "a"}, {"0", ""},
    {"a", "d"}, {"a", "gd"}, {"a", "dt"}, {"a", "D"}, {"a", "cx"},
    {"d", ""}, {"d", "a"}, {"d", "d"}, {"d", "gtd"}, {"D", ""}, {"D", "d"}, {"x", "d"}, {"t", "d"},
    {"c", "d"}, {"h", "d"}, {"h", "gd"},
    {"0", "e"}, {"0", "f"}, {"0", "k"}, {"0", "m"}, {"0", "n"}, {"a", "e"}, {"a", "f"}, {"a", "k"}, {"a", "m"}, {"a", "n"},
    {"e", ""}, {"f", ""}, {"k", ""}, {"m", ""}, {"n", ""}, {"d", "k"}, {"q", "d"}, {"0", "q"}, {"a", "q"}, {"q", ""},
    {"", "d", 1}, {"", "gd", 1}, {"", "td", 2}, {"", "d", 3}, {"", "ad", 4}, {"", "d", 5}, {"", "D", 6}, {"", "a", 2},
    {"0", "d", 0, 2}, {"a", "d", 0, 2}, {"d", "d", 0, 2}, {"0", "ad", 0, 3},
    // thorough
    {"0", "ddd"}, {"0", "adag"}, {"0", "tdgd"}, {"0", "dDx"}, {"d", "dd"}, {"D", "Dd"}, {"0", "ddk"}, {"c", "gtd"}, {"0", "cdtd"},
};
constexpr int ALL = sizeof variants / sizeof *variants, QUICK = ALL - 9;

struct Info {
    Node *node;
    bool symbolic;
};
std::vector<Info> *names = nullptr;

Node *list(Node *n, int attr, std::vector<Node *> v) {
    n->at(attr).nodes = v;
    return n;
}
Node *constant(char const *name) {
    auto *n = make(T(function));
    n->at(A(name)).str = name;
    return n;
}
std::string chars(char const *name, int n) {
    std::string s;
    for (int i = 0; i < n; ++i) {
        int c = sym_int(name, 1, 127);
        s += (char)c;
    }
    return s;
}
Node *literal(Node *atom) {
    auto *l = make(T(literal));
    l->at(A(sign)).num = sym_int("sign", 0, 2);
    l->at(A(atom)).node = atom;
    return l;
}
Node *plain(Node *atom) {
    auto *l = make(T(literal));
    l->at(A(atom)).node = atom;
    return l;
}
Node *symAtom(char const *name) {
    auto *a = make(T(symbolic_atom));
    a->at(A(symbol)).node = constant(name);
    return a;
}
Node *element(int terms, bool cond, int termNo = 0) {
    auto *e = make(T(theory_atom_element));
    std::vector<Node *> t;
    for (int i = 0; i < terms; ++i) {
        auto *s = make(T(symbolic_term));
        s->at(A(symbol)).sym = mock::num(sym_int("const", -100, 100) + termNo);
        t.push_back(s);
    }
    list(e, A(terms), t);
    if (cond) list(e, A(condition), {plain(symAtom("p")), literal(symAtom("q"))});
    return e;
}
// (to limit the number of combinations, only the first atoms have arbitrary names and operators)
int made = 0, rich = 2;
bool shifting = false;
// a theory atom
Node *theory(char kind) {
    int index = made++;
    auto *a = make(T(theory_atom));
    Node *term = nullptr;
    if (kind == 'D') {
        term = make(T(symbolic_term));
        std::string s = index < rich ? chars("name", index == 0 ? 3 + sym_choose("length", 3) : 4) : "diff";
        term->at(A(symbol)).sym = mock::fun(s.c_str());
    }
    else if (kind == 'q') {
        // something that is not a constant
        term = make(T(symbolic_term));
        term->at(A(symbol)).sym = mock::num(sym_int("number", -5, 5));
    }
    else {
        term = make(T(function));
        if (kind == 'd') {
            term->at(A(name)).str = index < rich ? chars("name", index == 0 ? 3 + sym_choose("length", 3) : 4) : "diff";
            term->at(A(external)).num = index == 0 ? sym_int("external", 0, 1) : 0;
        }
        else if (kind == 't') term->at(A(name)).str = chars("other", 3);
        else term->at(A(name)).str = "diff";
        if (kind == 'x') list(term, A(arguments), {constant("y")});
    }
    a->at(A(term)).node = term;
    std::vector<Node *> elems;
    switch (kind) {
        case 't': elems = {element(2, true), element(1, true)}; break;
        case 'e': break;
        case 'f': elems = {element(1, false), element(1, false)}; break;
        case 'k': elems = {element(1, true)}; break;
        case 'm': elems = {element(sym_choose("terms", 2) ? 2 : 0, false)}; break;
        default: elems = {element(1, false)};
    }
    list(a, A(elements), elems);
    if (kind != 'n') {
        auto *g = make(T(theory_guard));
        static char const *ops[] = {"<=", "<", ">=", ">", "=", "!=", nullptr};
        char const *op = "<=";
        if (kind == 'd' && shifting && index < rich) op = ops[index == 0 ? sym_choose("operator", 7) : 4 + sym_choose("operator", 3)];
        if (kind == 'd' && !shifting) op = nullptr;
        g->at(A(operator_name)).str = op ? std::string(op) : chars("op", 2);
        g->at(A(term)).node = constant("c");
        a->at(A(guard)).node = g;
    }
    return a;
}
Node *conditional() {
    auto *c = make(T(conditional_literal));
    c->at(A(literal)).node = literal(symAtom("r"));
    list(c, A(condition), {literal(symAtom("s"))});
    return c;
}
Node *bodyElem(char k) {
    switch (k) {
        case 'a': return literal(symAtom("b"));
        case 'c': return conditional();
        case 'g': {
            auto *g = make(T(body_aggregate));
            auto *e = make(T(body_aggregate_element));
            list(e, A(terms), {constant("w")});
            list(e, A(condition), {literal(symAtom("u")), plain(symAtom("v"))});
            list(g, A(elements), {e});
            auto *gd = make(T(guard));
            gd->at(A(term)).node = constant("z");
            g->at(A(left_guard)).node = gd;
            return literal(g);
        }
        default: return literal(theory(k));
    }
}
Node *headOf(char k) {
    switch (k) {
        case '0': {
            auto *b = make(T(boolean_constant));
            b->at(A(value)).num = sym_int("value", 0, 1);
            return literal(b);
        }
        case 'a': return literal(symAtom("h"));
        case 'c': {
            auto *d = make(T(disjunction));
            return list(d, A(elements), {conditional(), conditional()});
        }
        case 'h': {
            auto *d = make(T(aggregate));
            return list(d, A(elements), {conditional()});
        }
        default: return theory(k);
    }
}
Node *statement(Variant const &v) {
    static int const types[] = {T(rule), T(minimize), T(show_term), T(external), T(edge), T(heuristic), T(project_atom)};
    auto *s = make(types[v.stm]);
    std::vector<Node *> body;
    for (char const *c = v.body; *c; ++c) body.push_back(bodyElem(*c));
    list(s, A(body), body);
    for (auto &x : s->attrs) {
        if (x.second.type == clingo_ast_attribute_type_ast) x.second.node = constant("k");
        if (x.second.type == clingo_ast_attribute_type_ast_array && x.first != A(body)) x.second.nodes = {constant("l")};
    }
    if (v.stm == 0) s->at(A(head)).node = headOf(v.head[0]);
    return s;
}

// ------------------------------------------------------------------- oracle
bool isDiff(Node *term) {
    if (term->type == T(function)) {
        if (!term->at(A(arguments)).nodes.empty() || term->at(A(external)).num != 0) return false;
        auto &s = term->at(A(name)).str;
        return s.size() == 4 && strEq(s, "diff");
    }
    if (term->type == T(symbolic_term)) {
        auto &x = mock::sym(term->at(A(symbol)).sym);
        return x.type == clingo_symbol_type_function && x.args.empty() && x.str.size() == 4 && strEq(x.str, "diff");
    }
    return false;
}
struct Malformed {};
// the tagged statement; throws if there is a malformed difference constraint
Node *tagged(Node *n, bool inBody) {
    auto *r = copy(n);
    if (n->type == T(theory_atom) && isDiff(n->at(A(term)).node)) {
        auto &e = n->at(A(elements)).nodes;
        if (e.size() != 1 || e[0]->at(A(terms)).nodes.size() != 1 || !e[0]->at(A(condition)).nodes.empty()) throw Malformed();
        auto *t = copy(n->at(A(term)).node);
        char const *name = inBody ? "__diff_b" : "__diff_h";
        if (t->type == T(function)) t->at(A(name)).str = name;
        else t->at(A(symbol)).sym = mock::fun(name);
        r->at(A(term)).node = t;
        return r;
    }
    for (auto &x : r->attrs) {
        bool in = inBody || n->type == T(literal);
        if (x.second.node) x.second.node = tagged(x.second.node, in);
        for (auto *&y : x.second.nodes) y = tagged(y, in);
    }
    return r;
}
char const *negated(std::string const &op) {
    static char const *a[] = {"<=", "<", ">=", ">", "=", "!="}, *b[] = {">", ">=", "<", "<=", "!=", "="};
    for (int i = 0; i < 6; ++i)
        if (strEq(op, a[i])) return b[i];
    throw Malformed();
}
// positions of difference constraints in the body of an integrity constraint
std::vector<size_t> shiftable(Node *s) {
    std::vector<size_t> r;
    if (s->type != T(rule)) return r;
    auto *h = s->at(A(head)).node;
    if (h->type != T(literal)) return r;
    auto *b = h->at(A(atom)).node;
    if (b->type != T(boolean_constant)) return r;
    // false, not true, not not false
    bool truth = b->at(A(value)).num != 0;
    if (h->at(A(sign)).num == 1) truth = !truth;
    if (truth) return r;
    auto &body = s->at(A(body)).nodes;
    for (size_t i = 0; i < body.size(); ++i) {
        if (body[i]->type != T(literal)) continue;
        auto *a = body[i]->at(A(atom)).node;
        if (a->type == T(theory_atom) && isDiff(a->at(A(term)).node)) r.push_back(i);
    }
    return r;
}
Node *shifted(Node *s, size_t i) {
    auto *r = copy(s);
    auto &body = r->at(A(body)).nodes;
    auto *l = body[i];
    auto *a = copy(l->at(A(atom)).node);
    if (!a->at(A(guard)).node) throw Malformed();
    if (l->at(A(sign)).num != 1) {
        auto *g = copy(a->at(A(guard)).node);
        g->at(A(operator_name)).str = negated(g->at(A(operator_name)).str);
        a->at(A(guard)).node = g;
    }
    r->at(A(head)).node = a;
    body.erase(body.begin() + i);
    return r;
}

struct Out {
    std::vector<Node *> stms;
    int failAt = -1;
};
bool add(clingo_ast_t *a, void *data) {
    auto *o = static_cast<Out *>(data);
    if ((int)o->stms.size() == o->failAt) {
        clingo_set_error(clingo_error_runtime, "adding failed");
        return false;
    }
    ++N(a)->refs;
    o->stms.push_back(N(a));
    return true;
}

} // namespace

int sym_variants(int tier) { return (tier ? ALL : QUICK) * 2; }

void sym_main(int variant) {
    auto &v = variants[variant / 2];
    bool shift = shifting = variant & 1;
    if (v.pool) rich = 1;
    mock::host() = new mock::Host();
    clingodl_theory_t *th = nullptr;
    if (!clingodl_create(&th)) sym_fail("cannot create theory");
    if (shift && !clingodl_configure(th, "shift-constraints", "yes")) sym_fail("valid option refused");

    std::vector<Node *> in;
    auto *stm = statement(v);
    if (v.pool == 0) in.push_back(stm);
    for (int i = 0; i < v.pool; ++i) {
        auto *s = i == 0 ? copy(stm) : statement(v);
        in.push_back(s);
        pool().push_back(s);
    }
    std::vector<Node *> before;
    for (auto *s : in) before.push_back(deepCopy(s));

    // what is expected
    bool malformed = false, refusable = false;
    std::vector<std::vector<Node *>> expected;
    Out out;
    if (v.pool > 0) out.failAt = sym_choose("fail", v.pool + 1) - 1;
    for (auto *s : before) {
        std::vector<Node *> e;
        auto pos = shift ? shiftable(s) : std::vector<size_t>();
        bool bad = false;
        auto candidate = [&](Node *n, size_t const *i) {
            try {
                e.push_back(tagged(i ? shifted(n, *i) : n, false));
            }
            catch (Malformed const &) {
                bad = true;
            }
        };
        if (pos.empty()) candidate(s, nullptr);
        // the constraint moved to the head can be any of them
        for (size_t i : pos) candidate(s, &i);
        if (!pos.empty()) sym_reach("shift");
        if (e.empty()) {
            malformed = true;
            break;
        }
        refusable = refusable || bad;
        expected.push_back(e);
    }

    bool ok = clingodl_rewrite_ast(th, C(stm), add, &out);
    if (malformed) {
        sym_assert(!ok, "malformed difference constraint accepted");
        sym_reach("refused");
    }
    else if (out.failAt >= 0) {
        sym_assert(!ok, "failure to add a statement not reported");
        sym_assert((int)out.stms.size() == out.failAt, "rewriting goes on after a failure");
        sym_reach("failed");
    }
    else if (!ok) {
        sym_assert(refusable, "rewriting fails");
        sym_reach("refused");
    }
    else {
        sym_assert(out.stms.size() == in.size(), "wrong number of statements");
        for (size_t i = 0; i < out.stms.size(); ++i) {
            bool eq = false;
            for (auto *e : expected[i]) eq = eq | equal(out.stms[i], e, true);
            sym_assert(eq, "statement is not rewritten as specified");
        }
        sym_reach("rewritten");
    }
    // the original is left as it was
    for (size_t i = 0; i < in.size(); ++i) {
        sym_assert(in[i]->refs > 0, "statement of the caller released");
        sym_assert(equal(in[i], before[i], true), "statement of the caller changed");
    }
    for (auto *s : out.stms) release(s);
    clingodl_destroy(th);
}
