// A model of the part of clingo's C API for abstract syntax trees.
#ifndef MOCK_AST_HPP
#define MOCK_AST_HPP
#include "ast_tables.hpp"
#include "mock.hpp"

clingo_ast_attribute_names_t g_clingo_ast_attribute_names = {asttab::names, sizeof asttab::names / sizeof *asttab::names};
clingo_ast_constructors_t g_clingo_ast_constructors = {asttab::cons, sizeof asttab::cons / sizeof *asttab::cons};

namespace ast {

struct Node;
struct Value {
    int type = 0;
    int num = 0;                   // number, location
    clingo_symbol_t sym = 0;
    std::string str;
    Node *node = nullptr;          // (optional) node
    std::vector<Node *> nodes;
    std::vector<std::string> strs;
};
struct Node {
    int type;
    int refs = 1;
    std::vector<std::pair<int, Value>> attrs;
    Value *find(int a) {
        for (auto &x : attrs)
            if (x.first == a) return &x.second;
        return nullptr;
    }
    Value &at(int a) {
        auto *v = find(a);
        if (!v) sym_fail("mock: missing attribute");
        return *v;
    }
};
inline Node *N(clingo_ast_t *a) {
    auto *n = reinterpret_cast<Node *>(a);
    if (!n || n->refs <= 0) sym_fail("syntax tree used after it was released");
    return n;
}
inline clingo_ast_t *C(Node *n) { return reinterpret_cast<clingo_ast_t *>(n); }
inline int attrType(int type, int attr) {
    auto &c = asttab::cons[type];
    for (size_t i = 0; i < c.size; ++i)
        if (c.arguments[i].attribute == attr) return c.arguments[i].type;
    return -1;
}
// a node with default attributes
inline Node *make(int type) {
    auto *n = new Node();
    n->type = type;
    auto &c = asttab::cons[type];
    for (size_t i = 0; i < c.size; ++i) {
        Value v;
        v.type = c.arguments[i].type;
        n->attrs.emplace_back(c.arguments[i].attribute, v);
    }
    static int *locs = new int(0);
    if (auto *l = n->find(clingo_ast_attribute_location)) l->num = ++*locs;
    return n;
}
inline Node *copy(Node *n) {
    auto *r = new Node();
    r->type = n->type;
    r->attrs = n->attrs;
    for (auto &x : r->attrs) {
        if (x.second.node) ++x.second.node->refs;
        for (auto *y : x.second.nodes) ++y->refs;
    }
    return r;
}
inline Node *deepCopy(Node *n) {
    auto *r = new Node();
    r->type = n->type;
    r->attrs = n->attrs;
    for (auto &x : r->attrs) {
        if (x.second.node) x.second.node = deepCopy(x.second.node);
        for (auto *&y : x.second.nodes) y = deepCopy(y);
    }
    return r;
}
inline void release(Node *n) {
    if (!n) return;
    if (n->refs <= 0) sym_fail("syntax tree released too often");
    if (--n->refs == 0) {
        for (auto &x : n->attrs) {
            release(x.second.node);
            for (auto *y : x.second.nodes) release(y);
        }
        // (kept to detect uses afterwards)
    }
}
// structural equality without branching on the contents of strings and numbers
inline bool strEq(std::string const &a, std::string const &b) {
    if (a.size() != b.size()) return false;
    bool eq = true;
    for (size_t i = 0; i < a.size(); ++i) eq = eq & (a[i] == b[i]);
    return eq;
}
inline bool sameSym(clingo_symbol_t a, clingo_symbol_t b) {
    if (a == b) return true;
    if (a == 0 || b == 0) return false;
    auto &x = mock::sym(a), &y = mock::sym(b);
    if (x.type != y.type || x.args.size() != y.args.size()) return false;
    bool eq = (x.num == y.num) & (x.pos == y.pos) & strEq(x.str, y.str);
    for (size_t i = 0; i < x.args.size(); ++i) eq = eq & sameSym(x.args[i], y.args[i]);
    return eq;
}
inline bool equal(Node *a, Node *b, bool locations) {
    if (a == b) return true;
    if (!a || !b || a->type != b->type || a->attrs.size() != b->attrs.size()) return false;
    bool eq = true;
    for (size_t i = 0; i < a->attrs.size(); ++i) {
        auto &x = a->attrs[i];
        auto *q = b->find(x.first);
        if (!q) return false;
        auto &v = x.second, &u = *q;
        if (v.type != u.type || v.nodes.size() != u.nodes.size() || v.strs.size() != u.strs.size()) return false;
        if (locations || v.type != clingo_ast_attribute_type_location) eq = eq & (v.num == u.num);
        eq = eq & sameSym(v.sym, u.sym) & strEq(v.str, u.str);
        eq = eq & equal(v.node, u.node, locations);
        for (size_t k = 0; k < v.nodes.size(); ++k) eq = eq & equal(v.nodes[k], u.nodes[k], locations);
        for (size_t k = 0; k < v.strs.size(); ++k) eq = eq & strEq(v.strs[k], u.strs[k]);
    }
    return eq;
}
inline Value *get(clingo_ast_t *a, int attr, int type) {
    auto *v = N(a)->find(attr);
    if (!v || v->type != type) {
        clingo_set_error(clingo_error_runtime, "syntax tree has no such attribute");
        return nullptr;
    }
    return v;
}
// what unpooling a statement yields (the statement itself if empty)
inline std::vector<Node *> &pool() {
    static auto *p = new std::vector<Node *>();
    return *p;
}

} // namespace ast

extern "C" {
using namespace ast;
bool clingo_ast_build(clingo_ast_type_t, clingo_ast_t **, ...) {
    sym_fail("mock: clingo_ast_build is not supported");
    return false;
}
void clingo_ast_acquire(clingo_ast_t *a) { ++N(a)->refs; }
void clingo_ast_release(clingo_ast_t *a) { release(reinterpret_cast<Node *>(a)); }
bool clingo_ast_copy(clingo_ast_t *a, clingo_ast_t **r) {
    *r = C(copy(N(a)));
    return true;
}
bool clingo_ast_deep_copy(clingo_ast_t *a, clingo_ast_t **r) {
    *r = C(deepCopy(N(a)));
    return true;
}
bool clingo_ast_equal(clingo_ast_t *a, clingo_ast_t *b) { return equal(N(a), N(b), false); }
bool clingo_ast_get_type(clingo_ast_t *a, clingo_ast_type_t *t) {
    *t = N(a)->type;
    return true;
}
bool clingo_ast_has_attribute(clingo_ast_t *a, clingo_ast_attribute_t attr, bool *r) {
    *r = N(a)->find(attr) != nullptr;
    return true;
}
bool clingo_ast_attribute_type(clingo_ast_t *a, clingo_ast_attribute_t attr, clingo_ast_attribute_type_t *t) {
    auto *v = N(a)->find(attr);
    if (!v) {
        clingo_set_error(clingo_error_runtime, "syntax tree has no such attribute");
        return false;
    }
    *t = v->type;
    return true;
}
bool clingo_ast_attribute_get_number(clingo_ast_t *a, clingo_ast_attribute_t attr, int *r) {
    auto *v = get(a, attr, clingo_ast_attribute_type_number);
    return v && (*r = v->num, true);
}
bool clingo_ast_attribute_set_number(clingo_ast_t *a, clingo_ast_attribute_t attr, int x) {
    auto *v = get(a, attr, clingo_ast_attribute_type_number);
    return v && (v->num = x, true);
}
bool clingo_ast_attribute_get_symbol(clingo_ast_t *a, clingo_ast_attribute_t attr, clingo_symbol_t *r) {
    auto *v = get(a, attr, clingo_ast_attribute_type_symbol);
    return v && (*r = v->sym, true);
}
bool clingo_ast_attribute_set_symbol(clingo_ast_t *a, clingo_ast_attribute_t attr, clingo_symbol_t x) {
    auto *v = get(a, attr, clingo_ast_attribute_type_symbol);
    return v && (v->sym = x, true);
}
bool clingo_ast_attribute_get_location(clingo_ast_t *a, clingo_ast_attribute_t attr, clingo_location_t *r) {
    auto *v = get(a, attr, clingo_ast_attribute_type_location);
    if (!v) return false;
    *r = {"file", "file", (size_t)v->num, 1, 1, 1};
    return true;
}
bool clingo_ast_attribute_set_location(clingo_ast_t *a, clingo_ast_attribute_t attr, clingo_location_t const *x) {
    auto *v = get(a, attr, clingo_ast_attribute_type_location);
    return v && (v->num = x->begin_line, true);
}
bool clingo_ast_attribute_get_string(clingo_ast_t *a, clingo_ast_attribute_t attr, char const **r) {
    auto *v = get(a, attr, clingo_ast_attribute_type_string);
    return v && (*r = v->str.c_str(), true);
}
bool clingo_ast_attribute_set_string(clingo_ast_t *a, clingo_ast_attribute_t attr, char const *x) {
    auto *v = get(a, attr, clingo_ast_attribute_type_string);
    return v && (v->str = x, true);
}
bool clingo_ast_attribute_get_ast(clingo_ast_t *a, clingo_ast_attribute_t attr, clingo_ast_t **r) {
    auto *v = get(a, attr, clingo_ast_attribute_type_ast);
    if (!v) return false;
    ++v->node->refs;
    *r = C(v->node);
    return true;
}
bool clingo_ast_attribute_set_ast(clingo_ast_t *a, clingo_ast_attribute_t attr, clingo_ast_t *x) {
    auto *v = get(a, attr, clingo_ast_attribute_type_ast);
    if (!v) return false;
    ++N(x)->refs;
    release(v->node);
    v->node = N(x);
    return true;
}
bool clingo_ast_attribute_get_optional_ast(clingo_ast_t *a, clingo_ast_attribute_t attr, clingo_ast_t **r) {
    auto *v = get(a, attr, clingo_ast_attribute_type_optional_ast);
    if (!v) return false;
    if (v->node) ++v->node->refs;
    *r = C(v->node);
    return true;
}
bool clingo_ast_attribute_set_optional_ast(clingo_ast_t *a, clingo_ast_attribute_t attr, clingo_ast_t *x) {
    auto *v = get(a, attr, clingo_ast_attribute_type_optional_ast);
    if (!v) return false;
    if (x) ++N(x)->refs;
    release(v->node);
    v->node = x ? N(x) : nullptr;
    return true;
}
static bool range(bool ok) {
    if (!ok) clingo_set_error(clingo_error_runtime, "index out of range");
    return ok;
}
bool clingo_ast_attribute_get_ast_at(clingo_ast_t *a, clingo_ast_attribute_t attr, size_t i, clingo_ast_t **r) {
    auto *v = get(a, attr, clingo_ast_attribute_type_ast_array);
    if (!v || !range(i < v->nodes.size())) return false;
    ++v->nodes[i]->refs;
    *r = C(v->nodes[i]);
    return true;
}
bool clingo_ast_attribute_set_ast_at(clingo_ast_t *a, clingo_ast_attribute_t attr, size_t i, clingo_ast_t *x) {
    auto *v = get(a, attr, clingo_ast_attribute_type_ast_array);
    if (!v || !range(i < v->nodes.size())) return false;
    ++N(x)->refs;
    release(v->nodes[i]);
    v->nodes[i] = N(x);
    return true;
}
bool clingo_ast_attribute_delete_ast_at(clingo_ast_t *a, clingo_ast_attribute_t attr, size_t i) {
    auto *v = get(a, attr, clingo_ast_attribute_type_ast_array);
    if (!v || !range(i < v->nodes.size())) return false;
    release(v->nodes[i]);
    v->nodes.erase(v->nodes.begin() + i);
    return true;
}
bool clingo_ast_attribute_size_ast_array(clingo_ast_t *a, clingo_ast_attribute_t attr, size_t *n) {
    auto *v = get(a, attr, clingo_ast_attribute_type_ast_array);
    return v && (*n = v->nodes.size(), true);
}
bool clingo_ast_attribute_insert_ast_at(clingo_ast_t *a, clingo_ast_attribute_t attr, size_t i, clingo_ast_t *x) {
    auto *v = get(a, attr, clingo_ast_attribute_type_ast_array);
    if (!v || !range(i <= v->nodes.size())) return false;
    ++N(x)->refs;
    v->nodes.insert(v->nodes.begin() + i, N(x));
    return true;
}
bool clingo_ast_attribute_get_string_at(clingo_ast_t *a, clingo_ast_attribute_t attr, size_t i, char const **r) {
    auto *v = get(a, attr, clingo_ast_attribute_type_string_array);
    if (!v || !range(i < v->strs.size())) return false;
    *r = v->strs[i].c_str();
    return true;
}
bool clingo_ast_attribute_set_string_at(clingo_ast_t *a, clingo_ast_attribute_t attr, size_t i, char const *x) {
    auto *v = get(a, attr, clingo_ast_attribute_type_string_array);
    if (!v || !range(i < v->strs.size())) return false;
    v->strs[i] = x;
    return true;
}
bool clingo_ast_attribute_delete_string_at(clingo_ast_t *a, clingo_ast_attribute_t attr, size_t i) {
    auto *v = get(a, attr, clingo_ast_attribute_type_string_array);
    if (!v || !range(i < v->strs.size())) return false;
    v->strs.erase(v->strs.begin() + i);
    return true;
}
bool clingo_ast_attribute_size_string_array(clingo_ast_t *a, clingo_ast_attribute_t attr, size_t *n) {
    auto *v = get(a, attr, clingo_ast_attribute_type_string_array);
    return v && (*n = v->strs.size(), true);
}
bool clingo_ast_attribute_insert_string_at(clingo_ast_t *a, clingo_ast_attribute_t attr, size_t i, char const *x) {
    auto *v = get(a, attr, clingo_ast_attribute_type_string_array);
    if (!v || !range(i <= v->strs.size())) return false;
    v->strs.insert(v->strs.begin() + i, x);
    return true;
}
bool clingo_ast_unpool(clingo_ast_t *a, clingo_ast_unpool_type_bitset_t, clingo_ast_callback_t cb, void *data) {
    if (pool().empty()) return cb(a, data);
    for (auto *n : pool())
        if (!cb(C(n), data)) return false;
    return true;
}
}
#endif
