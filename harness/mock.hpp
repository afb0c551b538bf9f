// A model of clingo's C API for harnesses: symbols, theory data, and a solver
// that follows the propagator protocol of clasp.  The code under test is the
// real code from /repo; only the library below its C interface is modelled.
//
// Protocol (as in clasp 3.3.x/clingo 5.6.x):
//  * literal 1 is the true literal; it is assigned on level 0
//  * propagate() is called with the watched literals that became true since
//    the last call, all of them on the current decision level
//  * undo() is called once for each level > 0 for which propagate() was called
//  * check() is called on fixpoints if the check mode asks for it
//  * a clause added during propagation makes add_clause() fail if it is
//    conflicting or unit on a smaller decision level
#ifndef MOCK_HPP
#define MOCK_HPP
#include "sym.h"
#include <clingo.h>
#include <clingo-dl.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace mock {

using lit = clingo_literal_t;

// ---------------------------------------------------------------- symbols
struct Sym {
    int type;
    int num;
    bool pos;
    std::string str;
    std::vector<clingo_symbol_t> args;
};
inline std::vector<Sym> &syms() {
    static std::vector<Sym> *s = new std::vector<Sym>();
    return *s;
}
inline Sym &sym(clingo_symbol_t s) {
    if (s == 0 || s > syms().size()) sym_fail("mock: invalid symbol handle");
    return syms()[s - 1];
}
inline clingo_symbol_t addSym(int type, int num, char const *str, clingo_symbol_t const *args, size_t n, bool pos) {
    Sym x;
    x.type = type;
    x.num = num;
    x.pos = pos;
    x.str = str;
    for (size_t i = 0; i < n; ++i) x.args.push_back(args[i]);
    syms().push_back(x);
    return syms().size();
}
inline clingo_symbol_t num(int n) { return addSym(clingo_symbol_type_number, n, "", nullptr, 0, true); }
inline clingo_symbol_t fun(char const *name, std::vector<clingo_symbol_t> args = {}, bool pos = true) {
    return addSym(clingo_symbol_type_function, 0, name, args.data(), args.size(), pos);
}
inline clingo_symbol_t str(char const *s) { return addSym(clingo_symbol_type_string, 0, s, nullptr, 0, true); }
inline bool symEq(clingo_symbol_t a, clingo_symbol_t b) {
    if (a == b) return true;
    Sym &x = sym(a), &y = sym(b);
    if (x.type != y.type) return false;
    if (x.type == clingo_symbol_type_number) return x.num == y.num;
    if (x.pos != y.pos || x.args.size() != y.args.size() || x.str != y.str) return false;
    for (size_t i = 0; i < x.args.size(); ++i)
        if (!symEq(x.args[i], y.args[i])) return false;
    return true;
}
inline size_t symHash(clingo_symbol_t a) {
    Sym &x = sym(a);
    size_t h = (size_t)x.type * 31 + x.args.size() * 7 + (x.pos ? 1 : 0);
    if (x.type == clingo_symbol_type_number) return h; // numbers may be symbolic
    h = h * 131 + x.str.size(); // (so may be characters)
    for (auto s : x.args) h = h * 17 + symHash(s);
    return h;
}

// ---------------------------------------------------------------- theory data
struct Term {
    int type;
    int num;
    std::string name;
    std::vector<clingo_id_t> args;
};
struct Elem {
    std::vector<clingo_id_t> tuple;
    std::vector<lit> cond;
};
struct Atom {
    clingo_id_t term;
    std::vector<clingo_id_t> elems;
    bool guard;
    std::string rel;
    clingo_id_t rhs;
    lit literal;
};
struct Theory {
    std::vector<Term> terms;
    std::vector<Elem> elems;
    std::vector<Atom> atoms;
    clingo_id_t term(int type, int n, char const *name, std::vector<clingo_id_t> args = {}) {
        Term t;
        t.type = type;
        t.num = n;
        t.name = name;
        t.args = args;
        terms.push_back(t);
        return terms.size() - 1;
    }
    clingo_id_t num(int n) { return term(clingo_theory_term_type_number, n, ""); }
    clingo_id_t id(char const *name) { return term(clingo_theory_term_type_symbol, 0, name); }
    clingo_id_t fun(char const *name, std::vector<clingo_id_t> args) { return term(clingo_theory_term_type_function, 0, name, args); }
    clingo_id_t tuple(std::vector<clingo_id_t> args) { return term(clingo_theory_term_type_tuple, 0, "", args); }
    // add atom &name { elem } rel rhs
    int diff(bool body, clingo_id_t elem, char const *rel, clingo_id_t rhs, lit l) {
        Elem e;
        e.tuple.push_back(elem);
        elems.push_back(e);
        Atom a;
        a.term = id(body ? "__diff_b" : "__diff_h");
        a.elems.push_back(elems.size() - 1);
        a.guard = true;
        a.rel = rel;
        a.rhs = rhs;
        a.literal = l;
        atoms.push_back(a);
        return atoms.size() - 1;
    }
};

// ---------------------------------------------------------------- solver
struct Solver;
struct Host;

// what a harness may want to observe
struct Observer {
    // a clause added by the propagator during search
    virtual void lemma(Solver &s, lit const *c, size_t n) { (void)s, (void)c, (void)n; }
    // a clause added by the propagator during initialization
    virtual void initClause(lit const *c, size_t n) { (void)c, (void)n; }
    virtual ~Observer() {}
};

enum Result { OK = 0, CONFLICT = 1, FAILED = 2 };

// one solver thread
struct Solver {
    Host *host = nullptr;
    unsigned thread = 0;
    std::vector<signed char> val; // per variable
    std::vector<unsigned> lev;
    std::vector<lit> trail;
    std::vector<size_t> levBegin;       // trail index at which level i starts
    std::vector<lit> decision;          // decision literal of each level
    std::vector<std::vector<lit>> learned;
    std::vector<lit> watched;           // watched literals
    std::vector<lit> queue;             // watched literals that became true
    size_t qhead = 0;                   // next literal to propagate
    std::vector<size_t> undoBegin;      // per level: first queue index or -1
    long front = -1;
    int backjump = -1;                  // pending backjump
    std::vector<lit> pending;           // pending clause
    bool conflict = false;
    bool failed = false; // a callback reported an error
    unsigned calls = 0;
    bool inPropagate = false;
    int batch = 0; // 0: all literals at once, 1: one by one, 2: nondeterministic

    unsigned level() const { return levBegin.size() - 1; }
    int value(lit l) const { return l > 0 ? val[l] : -val[-l]; }
    bool isWatched(lit l) const {
        for (lit w : watched)
            if (w == l) return true;
        return false;
    }
    void watch(lit l) {
        if (!isWatched(l)) watched.push_back(l);
    }
    void unwatch(lit l) {
        for (size_t i = 0; i < watched.size(); ++i)
            if (watched[i] == l) {
                watched.erase(watched.begin() + i);
                return;
            }
    }
    void assign(lit l) {
        val[l > 0 ? l : -l] = l > 0 ? 1 : -1;
        lev[l > 0 ? l : -l] = level();
        trail.push_back(l);
        if (isWatched(l)) queue.push_back(l);
    }
    size_t assigned() const { return trail.size(); }
    bool total() const;
    void undoUntil(unsigned l);
    bool unit(); // unit propagation, false on conflict
    Result callPropagate();
    Result callCheck();
    Result fixpoint(); // propagate until fixpoint
    void decide(lit l) {
        levBegin.push_back(trail.size());
        decision.push_back(l);
        undoBegin.push_back((size_t)-1);
        assign(l);
    }
    bool addClause(lit const *c, size_t n);
    // resolve a conflict by learning the negated decisions, false if unsatisfiable
    bool resolve() {
        unsigned c = backjump < 0 ? level() : (unsigned)backjump;
        if (c == 0) return false;
        std::vector<lit> cl;
        undoUntil(c);
        for (unsigned i = 1; i <= c; ++i) cl.push_back(-decision[i]);
        undoUntil(c - 1);
        learned.push_back(cl);
        conflict = false;
        backjump = -1;
        return true;
    }
    bool unitClause(std::vector<lit> const &c, bool &confl);
};

// the host: data shared by all threads
struct Host {
    Theory theory;
    unsigned threads = 1;
    int nvars = 1;
    std::vector<std::vector<lit>> clauses;
    std::vector<std::vector<lit>> initWatches; // per thread
    std::vector<Solver *> solvers;
    std::vector<lit> aspif; // program literal -> solver literal (index 1..), 0 means same
    Observer *obs = nullptr;
    bool topConflict = false;
    bool haveProp = false;
    clingo_propagator_t prop{};
    void *propData = nullptr;
    int checkMode = clingo_propagator_check_mode_total;
    Solver init; // assignment during initialization
    int batch = 0;
    unsigned registered = 0;
    // data for models, statistics, options
    unsigned modelThread = 0;
    std::vector<clingo_symbol_t> model;

    Host() {
        init.host = this;
        init.levBegin.push_back(0);
        init.decision.push_back(0);
        init.undoBegin.push_back((size_t)-1);
        grow(init);
        init.assign(1);
    }
    int newVar() {
        ++nvars;
        grow(init);
        for (auto *s : solvers) grow(*s);
        return nvars;
    }
    void grow(Solver &s) {
        while ((int)s.val.size() < nvars + 1) {
            s.val.push_back(0);
            s.lev.push_back(0);
        }
    }
    lit map(lit l) {
        lit v = l > 0 ? l : -l;
        lit m = (size_t)v < aspif.size() && aspif[v] != 0 ? aspif[v] : v;
        return l > 0 ? m : -m;
    }
    bool callInit();
    // create the solver of a thread once initialization is done
    Solver &start(unsigned thread = 0);
    // begin the next solving step: the top level assignment is kept
    void nextStep() {
        Solver &s = *solvers[0];
        s.undoUntil(0);
        init.trail.clear();
        for (auto &x : init.val) x = 0;
        for (lit l : s.trail) {
            init.val[l > 0 ? l : -l] = l > 0 ? 1 : -1;
            init.trail.push_back(l);
        }
    }
    // continue with an existing solver after initialization
    Solver &resume(unsigned thread = 0) {
        Solver &s = *solvers[thread];
        grow(s);
        s.front = -1;
        for (lit l : initWatches[thread]) {
            if (s.isWatched(l)) continue;
            s.watch(l);
            if (s.value(l) > 0) s.queue.push_back(l);
        }
        for (lit l : init.trail)
            if (s.value(l) == 0) s.assign(l);
        return s;
    }
    bool initUnit() {
        // only facts are propagated during initialization
        return !topConflict;
    }
};

inline Host *&host() {
    static Host *h = nullptr;
    return h;
}
inline std::string &lastError() {
    static std::string *s = new std::string();
    return *s;
}
inline int &lastCode() {
    static int c = 0;
    return c;
}

// let the n-th call of a function of the library fail (0: never)
struct Fault {
    long at = 0, calls = 0;
    bool hit = false;
};
inline Fault &faults() {
    static Fault *f = new Fault();
    return *f;
}
inline bool fault() {
    auto &f = faults();
    if (++f.calls != f.at) return false;
    f.hit = true;
    lastCode() = clingo_error_bad_alloc;
    lastError() = "injected";
    return true;
}

inline bool Solver::total() const { return (int)trail.size() == host->nvars; }

inline void Solver::undoUntil(unsigned l) {
    while (level() > l) {
        size_t b = undoBegin.back();
        if (b != (size_t)-1 && qhead > b) {
            std::vector<lit> ch(queue.begin() + b, queue.begin() + qhead);
            host->prop.undo(reinterpret_cast<clingo_propagate_control_t const *>(this), ch.data(), ch.size(), host->propData);
            qhead = b;
        }
        // drop unprocessed literals of this level
        while (trail.size() > levBegin.back()) {
            lit x = trail.back();
            trail.pop_back();
            val[x > 0 ? x : -x] = 0;
            if (!queue.empty() && queue.back() == x) queue.pop_back();
        }
        if (qhead > queue.size()) qhead = queue.size();
        levBegin.pop_back();
        decision.pop_back();
        undoBegin.pop_back();
    }
    front = -1;
}

// returns true if something was assigned
inline bool Solver::unitClause(std::vector<lit> const &c, bool &confl) {
    lit free = 0;
    int n = 0;
    for (lit l : c) {
        int v = value(l);
        if (v > 0) return false;
        if (v == 0) {
            if (free != l) ++n;
            free = l;
        }
    }
    if (n == 0) {
        confl = true;
        return false;
    }
    if (n == 1) {
        assign(free);
        return true;
    }
    return false;
}

inline bool Solver::unit() {
    bool again = true;
    while (again) {
        again = false;
        bool confl = false;
        for (auto &c : host->clauses) {
            again = unitClause(c, confl) || again;
            if (confl) return false;
        }
        for (auto &c : learned) {
            again = unitClause(c, confl) || again;
            if (confl) return false;
        }
    }
    return true;
}

inline bool Solver::addClause(lit const *c, size_t n) {
    if (conflict || backjump >= 0) sym_fail("clause added on a conflicting assignment");
    if (host->obs) host->obs->lemma(*this, c, n);
    std::vector<lit> cl(c, c + n);
    // find the two best literals
    bool sat = false;
    int nfree = 0;
    unsigned m0 = 0, m1 = 0; // two largest levels of false literals
    lit last = 0;
    for (lit l : cl) {
        int v = value(l);
        if (v > 0) sat = true;
        else if (v == 0) {
            if (l != last) ++nfree;
            last = l;
        } else {
            unsigned x = lev[l > 0 ? l : -l];
            if (x > m0) {
                m1 = m0;
                m0 = x;
            } else if (x > m1) m1 = x;
        }
    }
    learned.push_back(cl);
    if (sat) return true;
    if (nfree == 0) {
        conflict = true;
        backjump = (int)m0; // conflict on level m0
        return false;
    }
    if (nfree == 1) {
        if (m0 < level()) {
            backjump = (int)m0;
            return false;
        }
    }
    return true;
}

inline Result Solver::callPropagate() {
    if (undoBegin.back() == (size_t)-1) undoBegin.back() = qhead;
    size_t n = queue.size() - qhead;
    if (batch == 1) n = 1;
    if (batch == 2 && n > 1) n = 1 + sym_choose("batch", n);
    std::vector<lit> ch(queue.begin() + qhead, queue.begin() + qhead + n);
    qhead += n;
    ++calls;
    inPropagate = true;
    bool r = host->prop.propagate(reinterpret_cast<clingo_propagate_control_t *>(this), ch.data(), ch.size(), host->propData);
    inPropagate = false;
    if (!r) {
        failed = true;
        return FAILED;
    }
    return OK;
}
inline Result Solver::callCheck() {
    bool r = host->prop.check(reinterpret_cast<clingo_propagate_control_t *>(this), host->propData);
    if (!r) {
        failed = true;
        return FAILED;
    }
    return OK;
}

inline Result Solver::fixpoint() {
    int steps = 0;
    for (;;) {
        if (++steps > 200) sym_fail("propagation does not reach a fixpoint");
        if (conflict) return CONFLICT;
        if (backjump >= 0) {
            // clause is unit on a smaller level
            unsigned l = backjump;
            backjump = -1;
            undoUntil(l);
            continue;
        }
        if (!unit()) {
            conflict = true;
            backjump = (int)level();
            return CONFLICT;
        }
        if (qhead < queue.size()) {
            if (callPropagate() == FAILED) return FAILED;
        } else if ((host->checkMode & clingo_propagator_check_mode_fixpoint) != 0 && front != (long)trail.size()) {
            front = (long)trail.size();
            if (callCheck() == FAILED) return FAILED;
        } else {
            break;
        }
    }
    if (total() && (host->checkMode & clingo_propagator_check_mode_total) != 0) {
        if (callCheck() == FAILED) return FAILED;
    }
    return OK;
}

inline bool Host::callInit() {
    initWatches.clear();
    initWatches.resize(threads);
    return prop.init(reinterpret_cast<clingo_propagate_init_t *>(this), propData);
}

inline Solver &Host::start(unsigned thread) {
    Solver *s = new Solver();
    s->host = this;
    s->thread = thread;
    s->batch = batch;
    s->levBegin.push_back(0);
    s->decision.push_back(0);
    s->undoBegin.push_back((size_t)-1);
    grow(*s);
    for (lit l : initWatches[thread]) s->watch(l);
    for (lit l : init.trail) s->assign(l);
    while (solvers.size() <= thread) solvers.push_back(nullptr);
    solvers[thread] = s;
    return *s;
}

} // namespace mock

// ---------------------------------------------------------------- C interface
using namespace mock;

extern "C" {
clingo_error_t clingo_error_code() { return lastCode(); }
char const *clingo_error_message() { return lastCode() == 0 ? nullptr : lastError().c_str(); }
char const *clingo_error_string(clingo_error_t) { return "error"; }
void clingo_set_error(clingo_error_t code, char const *msg) {
    lastCode() = code;
    lastError() = msg != nullptr ? msg : "";
}

void clingo_symbol_create_number(int n, clingo_symbol_t *s) { *s = mock::num(n); }
bool clingo_symbol_create_string(char const *x, clingo_symbol_t *s) {
    if (fault()) return false;
    *s = mock::str(x);
    return true;
}
bool clingo_symbol_create_id(char const *x, bool pos, clingo_symbol_t *s) {
    if (fault()) return false;
    *s = addSym(clingo_symbol_type_function, 0, x, nullptr, 0, pos);
    return true;
}
bool clingo_symbol_create_function(char const *x, clingo_symbol_t const *args, size_t n, bool pos, clingo_symbol_t *s) {
    if (fault()) return false;
    *s = addSym(clingo_symbol_type_function, 0, x, args, n, pos);
    return true;
}
void clingo_symbol_create_infimum(clingo_symbol_t *s) { *s = addSym(clingo_symbol_type_infimum, 0, "", nullptr, 0, true); }
void clingo_symbol_create_supremum(clingo_symbol_t *s) { *s = addSym(clingo_symbol_type_supremum, 0, "", nullptr, 0, true); }
bool clingo_symbol_number(clingo_symbol_t s, int *n) {
    if (fault()) return false;
    if (sym(s).type != clingo_symbol_type_number) {
        clingo_set_error(clingo_error_runtime, "unexpected");
        return false;
    }
    *n = sym(s).num;
    return true;
}
// (the characters can be symbolic)
static char const *keep(std::string const &s) {
    auto *r = new char[s.size() + 1];
    for (size_t i = 0; i < s.size(); ++i) r[i] = s[i];
    r[s.size()] = 0;
    return r;
}
bool clingo_symbol_name(clingo_symbol_t s, char const **x) {
    if (fault()) return false;
    if (sym(s).type != clingo_symbol_type_function) {
        clingo_set_error(clingo_error_runtime, "unexpected");
        return false;
    }
    *x = keep(sym(s).str.c_str());
    return true;
}
bool clingo_symbol_string(clingo_symbol_t s, char const **x) {
    if (fault()) return false;
    if (sym(s).type != clingo_symbol_type_string) {
        clingo_set_error(clingo_error_runtime, "unexpected");
        return false;
    }
    *x = keep(sym(s).str.c_str());
    return true;
}
bool clingo_symbol_is_positive(clingo_symbol_t s, bool *p) {
    if (fault()) return false;
    *p = sym(s).pos;
    return true;
}
bool clingo_symbol_is_negative(clingo_symbol_t s, bool *p) {
    if (fault()) return false;
    *p = !sym(s).pos;
    return true;
}
bool clingo_symbol_arguments(clingo_symbol_t s, clingo_symbol_t const **a, size_t *n) {
    if (fault()) return false;
    if (sym(s).type != clingo_symbol_type_function) {
        clingo_set_error(clingo_error_runtime, "unexpected");
        return false;
    }
    auto *v = new std::vector<clingo_symbol_t>(sym(s).args);
    *a = v->data();
    *n = v->size();
    return true;
}
clingo_symbol_type_t clingo_symbol_type(clingo_symbol_t s) { return sym(s).type; }
bool clingo_symbol_is_equal_to(clingo_symbol_t a, clingo_symbol_t b) { return symEq(a, b); }
bool clingo_symbol_is_less_than(clingo_symbol_t a, clingo_symbol_t b) { return !symEq(a, b) && a < b; }
size_t clingo_symbol_hash(clingo_symbol_t a) { return symHash(a); }
bool clingo_add_string(char const *s, char const **r) {
    if (fault()) return false;
    *r = keep(s);
    return true;
}

#define TH(a) (reinterpret_cast<Theory const *>(a))
bool clingo_theory_atoms_term_type(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_theory_term_type_t *r) {
    if (fault()) return false;
    *r = TH(a)->terms[t].type;
    return true;
}
bool clingo_theory_atoms_term_number(clingo_theory_atoms_t const *a, clingo_id_t t, int *r) {
    if (fault()) return false;
    if (TH(a)->terms[t].type != clingo_theory_term_type_number) return clingo_set_error(clingo_error_runtime, "not a number"), false;
    *r = TH(a)->terms[t].num;
    return true;
}
bool clingo_theory_atoms_term_name(clingo_theory_atoms_t const *a, clingo_id_t t, char const **r) {
    if (fault()) return false;
    int ty = TH(a)->terms[t].type;
    if (ty != clingo_theory_term_type_symbol && ty != clingo_theory_term_type_function) return clingo_set_error(clingo_error_runtime, "no name"), false;
    *r = TH(a)->terms[t].name.c_str();
    return true;
}
bool clingo_theory_atoms_term_arguments(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_id_t const **r, size_t *n) {
    if (fault()) return false;
    int ty = TH(a)->terms[t].type;
    if (ty == clingo_theory_term_type_number || ty == clingo_theory_term_type_symbol) return clingo_set_error(clingo_error_runtime, "no arguments"), false;
    *r = TH(a)->terms[t].args.data();
    *n = TH(a)->terms[t].args.size();
    return true;
}
bool clingo_theory_atoms_element_tuple(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_id_t const **r, size_t *n) {
    if (fault()) return false;
    *r = TH(a)->elems[e].tuple.data();
    *n = TH(a)->elems[e].tuple.size();
    return true;
}
bool clingo_theory_atoms_element_condition(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_literal_t const **r, size_t *n) {
    if (fault()) return false;
    *r = TH(a)->elems[e].cond.data();
    *n = TH(a)->elems[e].cond.size();
    return true;
}
bool clingo_theory_atoms_size(clingo_theory_atoms_t const *a, size_t *n) {
    if (fault()) return false;
    *n = TH(a)->atoms.size();
    return true;
}
bool clingo_theory_atoms_atom_term(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_id_t *t) {
    if (fault()) return false;
    *t = TH(a)->atoms[x].term;
    return true;
}
bool clingo_theory_atoms_atom_elements(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_id_t const **r, size_t *n) {
    if (fault()) return false;
    *r = TH(a)->atoms[x].elems.data();
    *n = TH(a)->atoms[x].elems.size();
    return true;
}
bool clingo_theory_atoms_atom_has_guard(clingo_theory_atoms_t const *a, clingo_id_t x, bool *r) {
    if (fault()) return false;
    *r = TH(a)->atoms[x].guard;
    return true;
}
bool clingo_theory_atoms_atom_guard(clingo_theory_atoms_t const *a, clingo_id_t x, char const **c, clingo_id_t *t) {
    if (fault()) return false;
    if (!TH(a)->atoms[x].guard) return clingo_set_error(clingo_error_runtime, "no guard"), false;
    *c = TH(a)->atoms[x].rel.c_str();
    *t = TH(a)->atoms[x].rhs;
    return true;
}
bool clingo_theory_atoms_atom_literal(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_literal_t *l) {
    if (fault()) return false;
    *l = TH(a)->atoms[x].literal;
    return true;
}

#define AS(a) (reinterpret_cast<Solver const *>(a))
uint32_t clingo_assignment_decision_level(clingo_assignment_t const *a) { return AS(a)->level(); }
uint32_t clingo_assignment_root_level(clingo_assignment_t const *) { return 0; }
bool clingo_assignment_has_conflict(clingo_assignment_t const *a) { return AS(a)->conflict; }
static bool checkLit(clingo_assignment_t const *a, lit l) {
    if (l == 0 || (l > 0 ? l : -l) > AS(a)->host->nvars) {
        clingo_set_error(clingo_error_logic, "invalid literal");
        return false;
    }
    return true;
}
bool clingo_assignment_has_literal(clingo_assignment_t const *a, clingo_literal_t l) { return l != 0 && (l > 0 ? l : -l) <= AS(a)->host->nvars; }
bool clingo_assignment_level(clingo_assignment_t const *a, clingo_literal_t l, uint32_t *r) {
    if (fault()) return false;
    if (!checkLit(a, l)) return false;
    *r = AS(a)->lev[l > 0 ? l : -l];
    return true;
}
bool clingo_assignment_decision(clingo_assignment_t const *a, uint32_t l, clingo_literal_t *r) {
    if (fault()) return false;
    *r = l == 0 ? 1 : AS(a)->decision[l];
    return true;
}
bool clingo_assignment_is_fixed(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    if (fault()) return false;
    if (!checkLit(a, l)) return false;
    *r = AS(a)->value(l) != 0 && AS(a)->lev[l > 0 ? l : -l] == 0;
    return true;
}
bool clingo_assignment_is_true(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    if (fault()) return false;
    if (!checkLit(a, l)) return false;
    *r = AS(a)->value(l) > 0;
    return true;
}
bool clingo_assignment_is_false(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    if (fault()) return false;
    if (!checkLit(a, l)) return false;
    *r = AS(a)->value(l) < 0;
    return true;
}
bool clingo_assignment_truth_value(clingo_assignment_t const *a, clingo_literal_t l, clingo_truth_value_t *r) {
    if (fault()) return false;
    if (!checkLit(a, l)) return false;
    int v = AS(a)->value(l);
    *r = v > 0 ? clingo_truth_value_true : v < 0 ? clingo_truth_value_false : clingo_truth_value_free;
    return true;
}
size_t clingo_assignment_size(clingo_assignment_t const *a) { return AS(a)->host->nvars; }
bool clingo_assignment_at(clingo_assignment_t const *a, size_t i, clingo_literal_t *l) {
    if (fault()) return false;
    (void)a;
    *l = i + 1;
    return true;
}
bool clingo_assignment_is_total(clingo_assignment_t const *a) { return AS(a)->total(); }
bool clingo_assignment_trail_size(clingo_assignment_t const *a, uint32_t *n) {
    if (fault()) return false;
    *n = AS(a)->trail.size();
    return true;
}
bool clingo_assignment_trail_begin(clingo_assignment_t const *a, uint32_t l, uint32_t *n) {
    if (fault()) return false;
    *n = AS(a)->levBegin[l];
    return true;
}
bool clingo_assignment_trail_end(clingo_assignment_t const *a, uint32_t l, uint32_t *n) {
    if (fault()) return false;
    *n = l < AS(a)->level() ? AS(a)->levBegin[l + 1] : AS(a)->trail.size();
    return true;
}
bool clingo_assignment_trail_at(clingo_assignment_t const *a, uint32_t i, clingo_literal_t *l) {
    if (fault()) return false;
    *l = AS(a)->trail[i];
    return true;
}

#define IN(i) (reinterpret_cast<Host *>(i))
#define CIN(i) (const_cast<Host *>(reinterpret_cast<Host const *>(i)))
bool clingo_propagate_init_solver_literal(clingo_propagate_init_t const *i, clingo_literal_t l, clingo_literal_t *r) {
    if (fault()) return false;
    *r = CIN(i)->map(l);
    return true;
}
bool clingo_propagate_init_add_watch_to_thread(clingo_propagate_init_t *i, clingo_literal_t l, clingo_id_t t) {
    if (fault()) return false;
    if (t >= IN(i)->threads) sym_fail("watch for a thread that does not exist");
    IN(i)->initWatches[t].push_back(l);
    return true;
}
bool clingo_propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    if (fault()) return false;
    for (unsigned t = 0; t < IN(i)->threads; ++t) IN(i)->initWatches[t].push_back(l);
    return true;
}
bool clingo_propagate_init_remove_watch_from_thread(clingo_propagate_init_t *i, clingo_literal_t l, uint32_t t) {
    if (fault()) return false;
    auto &w = IN(i)->initWatches[t];
    for (size_t k = 0; k < w.size();) {
        if (w[k] == l) w.erase(w.begin() + k);
        else ++k;
    }
    return true;
}
bool clingo_propagate_init_remove_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    if (fault()) return false;
    for (unsigned t = 0; t < IN(i)->threads; ++t) clingo_propagate_init_remove_watch_from_thread(i, l, t);
    return true;
}
bool clingo_propagate_init_freeze_literal(clingo_propagate_init_t *, clingo_literal_t) {
    if (fault()) return false;
    return true;
}
bool clingo_propagate_init_theory_atoms(clingo_propagate_init_t const *i, clingo_theory_atoms_t const **a) {
    if (fault()) return false;
    *a = reinterpret_cast<clingo_theory_atoms_t const *>(&CIN(i)->theory);
    return true;
}
int clingo_propagate_init_number_of_threads(clingo_propagate_init_t const *i) { return (int)CIN(i)->threads; }
void clingo_propagate_init_set_check_mode(clingo_propagate_init_t *i, clingo_propagator_check_mode_t m) { IN(i)->checkMode = m; }
clingo_propagator_check_mode_t clingo_propagate_init_get_check_mode(clingo_propagate_init_t const *i) { return CIN(i)->checkMode; }
clingo_assignment_t const *clingo_propagate_init_assignment(clingo_propagate_init_t const *i) {
    return reinterpret_cast<clingo_assignment_t const *>(&CIN(i)->init);
}
bool clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool, clingo_literal_t *r) {
    if (fault()) return false;
    *r = IN(i)->newVar();
    return true;
}
bool clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *c, size_t n, bool *r) {
    if (fault()) return false;
    Host *h = IN(i);
    if (h->topConflict) {
        *r = false;
        return true;
    }
    for (size_t k = 0; k < n; ++k)
        if (!checkLit(reinterpret_cast<clingo_assignment_t const *>(&h->init), c[k])) return false;
    if (h->obs) h->obs->initClause(c, n);
    std::vector<lit> cl(c, c + n);
    h->clauses.push_back(cl);
    // clasp assigns units right away (and propagates them later)
    bool confl = false;
    h->init.unitClause(cl, confl);
    if (confl) h->topConflict = true;
    *r = !confl;
    return true;
}
bool clingo_propagate_init_propagate(clingo_propagate_init_t *i, bool *r) {
    if (fault()) return false;
    Host *h = IN(i);
    bool again = true;
    while (again && !h->topConflict) {
        again = false;
        for (auto &c : h->clauses) again = h->init.unitClause(c, h->topConflict) || again;
    }
    *r = !h->topConflict;
    return true;
}

#define CT(c) (reinterpret_cast<Solver *>(c))
#define CCT(c) (const_cast<Solver *>(reinterpret_cast<Solver const *>(c)))
clingo_id_t clingo_propagate_control_thread_id(clingo_propagate_control_t const *c) { return CCT(c)->thread; }
clingo_assignment_t const *clingo_propagate_control_assignment(clingo_propagate_control_t const *c) {
    return reinterpret_cast<clingo_assignment_t const *>(CCT(c));
}
bool clingo_propagate_control_add_literal(clingo_propagate_control_t *c, clingo_literal_t *r) {
    if (fault()) return false;
    *r = CT(c)->host->newVar();
    return true;
}
bool clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) {
    if (fault()) return false;
    CT(c)->watch(l);
    return true;
}
bool clingo_propagate_control_has_watch(clingo_propagate_control_t const *c, clingo_literal_t l) { return CCT(c)->isWatched(l); }
void clingo_propagate_control_remove_watch(clingo_propagate_control_t *c, clingo_literal_t l) { CT(c)->unwatch(l); }
bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *cl, size_t n, clingo_clause_type_t, bool *r) {
    if (fault()) return false;
    for (size_t k = 0; k < n; ++k)
        if (!checkLit(clingo_propagate_control_assignment(c), cl[k])) return false;
    *r = CT(c)->addClause(cl, n);
    return true;
}
bool clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *r) {
    if (fault()) return false;
    Solver *s = CT(c);
    if (s->conflict || s->backjump >= 0) {
        *r = false;
        return true;
    }
    *r = s->unit();
    if (!*r) {
        s->conflict = true;
        s->backjump = (int)s->level();
    }
    return true;
}

bool clingo_control_add(clingo_control_t *, char const *, char const *const *, size_t, char const *) {
    if (fault()) return false;
    return true;
}
bool clingo_control_register_propagator(clingo_control_t *c, clingo_propagator_t const *p, void *data, bool) {
    if (fault()) return false;
    Host *h = reinterpret_cast<Host *>(c);
    h->haveProp = true;
    h->registered++;
    h->prop = *p;
    h->propData = data;
    return true;
}
bool clingo_model_thread_id(clingo_model_t const *m, clingo_id_t *r) {
    if (fault()) return false;
    *r = CIN(m)->modelThread;
    return true;
}
bool clingo_model_extend(clingo_model_t *m, clingo_symbol_t const *s, size_t n) {
    if (fault()) return false;
    for (size_t i = 0; i < n; ++i) IN(m)->model.push_back(s[i]);
    return true;
}
}
#endif
