// Minimization: the application is run with a solver that may answer with any
// attainable value of the variable that satisfies the bounds added so far.
#define main clingodl_main
#include "mock.hpp"
#include <cctype>
#include <clingo.hh>
#include <climits>

// the real application
#include "app/src/main.cc"

namespace {

using mock::num;
using mock::symEq;

constexpr int VB = 1 << 30;
constexpr uint32_t THREAD = 3;
constexpr size_t INDEX = 5;

// ------------------------------------------- program added by the optimizer
struct Rule {
    bool external = false;
    std::string lhs[2];           // lhs[0] - lhs[1] rel rhs
    std::string rel, rhs;
    std::string cond, condArg;    // condition
};
struct Part {
    std::string name;
    std::vector<std::string> params;
    std::vector<Rule> rules;
};
[[noreturn]] void unknown() {
    sym_fail("harness: program of the optimizer not understood");
    abort();
}
struct Parser {
    std::string s;
    size_t at = 0;
    bool eat(char const *t) {
        size_t n = strlen(t);
        if (s.compare(at, n, t) != 0) return false;
        at += n;
        return true;
    }
    void need(char const *t) {
        if (!eat(t)) unknown();
    }
    std::string ident() {
        std::string r;
        while (at < s.size() && (isalnum((unsigned char)s[at]) || s[at] == '_')) r += s[at++];
        if (r.empty()) unknown();
        return r;
    }
    void rest(std::vector<Part> &parts) {
        while (at < s.size()) {
            if (eat("#program")) {
                Part p;
                p.name = ident();
                if (eat("(")) {
                    do p.params.push_back(ident());
                    while (eat(","));
                    need(")");
                }
                need(".");
                parts.push_back(p);
                continue;
            }
            Rule r;
            if (eat("#external")) {
                r.external = true;
                r.cond = ident();
                need("(");
                r.condArg = ident();
                need(")");
                need(".");
                need("[true]");
            }
            else {
                need("&diff{");
                r.lhs[0] = ident();
                r.lhs[1] = "0";
                if (eat("-")) r.lhs[1] = ident();
                need("}");
                while (at < s.size() && strchr("<>=!", s[at])) r.rel += s[at++];
                r.rhs = ident();
                if (eat(":-")) {
                    r.cond = ident();
                    need("(");
                    r.condArg = ident();
                    need(")");
                }
                need(".");
            }
            if (parts.empty()) unknown();
            parts.back().rules.push_back(r);
        }
    }
};

// ------------------------------------------------------------ what happened
struct External {
    std::string name;
    clingo_symbol_t arg;
    bool value;
};
struct Bound {
    int sign; // sign * variable <= value
    int64_t value;
    std::string cond;
    clingo_symbol_t condArg;
};
struct Run {
    std::vector<std::pair<std::string, std::string>> args; // command line
    bool lookup = true, assigned = true, integer = true;
    bool minimize = false;
    int initial = 0;          // number N on the command line
    std::vector<int> attain;  // attainable values in increasing order
    int interruptAt = -1;
    clingo_symbol_t variable = 0;

    std::vector<Part> parts;
    std::vector<External> externals;
    std::vector<Bound> bounds;
    bool broken = false;      // constraint not supported by the theory
    std::vector<std::string> grounded;
    int solves = 0;
    bool interrupted = false, finished = false, unsat = false;
    int result = 0;
    bool haveModel = false;
    int value = 0;            // value of the variable in the last model
    int theoryModels = 0, models = 0;
    bool rewritten = false, registered = false, validated = false, configured = false, destroyed = false;
    double stats[2][2];       // reported values: [step/accu][optimization/lower bound]
    bool have[2][2] = {};
    int statistics = 0;
    bool error = false;
    bool goon = true;
    std::string text;         // the statements being parsed
    bool building = false;
};
Run *run = nullptr;

bool satisfies(int x) {
    for (auto &b : run->bounds) {
        if (!b.cond.empty()) {
            bool on = false;
            for (auto &e : run->externals)
                if (e.name == b.cond && symEq(e.arg, b.condArg)) on = e.value;
            if (!on) continue;
        }
        if (b.sign * (int64_t)x > b.value) return false;
    }
    return true;
}

void groundPart(Part const &p, clingo_symbol_t const *params, size_t n) {
    if (n != p.params.size()) unknown();
    auto get = [&](std::string const &s) -> clingo_symbol_t {
        for (size_t i = 0; i < n; ++i)
            if (p.params[i] == s) return params[i];
        if (!s.empty() && isdigit((unsigned char)s[0])) return num(atoi(s.c_str()));
        return mock::fun(s.c_str());
    };
    for (auto &r : p.rules) {
        if (r.external) {
            auto a = get(r.condArg);
            bool old = false;
            for (auto &e : run->externals) old = old || (e.name == r.cond && symEq(e.arg, a));
            if (!old) run->externals.push_back({r.cond, a, true});
            continue;
        }
        Bound b;
        auto u = get(r.lhs[0]), v = get(r.lhs[1]), w = get(r.rhs);
        if (mock::sym(w).type != clingo_symbol_type_number) unknown();
        bool zero[2] = {mock::sym(u).type == clingo_symbol_type_number, mock::sym(v).type == clingo_symbol_type_number};
        int64_t c = mock::sym(w).num;
        // the theory does not support this number (see the check for C10)
        if (c == INT_MIN) run->broken = true;
        if (symEq(u, run->variable) && zero[1]) b.sign = 1, c += mock::sym(v).num;
        else if (symEq(v, run->variable) && zero[0]) b.sign = -1, c -= mock::sym(u).num;
        else continue; // does not concern the variable
        b.cond = r.cond;
        b.condArg = r.cond.empty() ? 0 : get(r.condArg);
        if (r.rel == "<=") b.value = c, run->bounds.push_back(b);
        else if (r.rel == "<") b.value = c - 1, run->bounds.push_back(b);
        else if (r.rel == ">=") b.sign = -b.sign, b.value = -c, run->bounds.push_back(b);
        else if (r.rel == ">") b.sign = -b.sign, b.value = -c - 1, run->bounds.push_back(b);
        else if (r.rel == "=") {
            b.value = c, run->bounds.push_back(b);
            b.sign = -b.sign, b.value = -c, run->bounds.push_back(b);
        }
        else unknown();
    }
}

struct Option {
    std::string name;
    bool (*parse)(char const *, void *);
    void *data;
};
std::vector<Option> *options = nullptr;

bool fail(char const *msg) {
    clingo_set_error(clingo_error_runtime, msg);
    return false;
}

} // namespace

// --------------------------------------------------------------- C interface
extern "C" {

// theory
bool clingodl_create(clingodl_theory_t **t) {
    *t = reinterpret_cast<clingodl_theory_t *>(run);
    return true;
}
bool clingodl_destroy(clingodl_theory_t *) { return run->destroyed = true; }
bool clingodl_register(clingodl_theory_t *, clingo_control_t *) { return run->registered = true; }
bool clingodl_register_options(clingodl_theory_t *, clingo_options_t *) { return run->configured = true; }
bool clingodl_validate_options(clingodl_theory_t *) { return run->validated = true; }
bool clingodl_rewrite_ast(clingodl_theory_t *, clingo_ast_t *ast, clingodl_ast_callback_t add, void *data) {
    run->rewritten = true;
    return add(ast, data);
}
bool clingodl_on_model(clingodl_theory_t *, clingo_model_t *) {
    sym_assert(run->haveModel, "answer given to the theory while there is none");
    ++run->theoryModels;
    return true;
}
bool clingodl_on_statistics(clingodl_theory_t *, clingo_statistics_t *, clingo_statistics_t *) {
    ++run->statistics;
    return true;
}
bool clingodl_lookup_symbol(clingodl_theory_t *, clingo_symbol_t s, size_t *index) {
    bool ok = run->lookup && symEq(s, run->variable);
    if (ok) *index = INDEX;
    return ok;
}
bool clingodl_assignment_has_value(clingodl_theory_t *, uint32_t thread, size_t index) {
    sym_assert(thread == THREAD && index == INDEX, "value of the wrong variable or thread used");
    return run->assigned;
}
void clingodl_assignment_get_value(clingodl_theory_t *, uint32_t thread, size_t index, clingodl_value_t *value) {
    sym_assert(thread == THREAD && index == INDEX, "value of the wrong variable or thread used");
    if (run->integer) value->type = clingodl_value_type_int, value->int_number = run->value;
    else value->type = clingodl_value_type_double, value->double_number = 0.5;
}

// options
bool clingo_options_add(clingo_options_t *, char const *, char const *option, char const *, bool (*parse)(char const *, void *), void *data, bool, char const *) {
    options->push_back({option, parse, data});
    return true;
}
bool clingo_parse_term(char const *str, clingo_logger_t, void *, unsigned, clingo_symbol_t *symbol) {
    // tuples of constants, f(1) and integers, where N is a symbolic number
    std::string s;
    for (; *str; ++str)
        if (*str != ' ') s += *str;
    if (s.size() < 2 || s[0] != '(' || s.back() != ')') return fail("parsing failed");
    std::vector<clingo_symbol_t> args;
    size_t at = 1;
    bool comma = false;
    while (s[at] != ')') {
        std::string t;
        int depth = 0;
        for (; at < s.size() && (depth > 0 || (s[at] != ',' && s[at] != ')')); ++at) {
            t += s[at];
            depth += s[at] == '(' ? 1 : s[at] == ')' ? -1 : 0;
        }
        if (at == s.size()) return fail("parsing failed");
        if (t.empty()) {
            if (args.empty() && s[at] == ',' && s[at + 1] == ')') { // the empty tuple
                ++at;
                break;
            }
            return fail("parsing failed");
        }
        if (t == "N") args.push_back(num(run->initial));
        else if (isdigit((unsigned char)t[0]) || t[0] == '-') args.push_back(num(atoi(t.c_str())));
        else if (t == "f(1)") args.push_back(mock::fun("f", {num(1)}));
        else if (t[0] == '"') args.push_back(mock::str("s"));
        else if (t[0] >= 'a' && t[0] <= 'z') args.push_back(mock::fun(t.c_str()));
        else return fail("parsing failed");
        if (s[at] == ',') ++at, comma = true;
        else break;
    }
    if (at + 1 != s.size()) return fail("parsing failed");
    *symbol = !comma && args.size() == 1 ? args[0] : mock::fun("", args);
    return true;
}

// programs
bool clingo_control_program_builder(clingo_control_t *, clingo_program_builder_t **b) {
    *b = reinterpret_cast<clingo_program_builder_t *>(run);
    return true;
}
bool clingo_program_builder_init(clingo_control_t *, clingo_program_builder_t **b) {
    *b = reinterpret_cast<clingo_program_builder_t *>(run);
    return true;
}
bool clingo_program_builder_begin(clingo_program_builder_t *) { return run->building = true; }
bool clingo_program_builder_end(clingo_program_builder_t *) {
    run->building = false;
    return true;
}
bool clingo_program_builder_add(clingo_program_builder_t *, clingo_ast_t *ast) {
    sym_assert(run->building, "statement added to builder that is not active");
    Parser p;
    for (char const *c = reinterpret_cast<char const *>(ast); *c; ++c)
        if (*c != ' ' && *c != '\n') p.s += *c;
    p.rest(run->parts);
    return true;
}
bool clingo_ast_parse_string(char const *str, clingo_ast_callback_t cb, void *data, clingo_control_t *, clingo_logger_t, void *, unsigned) {
    std::string s = str;
    return cb(reinterpret_cast<clingo_ast_t *>(const_cast<char *>(s.c_str())), data);
}
bool clingo_ast_parse_files(char const *const *, size_t n, clingo_ast_callback_t cb, void *data, clingo_control_t *, clingo_logger_t, void *, unsigned) {
    sym_assert(n == 1, "wrong number of files");
    std::string s = "#program base.";
    return cb(reinterpret_cast<clingo_ast_t *>(const_cast<char *>(s.c_str())), data);
}
bool clingo_control_ground(clingo_control_t *, clingo_part_t const *parts, size_t n, clingo_ground_callback_t, void *) {
    for (size_t i = 0; i < n; ++i) {
        run->grounded.push_back(parts[i].name);
        for (auto &p : run->parts)
            if (p.name == parts[i].name && p.params.size() == parts[i].size) groundPart(p, parts[i].params, parts[i].size);
    }
    return true;
}
bool clingo_control_release_external(clingo_control_t *, clingo_literal_t l) {
    if (l < 100 || (size_t)l - 100 >= run->externals.size()) return fail("no such external");
    run->externals[l - 100].value = false;
    return true;
}
bool clingo_symbolic_atoms_find(clingo_symbolic_atoms_t const *, clingo_symbol_t s, clingo_symbolic_atom_iterator_t *it) {
    *it = 0;
    auto &x = mock::sym(s);
    for (size_t i = 0; i < run->externals.size() && *it == 0; ++i)
        if (x.str == run->externals[i].name && x.args.size() == 1 && symEq(x.args[0], run->externals[i].arg)) *it = i + 1;
    return true;
}
bool clingo_symbolic_atoms_end(clingo_symbolic_atoms_t const *, clingo_symbolic_atom_iterator_t *it) {
    *it = 0;
    return true;
}
bool clingo_symbolic_atoms_iterator_is_equal_to(clingo_symbolic_atoms_t const *, clingo_symbolic_atom_iterator_t a, clingo_symbolic_atom_iterator_t b, bool *r) {
    *r = a == b;
    return true;
}
bool clingo_symbolic_atoms_literal(clingo_symbolic_atoms_t const *, clingo_symbolic_atom_iterator_t it, clingo_literal_t *l) {
    *l = it + 99;
    return true;
}
bool clingo_symbolic_atoms_is_valid(clingo_symbolic_atoms_t const *, clingo_symbolic_atom_iterator_t it, bool *r) {
    *r = it != 0;
    return true;
}
bool clingo_control_symbolic_atoms(clingo_control_t const *, clingo_symbolic_atoms_t const **atoms) {
    *atoms = reinterpret_cast<clingo_symbolic_atoms_t const *>(run);
    return true;
}

// solving
bool clingo_control_solve(clingo_control_t *, clingo_solve_mode_bitset_t, clingo_literal_t const *, size_t n, clingo_solve_event_callback_t notify, void *data, clingo_solve_handle_t **handle) {
    sym_assert(n == 0, "assumptions used");
    sym_assert(!run->finished && !run->interrupted, "solving goes on after the last call");
    *handle = reinterpret_cast<clingo_solve_handle_t *>(run);
    run->result = clingo_solve_result_exhausted | clingo_solve_result_unsatisfiable;
    sym_assert(++run->solves <= 60, "minimization does not end");
    if (run->broken) return fail("unsupported number");
    if (run->solves == run->interruptAt) {
        run->interrupted = true;
        run->result = clingo_solve_result_interrupted;
        return true;
    }
    bool goon = true;
    std::vector<int> can;
    for (int v : run->attain)
        if (satisfies(v)) can.push_back(v);
    while (!can.empty() && goon) {
        run->result = clingo_solve_result_satisfiable;
        size_t i = sym_choose("model", can.size());
        run->value = can[i];
        can.erase(can.begin() + i);
        run->haveModel = true;
        ++run->models;
        sym_reach("answer");
        if (!notify(clingo_solve_event_type_model, mock::host(), data, &goon)) return false;
        if (goon && sym_choose("stop", 2)) break; // requested number of models
    }
    if (run->result & clingo_solve_result_unsatisfiable) run->unsat = true;
    clingo_statistics_t *stats[2] = {reinterpret_cast<clingo_statistics_t *>(&run->stats[0]), reinterpret_cast<clingo_statistics_t *>(&run->stats[1])};
    for (auto &x : run->have) x[0] = x[1] = false;
    int before = run->statistics;
    if (!notify(clingo_solve_event_type_statistics, stats, data, &goon)) return false;
    sym_assert(run->statistics == before + 1, "statistics of the theory not added");
    for (int i = 0; i < 2; ++i) {
        if (run->minimize && run->haveModel) {
            sym_assert(run->have[i][0], "bound not reported");
            sym_assert(run->stats[i][0] == run->value, "wrong bound reported");
        }
        if (!run->haveModel) sym_assert(!run->have[i][0], "bound reported without an answer");
        if (run->have[i][1] && !run->attain.empty()) {
            sym_assert(run->stats[i][1] <= run->attain[0], "wrong lower bound reported");
            sym_reach("lower bound");
        }
    }
    int res = run->result;
    return notify(clingo_solve_event_type_finish, &res, data, &goon);
}
bool clingo_solve_handle_get(clingo_solve_handle_t *, clingo_solve_result_bitset_t *r) {
    *r = run->result;
    return true;
}
bool clingo_solve_handle_close(clingo_solve_handle_t *) { return true; }
bool clingo_solve_handle_cancel(clingo_solve_handle_t *) { return true; }
void clingo_solve_handle_wait(clingo_solve_handle_t *, double, bool *r) { *r = true; }
bool clingo_solve_handle_resume(clingo_solve_handle_t *) { return true; }

// statistics: keys 1 is the map of the theory, 2 and 3 the values
bool clingo_statistics_root(clingo_statistics_t const *, uint64_t *key) {
    *key = 0;
    return true;
}
bool clingo_statistics_map_add_subkey(clingo_statistics_t *s, uint64_t key, char const *name, clingo_statistics_type_t, uint64_t *subkey) {
    int w = reinterpret_cast<double *>(s) == run->stats[1];
    if (key == 0 && !strcmp(name, "DifferenceLogic")) *subkey = 1;
    else if (key == 1 && !strcmp(name, "Optimization")) *subkey = 2, run->have[w][0] = true;
    else if (key == 1 && !strcmp(name, "Lower bound")) *subkey = 3, run->have[w][1] = true;
    else *subkey = 4;
    return true;
}
bool clingo_statistics_value_set(clingo_statistics_t *s, uint64_t key, double v) {
    if (key == 2 || key == 3) reinterpret_cast<double *>(s)[key - 2] = v;
    return true;
}

// the main function of clingo
int clingo_main(clingo_application_t *app, char const *const *, size_t n, void *data) {
    sym_assert(n == 1, "wrong number of arguments");
    options = new std::vector<Option>();
    run->error = true;
    if (!app->register_options(nullptr, data)) return 1;
    for (auto &a : run->args) {
        bool found = false;
        for (auto &o : *options)
            if (o.name == a.first || o.name.compare(0, a.first.size() + 1, a.first + ",") == 0) {
                found = true;
                if (!o.parse(a.second.c_str(), o.data)) return 1;
                break;
            }
        sym_assert(found, "option does not exist");
    }
    if (!app->validate_options(data)) return 1;
    char const *files[] = {"program.lp"};
    if (!app->main(reinterpret_cast<clingo_control_t *>(run), files, 1, data)) return 1;
    run->error = false;
    return 0;
}
}

namespace {

struct Variant {
    std::vector<std::pair<std::string, std::string>> args;
    int k;              // number of attainable values
    enum Kind { PLAIN, MIN, REFUSED, NOLOOKUP, UNASSIGNED, REAL, STOP } kind;
    int name = 0;       // variable: s or f(1)
    bool initial = false;
};
size_t quick = 0;
std::vector<Variant> &variants() {
    static std::vector<Variant> *res = nullptr;
    if (res) return *res;
    res = new std::vector<Variant>();
    char const *factors[] = {"", "1.5", "2", "1000", "2147483647", "3", "65536.5", "1e6"};
    auto minimize = [&](char const *f, bool ini, int k) {
        Variant v;
        v.args.emplace_back("minimize-variable", ini ? "s,N" : "s");
        if (*f) v.args.emplace_back("minimize-factor", f);
        v.k = k;
        v.kind = Variant::MIN;
        v.initial = ini;
        res->push_back(v);
    };
    for (auto f : factors)
        for (int ini = 0; ini < 2; ++ini)
            for (int k = 0; k <= 5 - ini; ++k)
                if (k > 0 || !*f) minimize(f, ini, k);
    auto add = [&](char const *var, char const *factor, int k, Variant::Kind kind, int name = 0) {
        Variant v;
        if (*factor) v.args.emplace_back("minimize-factor", factor);
        if (*var) v.args.emplace_back("minimize-variable", var);
        v.k = k;
        v.kind = kind;
        v.name = name;
        res->push_back(v);
    };
    add("", "", 2, Variant::PLAIN);
    add("", "2", 2, Variant::PLAIN);
    add("f(1)", "1", 2, Variant::MIN, 1);
    add("f(1),0", "3", 1, Variant::MIN, 1);
    for (auto x : {" ", "s,t", "s,1,2", "s,(", ",s", "s,f(1)", "s,\"a\"", "s,"}) add(x, "", 1, Variant::REFUSED);
    for (auto x : {"0", "0.99", "-1", "2147483648", "x", "2x", "1e", "nan", "inf"}) add("s", x, 1, Variant::REFUSED);
    add("s", "", 2, Variant::NOLOOKUP);
    add("s", "", 2, Variant::UNASSIGNED);
    add("s", "", 2, Variant::REAL);
    add("s", "2", 3, Variant::STOP);
    quick = res->size();
    for (auto f : {"", "1.5", "2", "3", "1000", "2147483647"})
        for (int ini = 0; ini < 2; ++ini) minimize(f, ini, 6 - ini);
    return *res;
}

} // namespace

int sym_variants(int tier) { 
    auto n = variants().size();
    return tier ? n : quick;
}

void sym_main(int variant) {
    auto &v = variants()[variant];
    run = new Run();
    mock::host() = new mock::Host();
    mock::host()->modelThread = THREAD;
    run->args = v.args;
    run->minimize = v.kind != Variant::PLAIN;
    run->variable = v.name ? mock::fun("f", {num(1)}) : mock::fun("s");
    for (int i = 0; i < v.k; ++i) {
        run->attain.push_back(sym_int("value", -VB, VB));
        if (i > 0) sym_assume(run->attain[i - 1] < run->attain[i]);
    }
    if (v.initial) run->initial = sym_int("initial", -VB, VB);
    if (v.kind == Variant::NOLOOKUP) run->lookup = false;
    if (v.kind == Variant::UNASSIGNED) run->assigned = false;
    if (v.kind == Variant::REAL) run->integer = false;
    if (v.kind == Variant::STOP) run->interruptAt = 1 + sym_choose("interrupt", 4);

    static char prog[] = "clingo-dl", file[] = "program.lp";
    char *argv[] = {prog, file, nullptr};
    int res = clingodl_main(2, argv);

    if (v.kind == Variant::REFUSED) {
        sym_assert(res != 0, "malformed argument accepted");
        sym_assert(run->solves == 0, "solving despite of malformed argument");
        sym_reach("refused");
        return;
    }
    if (v.kind == Variant::NOLOOKUP || v.kind == Variant::UNASSIGNED || v.kind == Variant::REAL) {
        sym_assert(res != 0, "minimization of a variable without an integer value does not fail");
        sym_assert(run->models == 1, "solving goes on after an error");
        sym_reach("error");
        return;
    }
    sym_assert(res == 0, "minimization fails");
    sym_assert(run->registered && run->configured && run->validated && run->rewritten, "theory not set up");
    sym_assert(run->theoryModels == run->models, "answers not passed to the theory");
    sym_assert(run->grounded.size() > 0 && run->grounded[0] == "base", "program not grounded");
    if (v.kind == Variant::PLAIN) {
        sym_assert(run->solves == 1, "more than one call without minimization");
        sym_assert(run->unsat == run->attain.empty(), "wrong result");
        sym_reach("plain");
        return;
    }
    if (run->interrupted) {
        sym_reach("interrupted");
        return;
    }
    int initial = v.initial ? run->initial : VB;
    if (v.args.back().second == "f(1),0") initial = 0;
    if (v.k == 0 || run->attain[0] > initial) {
        sym_assert(!run->haveModel, "answer although there is none");
        sym_reach("no answer");
        return;
    }
    sym_assert(run->haveModel, "no answer found");
    sym_assert(run->value == run->attain[0], "last answer is not optimal");
    sym_reach("optimum");
}
