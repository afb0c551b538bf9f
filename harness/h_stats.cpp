// Statistics: the numbers of each step are its own, and accumulated numbers
// are the sum over all steps, also if the number of threads changes.
#include "core.hpp"
#include <chrono>
#include <clingo.hh>
#include <clingo-dl/propagator.hh>
using namespace core;
using namespace ClingoDL;

// a clock that advances by 1/512 seconds whenever it is read
static long ticks = 0;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(++ticks * 1953125)); }
}}}

namespace {

// ----------------------------------------------------------- statistics tree
struct Node {
    int type = 0;
    double value = 0;
    std::vector<std::pair<std::string, uint64_t>> map;
    std::vector<uint64_t> arr;
};
struct Tree {
    std::vector<Node> nodes;
    Tree() { nodes.emplace_back(), nodes[0].type = clingo_statistics_type_map; }
};
Tree *T(clingo_statistics_t const *x) { return reinterpret_cast<Tree *>(const_cast<clingo_statistics_t *>(x)); }
Node *node(clingo_statistics_t const *x, uint64_t key, int type) {
    auto *t = T(x);
    if (key >= t->nodes.size() || t->nodes[key].type != type) {
        clingo_set_error(clingo_error_logic, "bad statistics key");
        return nullptr;
    }
    return &t->nodes[key];
}

} // namespace

extern "C" {
bool clingo_statistics_root(clingo_statistics_t const *, uint64_t *key) {
    *key = 0;
    return true;
}
bool clingo_statistics_type(clingo_statistics_t const *s, uint64_t key, clingo_statistics_type_t *type) {
    *type = key < T(s)->nodes.size() ? T(s)->nodes[key].type : 0;
    return true;
}
bool clingo_statistics_array_size(clingo_statistics_t const *s, uint64_t key, size_t *size) {
    auto *n = node(s, key, clingo_statistics_type_array);
    return n && (*size = n->arr.size(), true);
}
bool clingo_statistics_array_at(clingo_statistics_t const *s, uint64_t key, size_t offset, uint64_t *subkey) {
    auto *n = node(s, key, clingo_statistics_type_array);
    if (!n || offset >= n->arr.size()) {
        clingo_set_error(clingo_error_logic, "bad statistics offset");
        return false;
    }
    *subkey = n->arr[offset];
    return true;
}
bool clingo_statistics_array_push(clingo_statistics_t *s, uint64_t key, clingo_statistics_type_t type, uint64_t *subkey) {
    if (!node(s, key, clingo_statistics_type_array)) return false;
    auto *t = T(s);
    *subkey = t->nodes.size();
    t->nodes[key].arr.push_back(*subkey);
    t->nodes.emplace_back();
    t->nodes.back().type = type;
    return true;
}
bool clingo_statistics_map_size(clingo_statistics_t const *s, uint64_t key, size_t *size) {
    auto *n = node(s, key, clingo_statistics_type_map);
    return n && (*size = n->map.size(), true);
}
bool clingo_statistics_map_has_subkey(clingo_statistics_t const *s, uint64_t key, char const *name, bool *res) {
    auto *n = node(s, key, clingo_statistics_type_map);
    if (!n) return false;
    *res = false;
    for (auto &x : n->map) *res = *res || x.first == name;
    return true;
}
bool clingo_statistics_map_at(clingo_statistics_t const *s, uint64_t key, char const *name, uint64_t *subkey) {
    auto *n = node(s, key, clingo_statistics_type_map);
    if (!n) return false;
    for (auto &x : n->map)
        if (x.first == name) {
            *subkey = x.second;
            return true;
        }
    clingo_set_error(clingo_error_logic, "bad statistics name");
    return false;
}
bool clingo_statistics_map_subkey_name(clingo_statistics_t const *s, uint64_t key, size_t offset, char const **name) {
    auto *n = node(s, key, clingo_statistics_type_map);
    if (!n || offset >= n->map.size()) return false;
    *name = n->map[offset].first.c_str();
    return true;
}
bool clingo_statistics_map_add_subkey(clingo_statistics_t *s, uint64_t key, char const *name, clingo_statistics_type_t type, uint64_t *subkey) {
    auto *n = node(s, key, clingo_statistics_type_map);
    if (!n) return false;
    for (auto &x : n->map)
        if (x.first == name) {
            *subkey = x.second;
            if (T(s)->nodes[x.second].type == type) return true;
            clingo_set_error(clingo_error_logic, "statistics type redefined");
            return false;
        }
    auto *t = T(s);
    *subkey = t->nodes.size();
    n->map.emplace_back(name, *subkey);
    t->nodes.emplace_back();
    t->nodes.back().type = type;
    return true;
}
bool clingo_statistics_value_get(clingo_statistics_t const *s, uint64_t key, double *v) {
    auto *n = node(s, key, clingo_statistics_type_value);
    return n && (*v = n->value, true);
}
bool clingo_statistics_value_set(clingo_statistics_t *s, uint64_t key, double v) {
    auto *n = node(s, key, clingo_statistics_type_value);
    return n && (n->value = v, true);
}
}

namespace {

// ------------------------------------------------------------------- fields
struct Global {
    char const *key;
    bool sum;
    uint64_t Statistics::*num;
};
Global const globals[] = {{"CCs", false, &Statistics::ccs}, {"Mutexes", true, &Statistics::mutexes}, {"Edges", false, &Statistics::edges}, {"Variables", false, &Statistics::variables}};
struct Thread {
    char const *key;
    uint64_t ThreadStatistics::*num;
};
using TS = ThreadStatistics;
Thread const fields[] = {{"True edges", &TS::true_edges},
                         {"False edges", &TS::false_edges},
                         {"False edges (inverse)", &TS::false_edges_trivial},
                         {"False edges (partial)", &TS::false_edges_weak},
                         {"False edges (partial+)", &TS::false_edges_weak_plus},
                         {"Edges added", &TS::edges_added},
                         {"Edges skipped", &TS::edges_skipped},
                         {"Edges propagated", &TS::edges_propagated},
                         {"Cost consistency", &TS::propagate_cost_add},
                         {"Cost forward", &TS::propagate_cost_from},
                         {"Cost backward", &TS::propagate_cost_to}};
struct Time {
    char const *key;
    Duration TS::*time;
};
Time const times[] = {{"Propagation(s)", &TS::time_propagate}, {"Dijkstra(s)", &TS::time_dijkstra}, {"Undo(s)", &TS::time_undo}};

double get(Tree &t, char const *key, int thread = -1) {
    auto *s = reinterpret_cast<clingo_statistics_t *>(&t);
    uint64_t k = 0;
    bool ok = clingo_statistics_map_at(s, 0, "DifferenceLogic", &k);
    if (thread >= 0) ok = ok && clingo_statistics_map_at(s, k, "Thread", &k) && clingo_statistics_array_at(s, k, thread, &k);
    double v = 0;
    if (!(ok && clingo_statistics_map_at(s, k, key, &k) && clingo_statistics_value_get(s, k, &v))) sym_fail("a documented number is not reported");
    return v;
}

// ------------------------------------- adding up counters with any values
char const *const scripts[] = {"1", "11", "12", "21", "212", "131", "312", "0120", "2221"};
constexpr int NU = sizeof scripts / sizeof *scripts;

void unit(char const *script) {
    Statistics accu;
    // expected
    std::vector<std::vector<uint64_t>> sums;
    std::vector<std::vector<double>> durations;
    uint64_t mutexes = 0;
    double init = 0;
    for (char const *p = script; *p; ++p) {
        size_t n = *p - '0';
        Statistics x;
        x.time_init = Duration{0.25 * (p - script + 1)};
        init += x.time_init.count();
        for (auto &g : globals) x.*(g.num) = sym_u64(g.key, 0, (int64_t)1 << 40);
        mutexes += x.mutexes;
        x.thread_statistics.resize(n);
        if (sums.size() < n) {
            sums.resize(n, std::vector<uint64_t>(11, 0));
            durations.resize(n, std::vector<double>(3, 0.0));
        }
        for (size_t t = 0; t < n; ++t) {
            int i = 0;
            for (auto &f : fields) {
                x.thread_statistics[t].*(f.num) = sym_u64(f.key, 0, (int64_t)1 << 40);
                sums[t][i] = sums[t][i] + x.thread_statistics[t].*(f.num);
                ++i;
            }
            i = 0;
            for (auto &f : times) {
                x.thread_statistics[t].*(f.time) = Duration{0.125 * (3 * (p - script) + 1 + i) + t};
                durations[t][i] += (x.thread_statistics[t].*(f.time)).count();
                ++i;
            }
        }
        accu.accu(x);
        for (auto &g : globals) sym_assert(accu.*(g.num) == (g.sum ? mutexes : x.*(g.num)), "an accumulated number is wrong");
        sym_assert(accu.time_init.count() == init, "the accumulated time is wrong");
        sym_assert(accu.thread_statistics.size() == sums.size(), "numbers of a thread are lost");
        for (size_t t = 0; t < sums.size(); ++t) {
            int i = 0;
            for (auto &f : fields) sym_assert(accu.thread_statistics[t].*(f.num) == sums[t][i++], "an accumulated number of a thread is wrong");
            i = 0;
            for (auto &f : times) sym_assert((accu.thread_statistics[t].*(f.time)).count() == durations[t][i++], "the accumulated time of a thread is wrong");
        }
        x.reset();
        bool zero = x.time_init.count() == 0 && x.thread_statistics.size() == n;
        for (auto &g : globals) zero = zero && x.*(g.num) == 0;
        for (size_t t = 0; t < n; ++t) {
            for (auto &f : fields) zero = zero && x.thread_statistics[t].*(f.num) == 0;
            for (auto &f : times) zero = zero && (x.thread_statistics[t].*(f.time)).count() == 0;
        }
        sym_assert(zero, "resetting keeps a number");
        sym_reach("sum");
    }
}

// ---------------------------------------------------------- complete runs
struct Shape {
    char const *step[3];
    int threads[3];
};
Shape const shapes[] = {
    {{"12:a 10:T", "21:b", "23:a 31:c"}, {1, 2, 1}},
    {{"12:a 23:b 31:c", "12:c", nullptr}, {2, 1, 0}},
    {{"12:T 20:a 01:b", "", "10:c"}, {1, 1, 3}},
    {{"12:a 34:b 43:c", "", nullptr}, {2, 1, 0}},
    {{"10:a 02:a 21:b", "01:c", nullptr}, {1, 1, 0}},
};
constexpr int NS = sizeof shapes / sizeof *shapes;
struct Conf {
    char const *mode, *mutex, *root;
};
Conf const confs[] = {{"full", "0", "0"}, {"no", "3", "0"}, {"inverse", "0", "0"}, {"partial+", "0", "1"}, {"zero", "2", "0"}, {"partial", "0", "0"}};
constexpr int NC = sizeof confs / sizeof *confs;

// the propagator without the facade
Statistics *refStats = nullptr;
DLPropagator<int> *refProp = nullptr;
bool refInit(clingo_propagate_init_t *i, void *) {
    Clingo::PropagateInit in(i);
    refProp->init(in);
    return true;
}
bool refPropagate(clingo_propagate_control_t *c, clingo_literal_t const *ch, size_t n, void *) {
    Clingo::PropagateControl ctl(c);
    refProp->propagate(ctl, {ch, n});
    return true;
}
void refUndo(clingo_propagate_control_t const *c, clingo_literal_t const *ch, size_t n, void *) {
    Clingo::PropagateControl ctl(const_cast<clingo_propagate_control_t *>(c));
    refProp->undo(ctl, {ch, n});
}
bool refCheck(clingo_propagate_control_t *c, void *) {
    Clingo::PropagateControl ctl(c);
    refProp->check(ctl);
    return true;
}

PropagationMode modeOf(char const *m) {
    static char const *n[] = {"no", "inverse", "partial", "partial+", "zero", "full"};
    for (int i = 0; i < 6; ++i)
        if (strcmp(m, n[i]) == 0) return (PropagationMode)i;
    sym_fail("mode");
    return PropagationMode::Check;
}

// the choices and weights of the first run are repeated by the second one
struct Log {
    std::vector<lit> lits;
    std::vector<int> weights;
    size_t at = 0, w = 0;
};

struct Obs : World {
    unsigned unitLemmas = 0, conflicts = 0;
    void lemma(Solver &s, lit const *c, size_t n) override {
        bool open = false;
        for (size_t i = 0; i < n; ++i) open = open || s.value(c[i]) == 0;
        if (open) ++unitLemmas;
        else ++conflicts;
    }
};

// the steps of one run; calls report after each
template <class F> void run(Obs &w, Shape const &sh, Conf const &c, Log &log, bool first, F report) {
    std::vector<lit> vars;
    for (int k = 0; k < 3 && sh.step[k]; ++k) {
        if (k > 0) {
            for (auto *s : w.host->solvers)
                if (s) s->undoUntil(0);
            w.host->nextStep();
            w.host->theory.atoms.clear();
        }
        w.host->threads = sh.threads[k];
        size_t old = w.cons.size();
        if (first) {
            build(w, sh.step[k], vars);
            for (size_t i = old; i < w.cons.size(); ++i) log.weights.push_back(w.cons[i].w);
        } else {
            // (same weights)
            for (char const *p = sh.step[k]; *p;) {
                lit l = 1;
                if (p[3] != 'T') {
                    int a = litIndex(p[3]);
                    while ((int)vars.size() < a) vars.push_back(w.newLit());
                    l = vars[a - 1];
                }
                w.add(p[0] - '0', p[1] - '0', log.weights[log.w++], l);
                for (p += 4; *p == ' ';) ++p;
            }
        }
        w.unitLemmas = w.conflicts = w.initClauses = 0;
        bool fixed = false;
        for (auto &x : w.cons) fixed = fixed || w.host->init.value(x.l) < 0;
        if (!w.host->callInit()) sym_fail("initialization failed");
        if (w.host->topConflict) return;
        int t = sh.threads[k];
        auto &h = *w.host;
        // (threads no longer used are removed)
        for (size_t i = t; i < h.solvers.size(); ++i) h.solvers[i] = nullptr;
        h.solvers.resize(t, nullptr);
        for (int i = 0; i < t; ++i) {
            if (h.solvers[i]) h.resume(i);
            else h.start(i);
        }
        // (events of the other threads)
        bool stop = false;
        for (int i = 0; i + 1 < t && !stop; ++i) {
            auto r = h.solvers[i]->fixpoint();
            if (r == mock::FAILED) sym_fail("propagator reported an error");
            stop = r != mock::OK;
        }
        if (stop) return;
        // search in the last thread
        auto &s = *w.host->solvers[t - 1];
        bool ok = true;
        for (;;) {
            auto r = s.fixpoint();
            if (r == mock::FAILED) sym_fail("propagator reported an error");
            if (r == mock::CONFLICT) {
                ok = false;
                break;
            }
            lit l = 0;
            if (first) {
                // (the first undecided literal)
                for (int v = 2; v <= w.host->nvars && l == 0; ++v)
                    if (s.value(v) == 0) l = k == 0 && sh.step[1] && *sh.step[1] && sym_choose("sign", 2) ? -v : v;
                log.lits.push_back(l);
            } else {
                l = log.lits[log.at++];
            }
            if (l == 0) break;
            s.decide(l);
        }
        report(k, ok && !fixed, s);
        if (!ok) return;
    }
}

void complete(Shape const &sh, Conf const &c) {
    Log log;
    std::vector<Tree *> steps;
    Tree accu;
    std::vector<std::vector<double>> sums(4, std::vector<double>(14, 0.0));
    double init = 0, mutexes = 0;
    ticks = 0;
    {
        Obs w;
        w.conf("propagate", c.mode);
        w.conf("add-mutexes", c.mutex);
        w.conf("propagate-root", c.root);
        w.host->threads = sh.threads[0];
        w.reg();
        run(w, sh, c, log, true, [&](int k, bool ok, Solver &s) {
            auto *step = new Tree();
            steps.push_back(step);
            if (!clingodl_on_statistics(w.th, reinterpret_cast<clingo_statistics_t *>(step), reinterpret_cast<clingo_statistics_t *>(&accu))) sym_fail("statistics are not reported");
            // sums
            for (auto &g : globals) {
                double x = get(*step, g.key);
                if (g.sum) mutexes += x;
                sym_assert(get(accu, g.key) == (g.sum ? mutexes : x), "an accumulated number is wrong");
            }
            init += get(*step, "Time init(s)");
            sym_assert(get(accu, "Time init(s)") == init, "the accumulated time is wrong");
            int n = sh.threads[k], all = 0;
            for (int i = 0; i <= k; ++i) all = all < sh.threads[i] ? sh.threads[i] : all;
            for (int t = 0; t < all; ++t) {
                int i = 0;
                for (auto &f : fields) {
                    if (t < n) sums[t][i] += get(*step, f.key, t);
                    sym_assert(get(accu, f.key, t) == sums[t][i++], "an accumulated number of a thread is wrong");
                }
                for (auto &f : times) {
                    if (t < n) sums[t][i] += get(*step, f.key, t);
                    sym_assert(get(accu, f.key, t) == sums[t][i++], "the accumulated time of a thread is wrong");
                }
            }
            sym_reach("accumulated");
            // what has been counted
            sym_assert(get(*step, "Mutexes") == w.initClauses, "the number of mutexes is wrong");
            if (ok) sym_assert(get(*step, "Edges") == w.cons.size(), "the number of edges is wrong");
            std::vector<int> comp;
            components(w, true, comp);
            int ccs = 0;
            for (int v = 1; v < w.nv; ++v) ccs += comp[v] == v;
            if (ok) sym_assert(get(*step, "CCs") == ccs, "the number of components is wrong");
            if (ok && strcmp(c.mode, "no") == 0) {
                sym_assert(get(*step, "Edges added", s.thread) == w.active(s).size(), "the number of added edges is wrong");
                sym_reach("added");
            }
            if (strcmp(c.mode, "inverse") == 0) sym_assert(get(*step, "False edges (inverse)", s.thread) == w.unitLemmas, "the number of inverse constraints is wrong");
        });
    }
    // compare with the propagator itself
    refStats = new Statistics();
    PropagatorConfig conf;
    conf.propagate_mode = modeOf(c.mode);
    conf.mutex_size = *c.mutex - '0';
    conf.mutex_cutoff = 10 * conf.mutex_size;
    conf.propagate_root = *c.root - '0';
    refProp = new DLPropagator<int>(*refStats, conf);
    ticks = 0;
    Obs w;
    w.host->prop = clingo_propagator_t{refInit, refPropagate, refUndo, refCheck, nullptr};
    w.host->haveProp = true;
    size_t at = 0;
    run(w, sh, c, log, false, [&](int k, bool, Solver &) {
        if (at >= steps.size()) sym_fail("the runs differ");
        auto &step = *steps[at++];
        for (auto &g : globals) sym_assert(get(step, g.key) == (double)(refStats->*(g.num)), "a reported number is not the one counted");
        sym_assert(get(step, "Time init(s)") == refStats->time_init.count(), "a reported time is not the one measured");
        for (int t = 0; t < sh.threads[k]; ++t) {
            auto &x = refStats->thread_statistics[t];
            for (auto &f : fields) sym_assert(get(step, f.key, t) == (double)(x.*(f.num)), "a reported number of a thread is not the one counted");
            for (auto &f : times) sym_assert(get(step, f.key, t) == (x.*(f.time)).count(), "a reported time of a thread is not the one measured");
        }
        // (a new step begins with zero)
        for (auto &g : globals) refStats->*(g.num) = 0;
        refStats->time_init = Duration{0};
        for (auto &x : refStats->thread_statistics) {
            for (auto &f : fields) x.*(f.num) = 0;
            for (auto &f : times) x.*(f.time) = Duration{0};
        }
        sym_reach("reported");
    });
}

} // namespace

int sym_variants(int) { return NU + NS * NC; }
void sym_main(int variant) {
    if (variant < NU) return unit(scripts[variant]);
    variant -= NU;
    complete(shapes[variant / NC], confs[variant % NC]);
}
