// Options: exactly the documented values are accepted, and they set exactly
// what they name; everything else is refused and changes nothing.
//
// The source is included to look at the configuration a theory works with.
#include "mock.hpp"
#include "clingo-dl.cc"
using mock::Host;

namespace {

// ------------------------------------------------------- registered options
struct Option {
    std::string group, name;
    bool (*parse)(char const *, void *);
    void *data;
    bool multi;
    bool *flag;
};
std::vector<Option> &options() {
    static auto *x = new std::vector<Option>();
    return *x;
}

// ------------------------------------------------------------------ oracle
enum Kind { MODE, ROOT, BUDGET, MUTEX, SORT, HEUR, RDL, SHIFT, CC };
struct Key {
    char const *name;
    Kind kind;
};
Key const keys[] = {{"propagate", MODE},   {"propagate-root", ROOT},     {"propagate-budget", BUDGET},
                    {"add-mutexes", MUTEX}, {"sort-edges", SORT},         {"dl-heuristic", HEUR},
                    {"rdl", RDL},          {"shift-constraints", SHIFT}, {"compute-components", CC}};
constexpr int NK = sizeof keys / sizeof *keys;

struct Word {
    char const *word;
    int value;
};
Word const modes[] = {{"no", 0}, {"inverse", 1}, {"partial", 2}, {"partial+", 3}, {"zero", 4}, {"full", 5}, {nullptr, 0}};
Word const sorts[] = {{"no", 0}, {"weight", 1}, {"weight-reversed", 2}, {"potential", 3}, {"potential-reversed", 4}, {nullptr, 0}};
Word const heurs[] = {{"no", 0}, {"none", 0}, {"min", 1}, {"max", 2}, {nullptr, 0}};
Word const bools[] = {{"no", 0}, {"off", 0}, {"0", 0}, {"yes", 1}, {"on", 1}, {"1", 1}, {nullptr, 0}};

Word const *words(Kind k) {
    switch (k) {
        case MODE: return modes;
        case SORT: return sorts;
        case HEUR: return heurs;
        case RDL:
        case SHIFT:
        case CC: return bools;
        default: return nullptr;
    }
}

constexpr int NT = 64; // the last entry is the value for other threads
struct Settings {
    uint64_t mode[NT + 1], root[NT + 1], budget[NT + 1], sort[NT + 1];
    uint64_t heur, size, cutoff, rdl, shift, cc;
};

Settings get(clingodl_theory_t *th) {
    Settings s{};
    auto &c = th->config;
    for (int t = 0; t <= NT; ++t) {
        s.mode[t] = (uint64_t)c.get_propagate_mode(t);
        s.root[t] = c.get_propagate_root(t);
        s.budget[t] = c.get_propagate_budget(t);
        s.sort[t] = (uint64_t)c.get_sort_mode(t);
    }
    s.heur = (uint64_t)c.decision_mode;
    s.size = c.mutex_size;
    s.cutoff = c.mutex_cutoff;
    s.rdl = th->rdl;
    s.shift = th->shift_constraints;
    s.cc = c.calculate_cc;
    return s;
}

// a value with optional thread
struct Setting {
    bool ok = false;
    uint64_t value = 0, cutoff = 0;
    int thread = -1;
};

bool lowerEq(char a, char b) { return a == b || (a >= 'A' && a <= 'Z' && a + ('a' - 'A') == b); }

// the digits at the beginning of s; returns their number or -1 if the value is too large
int digits(char const *s, uint64_t &res) {
    res = 0;
    int i = 0;
    for (; s[i] >= '0' && s[i] <= '9'; ++i) {
        unsigned d = s[i] - '0';
        if (res > UINT64_MAX / 10) return -1;
        if (res == UINT64_MAX / 10 && d > UINT64_MAX % 10) return -1;
        res = res * 10 + d;
    }
    return i;
}

void thread(char const *s, Setting &r) {
    if (*s == 0) {
        r.ok = true;
        return;
    }
    uint64_t id = 0;
    if (*s != ',') return;
    int n = digits(s + 1, id);
    if (n <= 0 || s[1 + n] != 0 || id >= NT) return;
    r.thread = (int)id;
    r.ok = true;
}

Setting parse(Kind k, char const *s) {
    Setting r;
    if (auto *w = words(k)) {
        // the longest word that is a prefix counts
        int best = -1;
        for (; w->word; ++w) {
            int n = (int)strlen(w->word);
            if (n <= best) continue;
            bool eq = true;
            for (int i = 0; eq && i < n; ++i) eq = lowerEq(s[i], w->word[i]);
            if (eq) {
                best = n;
                r.value = w->value;
            }
        }
        if (best < 0) return r;
        if (k == MODE || k == SORT) thread(s + best, r);
        else r.ok = s[best] == 0;
        return r;
    }
    int n = digits(s, r.value);
    if (n <= 0) return r;
    if (k == MUTEX) {
        r.cutoff = r.value > UINT64_MAX / 10 ? UINT64_MAX : 10 * r.value;
        if (s[n] == 0) {
            r.ok = true;
            return r;
        }
        if (s[n] != ',') return r;
        int m = digits(s + n + 1, r.cutoff);
        r.ok = m > 0 && s[n + 1 + m] == 0;
        return r;
    }
    thread(s + n, r);
    return r;
}

template <class A> void put(A &a, Setting const &r, bool const *own) {
    for (int t = 0; t <= NT; ++t)
        if (r.thread < 0 ? !own[t] : t == r.thread) a[t] = r.value;
}

void same(Settings const &a, Settings const &b, char const *msg) {
    bool eq = true;
    for (int t = 0; t <= NT; ++t)
        eq = eq & (a.mode[t] == b.mode[t]) & (a.root[t] == b.root[t]) & (a.budget[t] == b.budget[t]) & (a.sort[t] == b.sort[t]);
    eq = eq & (a.heur == b.heur) & (a.size == b.size) & (a.cutoff == b.cutoff) & (a.rdl == b.rdl) & (a.shift == b.shift) & (a.cc == b.cc);
    sym_assert(eq, msg);
}

// ------------------------------------------------------------------ inputs
char symChar() { return (char)sym_int("c", -128, 127); }

// an argument for the option
std::string argument(Kind k, int tmpl, int tier) {
    std::string s;
    if (tmpl == 0) {
        // any string
        int n = sym_choose("length", tier ? 5 : 4);
        for (int i = 0; i < n; ++i) s += symChar();
        return s;
    }
    if (tmpl == 1) {
        if (auto *w = words(k)) {
            // a word with one character changed, removed, or added
            int n = 0;
            while (w[n].word) ++n;
            s = w[sym_choose("word", n)].word;
            int op = sym_choose("edit", 3);
            int at = sym_choose("at", (int)s.size() + (op == 1));
            if (op == 0) s[at] = symChar();
            if (op == 1) s.insert(at, 1, symChar());
            if (op == 2) s.erase(at, 1);
            return s;
        }
        // numbers around the largest one
        static char const *big[] = {"18446744073709551615", "18446744073709551620", "1844674407370955161",  "99999999999999999999", "184467440737095516150",
                                    "30000000000000000000", "1844674407370955162",  "20000000000000000000", "4294967296",           "000000000000000000000000000001"};
        s = big[sym_choose("number", 10)];
        int at = (int)s.size() - 1 - sym_choose("at", 3);
        s[at] = (char)sym_int("c", '0', '9');
        if (sym_choose("more", 2)) s += symChar();
        return s;
    }
    if (tmpl == 2) {
        // a valid argument with anything following a comma
        if (auto *w = words(k)) {
            int n = 0;
            while (w[n].word) ++n;
            s = w[sym_choose("word", n)].word;
        } else {
            s = std::to_string(sym_choose("number", 3) * 7);
        }
        s += ',';
        int n = sym_choose("length", 4);
        for (int i = 0; i < n; ++i) s += symChar();
        return s;
    }
    // large thread numbers and costs
    static char const *big[] = {"18446744073709551615", "18446744073709551616", "18446744073709551620", "99999999999999999999", "36893488147419103233", "4294967297",
                                "063",                  "064",                  "64",                   "63",                   "00000000000000000000001"};
    if (auto *w = words(k)) s = w[1].word;
    else s = "3";
    s += ',';
    s += big[sym_choose("number", 11)];
    s[s.size() - 1] = (char)sym_int("c", '0', '9');
    return s;
}

bool call(clingodl_theory_t *th, int channel, int key, std::string const &arg) {
    // (the code under test gets an array of exactly the right size)
    std::vector<char> buf(arg.begin(), arg.end());
    buf.push_back(0);
    if (channel == 0) return clingodl_configure(th, keys[key].name, buf.data());
    Option *o = nullptr;
    for (auto &x : options())
        if (x.name == keys[key].name) o = &x;
    if (o == nullptr) sym_fail("an option is not registered");
    return o->parse(buf.data(), o->data);
}

void preset(clingodl_theory_t *th, int n, bool (&own)[4][NT + 1]) {
    if (n == 0) return;
    struct P {
        char const *key, *value;
        int row, thread;
    };
    static P const ps[] = {{"propagate", "partial", -1, 0}, {"propagate", "full,2", 0, 2},         {"propagate-root", "11,0", 1, 0},         {"propagate-root", "12,7", 1, 7},
                           {"propagate-budget", "13,1", 2, 1}, {"propagate-budget", "14", -1, 0},   {"sort-edges", "potential,63", 3, 63},    {"sort-edges", "weight-reversed", -1, 0},
                           {"add-mutexes", "5,17", -1, 0},     {"dl-heuristic", "max", -1, 0},      {"compute-components", "no", -1, 0},      {"shift-constraints", "yes", -1, 0}};
    for (auto &p : ps) {
        if (!clingodl_configure(th, p.key, p.value)) sym_fail("a documented value is refused");
        if (p.row >= 0) own[p.row][p.thread] = true;
    }
}

} // namespace

extern "C" {
bool clingo_options_add(clingo_options_t *, char const *group, char const *option, char const *, bool (*parse)(char const *, void *), void *data, bool multi, char const *) {
    options().push_back({group, option, parse, data, multi, nullptr});
    return true;
}
bool clingo_options_add_flag(clingo_options_t *, char const *group, char const *option, char const *, bool *flag) {
    options().push_back({group, option, nullptr, nullptr, false, flag});
    return true;
}
}

constexpr int NTMPL = 4;
static int tierOf = 0;
// (key, channel, preset, template)
int sym_variants(int tier) {
    tierOf = tier;
    return NK * NTMPL * 2 + 2;
}

void sym_main(int variant) {
    sym_conc_limit(110);
    clingodl_theory_t *th = nullptr;
    if (!clingodl_create(&th)) sym_fail("cannot create theory");
    if (!clingodl_register_options(th, nullptr)) sym_fail("cannot register options");
    if (variant == NK * NTMPL * 2) {
        // unknown keys
        static char const *ks[] = {"propagate", "rdl", "add-mutexes", "dl-heuristic"};
        std::string k = ks[sym_choose("key", 4)];
        auto old = get(th);
        int op = sym_choose("edit", 3);
        int at = sym_choose("at", (int)k.size() + (op == 1));
        std::string o = k;
        if (op == 0) k[at] = symChar();
        if (op == 1) k.insert(at, 1, symChar());
        if (op == 2) k.erase(at, 1);
        if (strcmp(k.c_str(), o.c_str()) == 0) return;
        if (clingodl_configure(th, k.c_str(), "1")) sym_fail("an unknown option is accepted");
        sym_assert(clingo_error_code() != clingo_error_success, "a refused option is not reported");
        same(old, get(th), "an unknown option has an effect");
        sym_reach("refused");
        return;
    }
    if (variant == NK * NTMPL * 2 + 1) {
        // the defaults, the names and flags
        Settings d{};
        for (auto &x : d.sort) x = 1;
        d.cc = 1;
        d.cutoff = 10;
        same(d, get(th), "the defaults are not the documented ones");
        for (auto &k : keys) {
            int n = 0;
            for (auto &o : options()) {
                if (o.name != k.name) continue;
                ++n;
                if ((o.flag != nullptr) != (k.kind == RDL || k.kind == SHIFT || k.kind == CC)) sym_fail("an option has the wrong kind");
                if (o.flag) {
                    *o.flag = sym_choose("flag", 2);
                    (k.kind == RDL ? d.rdl : k.kind == SHIFT ? d.shift : d.cc) = *o.flag;
                    same(d, get(th), "a flag does not set what it names");
                    sym_reach("accepted");
                } else if (o.multi != (k.kind != HEUR)) {
                    sym_fail("whether an option can be given several times is wrong");
                }
            }
            sym_assert(n == 1, "an option is not registered once");
        }
        int a = -1, b = -1, c = -1;
        clingodl_version(&a, &b, &c);
        sym_assert(a == CLINGODL_VERSION_MAJOR && b == CLINGODL_VERSION_MINOR && c == CLINGODL_VERSION_REVISION, "wrong version");
        return;
    }
    int key = variant % NK, tmpl = variant / NK % NTMPL, channel = variant / NK / NTMPL;
    auto kind = keys[key].kind;
    if (channel && (kind == RDL || kind == SHIFT || kind == CC)) return;
    bool own[4][NT + 1] = {};
    preset(th, sym_choose("preset", 2), own);
    auto old = get(th);
    auto arg = argument(kind, tmpl, tierOf);
    // what should happen (a zero byte ends the argument)
    auto r = parse(kind, arg.c_str());
    auto now = old;
    if (r.ok) switch (kind) {
        case MODE: put(now.mode, r, own[0]); break;
        case ROOT: put(now.root, r, own[1]); break;
        case BUDGET: put(now.budget, r, own[2]); break;
        case SORT: put(now.sort, r, own[3]); break;
        case MUTEX: now.size = r.value, now.cutoff = r.cutoff; break;
        case HEUR: now.heur = r.value; break;
        case RDL: now.rdl = r.value; break;
        case SHIFT: now.shift = r.value; break;
        case CC: now.cc = r.value; break;
    }
    // what happens
    bool ok = call(th, channel, key, arg.c_str());
    if (r.ok) {
        if (!ok) sym_fail("a documented value is refused");
        same(now, get(th), "an option does not set exactly what it names");
        sym_reach("accepted");
    } else {
        if (ok) sym_fail("a value that is not documented is accepted");
        same(now, get(th), "a refused option has an effect");
        if (channel == 0) {
            sym_assert(clingo_error_code() != clingo_error_success, "a refused option is not reported");
            std::string msg = clingo_error_message();
            sym_assert(msg.find(keys[key].name) != std::string::npos, "the error does not name the option");
        }
        sym_reach("refused");
    }
    clingodl_destroy(th);
}
