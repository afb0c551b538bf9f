#include <cxxabi.h>
#include <fcntl.h>
// Runtime of the symbolic executor.  Not instrumented.
#include "sym.h"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <map>
#include <new>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
typedef __int128 i128;

extern "C" {
u32 __sym_args[64];
void *__sym_callee;
u32 __sym_ret[16];
void *__sym_ret_from;
void *__sym_byval[16];
extern void *__sym_gl_table[];
extern u64 __sym_gl_size[];
extern u64 __sym_gl_count;
extern void *__sym_fn_table[];
extern char const *__sym_fn_name[];
extern u64 __sym_fn_count;
u8 *__sym_seen;
}

namespace {

constexpr int MAXV = 200;    // input variables per path
constexpr int MAXJOBS = 1 << 20;

struct Job {
    int variant;
    u32 prefix; // number of decisions already explored on the other side
    u64 hash;   // expected hash of the decision prefix
    u32 n;
    i64 vals[MAXV];
};

struct Label {
    char name[120];
    u64 count;
};

struct Slot {
    Job job;
    char names[MAXV][24];
    i64 lo[MAXV], hi[MAXV];
    u32 n;
    double start;
};

constexpr int MAXSAMPLES = 48;
u64 traceHash = 0; // hash of the observable trace of a path (labels and number of assertions)
struct Shared {
    pthread_mutex_t mx;
    int stop;
    int active;
    u64 top;      // jobs on the stack
    u64 maxTop;
    u64 paths, decisions, queries, qsat, qunsat, qunknown, qretry, trivial, asserts, assertsUnsat, assumesCut, forcedConc, crashes;
    u64 solverNs;
    u64 nodes;
    int violation;
    char vmsg[512];
    int vvariant;
    u32 vn;
    char vnames[MAXV][24];
    i64 vlo[MAXV], vhi[MAXV], vvals[MAXV];
    int error;
    char emsg[1024];
    int nlabels;
    Label labels[128];
    u64 variantPaths[4096];
    Slot slots[64];
    u64 tvmax;
    u64 chooses;
    int nsamples;
    struct {
        int variant;
        u32 n;
        u64 trace;
        char names[MAXV][24];
        i64 vals[MAXV];
    } samples[MAXSAMPLES];
};
Shared *S;
Job *JOBS; // LIFO stack, stored in compact form in a ring of fixed slots
int myslot = -1;
double deadline;
int pathTimeout = 20;
int pathsPerProc = 400;
int inProc = 1;
size_t memLimitMB = 2500;

double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

jmp_buf pathEnd;
enum { PATH_OK = 1, PATH_STOP = 2 };

void ndDump();
[[noreturn]] void engineError(char const *fmt, ...) {
    char buf[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    pthread_mutex_lock(&S->mx);
    if (!S->error) {
        S->error = 1;
        snprintf(S->emsg, sizeof S->emsg, "%s", buf);
        if (getenv("SYM_BT")) {
            void *bt[40];
            int n = backtrace(bt, 40);
            int fd = open(getenv("SYM_BT"), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dprintf(fd, "ENGINE: %s\n", buf);
            backtrace_symbols_fd(bt, n, fd);
        }
    }
    if (getenv("SYM_ND")) ndDump();
    S->stop = 1;
    pthread_mutex_unlock(&S->mx);
    _exit(11);
}

// ---------------------------------------------------------------- variables
struct Var {
    std::string name;
    i64 lo, hi;
    i64 val; // concrete value on this path
    Z3_ast z;
    bool aux;
    u64 seenPath;
    u64 rank; // order of terms, the same in every process
};
std::vector<Var> vars; // interned variables of the process
std::map<std::string, u32> varIndex;
std::vector<u32> inputs; // variables of this path in creation order (indices into vars)
u64 pathNo = 0;

// ------------------------------------------------------- linear combinations
struct Term {
    u32 v;
    i64 c;
};
struct TV { // primitive vector (gcd 1, leading coefficient positive)
    std::vector<Term> t;
    Z3_ast z;
    u64 path; // path for which lo/hi/val are valid
    i128 lo, hi;
    i128 val;
};
std::vector<TV> tvs;
struct VecHash {
    size_t operator()(std::vector<i64> const &v) const {
        u64 h = 1469598103934665603ull;
        for (auto x : v) h = (h ^ (u64)x) * 1099511628211ull;
        return h;
    }
};
std::unordered_map<std::vector<i64>, u32, VecHash> tvIndex;

Z3_context ctx;
Z3_solver solver;
Z3_sort intSort;

enum Kind : u8 { K_LIN, K_FP, K_CAT, K_LE, K_EQ, K_NOT, K_AND, K_OR, K_IFF, K_B2I };
struct Seg {
    u32 id; // 0: concrete
    u8 off, len;
    u64 bytes; // concrete bytes
};
struct Node {
    Kind k;
    u8 w;
    u8 scale;
    u64 cval;
    u32 tv;   // LIN/FP/LE/EQ
    i128 mul; // LIN/FP
    i128 cst; // LIN/FP: constant; LE/EQ: bound
    u32 a, b; // boolean children / B2I child / CAT: first segment, count
};
std::vector<Node> nodes;
std::vector<Seg> segs;
std::unordered_map<std::vector<i64>, Z3_ast, VecHash> atomAst;

// path condition
struct PC {
    Z3_ast z;
};
std::vector<Z3_ast> pc;
std::vector<Z3_ast> solverStack;
u32 decisions;
u64 decHash;
Job cur;
int concLimit = 64;

u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
i64 sext(u64 v, unsigned w) {
    if (w >= 64) return (i64)v;
    u64 m = 1ull << (w - 1);
    v &= mask(w);
    return (i64)((v ^ m) - m);
}
i128 smin(unsigned w) { return -((i128)1 << (w - 1)); }
i128 smax(unsigned w) { return ((i128)1 << (w - 1)) - 1; }
i128 floordiv(i128 a, i128 b) { // b > 0
    i128 q = a / b;
    if (a % b != 0 && a < 0) --q;
    return q;
}
i128 ceildiv(i128 a, i128 b) { return -floordiv(-a, b); }

Z3_ast keep(Z3_ast a) {
    Z3_inc_ref(ctx, a);
    return a;
}
Z3_ast zk_ge(Z3_ast a, Z3_ast b) { return keep(Z3_mk_ge(ctx, a, b)); }
Z3_ast zk_le(Z3_ast a, Z3_ast b) { return keep(Z3_mk_le(ctx, a, b)); }
Z3_ast zk_eq(Z3_ast a, Z3_ast b) { return keep(Z3_mk_eq(ctx, a, b)); }
Z3_ast zk_mul(unsigned n, Z3_ast *a) { return keep(Z3_mk_mul(ctx, n, a)); }
// numerals are cached
std::string str128(i128 v) {
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string r;
    do r.insert(r.begin(), (char)('0' + (int)(u % 10))), u /= 10;
    while (u);
    return neg ? "-" + r : r;
}
Z3_ast mkInt(i128 v) {
    if (v < INT64_MIN || v > INT64_MAX) return keep(Z3_mk_numeral(ctx, str128(v).c_str(), intSort));
    static std::unordered_map<i64, Z3_ast> cache;
    auto &z = cache[v];
    if (!z) z = keep(Z3_mk_int64(ctx, v, intSort));
    return z;
}

void z3err(Z3_context c, Z3_error_code e) { engineError("z3: %s", Z3_get_error_msg(c, e)); }

void initZ3() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, z3err);
    intSort = Z3_mk_int_sort(ctx);
    Z3_inc_ref(ctx, (Z3_ast)intSort);
    solver = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, solver);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 2000);
    Z3_solver_set_params(ctx, solver, p);
    Z3_params_dec_ref(ctx, p);
}

bool nonlinear = false; // products of variables occur

void addPC(Z3_ast z) { pc.push_back(z); }

u32 mkVar(std::string const &name, i64 lo, i64 hi, i64 val, bool aux, u64 rank = 0) {
    std::string key = name + "|" + std::to_string(lo) + "|" + std::to_string(hi);
    auto it = varIndex.find(key);
    u32 id;
    if (it == varIndex.end()) {
        id = vars.size();
        varIndex.emplace(key, id);
        Var v;
        v.name = name;
        v.lo = lo;
        v.hi = hi;
        v.aux = aux;
        v.seenPath = 0;
        if (aux) {
            rank = 1469598103934665603ull;
            for (char c : key) rank = (rank ^ (u8)c) * 1099511628211ull;
            rank |= 1ull << 63;
        }
        v.rank = rank;
        v.z = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, key.c_str()), intSort));
        vars.push_back(v);
    } else
        id = it->second;
    Var &v = vars[id];
    v.val = val;
    if (v.seenPath != pathNo) {
        v.seenPath = pathNo;
        Z3_ast a[2] = {zk_ge( v.z, mkInt(lo)), zk_le( v.z, mkInt(hi))};
        std::vector<i64> k = {-1, (i64)id};
        auto &z = atomAst[k];
        if (!z) z = keep(Z3_mk_and(ctx, 2, a));
        addPC(z);
    }
    return id;
}

i128 gcd128(i128 a, i128 b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) {
        i128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}

void refreshTV(TV &t) {
    if (t.path == pathNo) return;
    t.path = pathNo;
    t.lo = t.hi = t.val = 0;
    for (auto &x : t.t) {
        auto &v = vars[x.v];
        t.val += (i128)x.c * v.val;
        if (x.c > 0) {
            t.lo += (i128)x.c * v.lo;
            t.hi += (i128)x.c * v.hi;
        } else {
            t.lo += (i128)x.c * v.hi;
            t.hi += (i128)x.c * v.lo;
        }
    }
}

// normalise a sorted term list; returns tv id and multiplier
u32 internTV(std::vector<Term> const &t, i64 &mul) {
    i128 g = 0;
    for (auto &x : t) g = gcd128(g, x.c);
    if (t[0].c < 0) g = -g;
    mul = (i64)g;
    std::vector<i64> key;
    key.reserve(t.size() * 2);
    for (auto &x : t) {
        key.push_back(x.v);
        key.push_back((i64)(x.c / g));
    }
    auto it = tvIndex.find(key);
    if (it != tvIndex.end()) {
        refreshTV(tvs[it->second]);
        return it->second;
    }
    TV n;
    std::vector<Z3_ast> as;
    for (size_t i = 0; i < key.size(); i += 2) {
        n.t.push_back({(u32)key[i], key[i + 1]});
        Z3_ast v = vars[key[i]].z;
        if (key[i + 1] != 1) {
            Z3_ast m[2] = {mkInt(key[i + 1]), v};
            v = zk_mul( 2, m);
        }
        as.push_back(keep(v));
    }
    n.z = keep(as.size() == 1 ? as[0] : Z3_mk_add(ctx, as.size(), as.data()));
    n.path = 0;
    tvs.push_back(n);
    u32 id = tvs.size() - 1;
    tvIndex.emplace(key, id);
    refreshTV(tvs[id]);
    return id;
}

// ------------------------------------------------------------ linear views
struct Lin {
    bool isConst;
    u32 tv;
    i128 mul, cst;
    i128 lo() const { return isConst ? cst : (mul > 0 ? mul * tvs[tv].lo : mul * tvs[tv].hi) + cst; }
    i128 hi() const { return isConst ? cst : (mul > 0 ? mul * tvs[tv].hi : mul * tvs[tv].lo) + cst; }
    i128 val() const { return isConst ? cst : mul * tvs[tv].val + cst; }
};
Lin cLin(i128 c) { return {true, 0, 0, c}; }

i64 fit(i128 v) {
    if (v > INT64_MAX || v < INT64_MIN) engineError("coefficient out of range");
    return (i64)v;
}

Lin linAdd(Lin const &a, Lin const &b, int sb) {
    if (b.isConst) return {a.isConst, a.tv, a.mul, a.cst + sb * b.cst};
    if (a.isConst) return {false, b.tv, sb * b.mul, a.cst + sb * b.cst};
    if (a.tv == b.tv) {
        i128 m = a.mul + sb * b.mul;
        if (m == 0) return cLin(a.cst + sb * b.cst);
        return {false, a.tv, m, a.cst + sb * b.cst};
    }
    auto &x = tvs[a.tv].t;
    auto &y = tvs[b.tv].t;
    std::vector<Term> r;
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
        if (j == y.size() || (i < x.size() && vars[x[i].v].rank < vars[y[j].v].rank)) {
            r.push_back({x[i].v, fit(a.mul * x[i].c)});
            ++i;
        } else if (i == x.size() || vars[y[j].v].rank < vars[x[i].v].rank) {
            r.push_back({y[j].v, fit(sb * b.mul * y[j].c)});
            ++j;
        } else {
            i128 c = a.mul * x[i].c + sb * b.mul * y[j].c;
            if (c != 0) r.push_back({x[i].v, fit(c)});
            ++i;
            ++j;
        }
    }
    if (r.empty()) return cLin(a.cst + sb * b.cst);
    i64 m;
    u32 tv = internTV(r, m);
    return {false, tv, m, a.cst + sb * b.cst};
}

u32 addNode(Node const &n) {
    if (nodes.size() > 20000000) engineError("too many expression nodes");
    nodes.push_back(n);
    return nodes.size() - 1;
}

bool branchTrue(u32 b); // decide a boolean node by its concrete value
template <class F> void branchBlock(u32 tv, F block, int limit, char const *why);

// atom tv <= k
u32 mkLE(u32 tv, i128 k, bool cval) {
    auto &t = tvs[tv];
    if (k >= t.hi) return 0;
    if (k < t.lo) return 0;
    Node n{};
    n.k = K_LE;
    n.w = 1;
    n.cval = cval;
    n.tv = tv;
    n.cst = k;
    return addNode(n);
}
u32 mkEQ(u32 tv, i128 k, bool cval) {
    auto &t = tvs[tv];
    if (k > t.hi || k < t.lo) return 0;
    if (t.lo == t.hi) return 0;
    if (k == t.lo) return mkLE(tv, k, cval);
    Node n{};
    if (k == t.hi) {
        // tv >= k  <=>  not tv <= k-1
        u32 l = mkLE(tv, k - 1, !cval);
        n.k = K_NOT;
        n.w = 1;
        n.cval = cval;
        n.a = l;
        return addNode(n);
    }
    n.k = K_EQ;
    n.w = 1;
    n.cval = cval;
    n.tv = tv;
    n.cst = k;
    return addNode(n);
}
u32 mkNot(u32 a) {
    if (!a) return 0;
    if (nodes[a].k == K_NOT) return nodes[a].a;
    Node n{};
    n.k = K_NOT;
    n.w = 1;
    n.cval = !nodes[a].cval;
    n.a = a;
    return addNode(n);
}
u32 mkBool2(Kind k, u32 a, u32 b, bool cval) {
    Node n{};
    n.k = k;
    n.w = 1;
    n.cval = cval;
    n.a = a;
    n.b = b;
    return addNode(n);
}
// lin <= 0
u32 linLE0(Lin const &l) {
    if (l.isConst) return 0;
    bool cv = l.val() <= 0;
    if (l.mul > 0) return mkLE(l.tv, floordiv(-l.cst, l.mul), cv);
    // mul < 0: tv >= ceil(cst / -mul)  <=> not tv <= ceil-1
    i128 k = ceildiv(l.cst, -l.mul);
    return mkNot(mkLE(l.tv, k - 1, !cv));
}
u32 linEQ0(Lin const &l) {
    if (l.isConst) return 0;
    i128 m = l.mul, c = l.cst;
    if (c % m != 0) return 0;
    return mkEQ(l.tv, -c / m, l.val() == 0);
}

u32 mkLinRaw(Lin const &l, unsigned w, u64 cval) {
    if (l.isConst) {
        if ((((u64)(i64)l.cst) & mask(w)) != (cval & mask(w))) engineError("value mismatch (const) %lld vs %llx", (long long)l.cst, (unsigned long long)cval);
        return 0;
    }
    if ((i64)l.val() != sext(cval, w)) engineError("value mismatch %lld vs %lld w=%u", (long long)l.val(), (long long)sext(cval, w), w);
    if (tvs[l.tv].lo == tvs[l.tv].hi) return 0;
    Node n{};
    n.k = K_LIN;
    n.w = w;
    n.cval = cval & mask(w);
    n.tv = l.tv;
    n.mul = l.mul;
    n.cst = l.cst;
    return addNode(n);
}

// bring a mathematical value into w-bit two's complement, forking on the window
} // namespace
extern "C" {
static Lin floorDivLin(Lin const &a, i128 d);
void sym_fail(char const *msg);
}
namespace {

u32 mkLinWrap(Lin l, unsigned w, u64 cval) {
    if (l.isConst) {
        l.cst = sext((u64)(i64)l.cst, w);
        return mkLinRaw(l, w, cval);
    }
    if (l.lo() < smin(w) || l.hi() > smax(w)) {
        i128 W = (i128)1 << w;
        i128 windows = (l.hi() - l.lo()) / W;
        if (windows > 4096) {
            // too many windows to split on; use a quotient
            Lin s = l;
            s.cst -= smin(w);
            Lin q = floorDivLin(s, W);
            q.mul *= W;
            q.cst *= W;
            return mkLinRaw(linAdd(l, q, -1), w, cval);
        }
        i128 k = floordiv(l.val() - smin(w), W);
        branchBlock(
            l.tv,
            [&](i64 v) {
                i128 q = floordiv(l.mul * v + l.cst - smin(w), W);
                // smin <= mul*v + cst - q*W <= smax
                i128 a = smin(w) + q * W - l.cst, b = smax(w) + q * W - l.cst;
                i128 lo = l.mul > 0 ? ceildiv(a, l.mul) : ceildiv(-b, -l.mul), hi = l.mul > 0 ? floordiv(b, l.mul) : floordiv(-a, -l.mul);
                auto clamp = [](i128 x) { return (i64)std::max<i128>(std::min<i128>(x, INT64_MAX), INT64_MIN); };
                return std::make_pair(clamp(lo), clamp(hi));
            },
            4097, "wrap");
        l.cst -= k * W;
    }
    return mkLinRaw(l, w, cval);
}

Lin toLin(u32 id, u64 v, unsigned w);

void concretise(u32 id, u64 v, int limit, char const *why);

// ----------------------------------------------------------------- z3 terms
Z3_ast boolAst(u32 id) {
    Node const &n = nodes[id];
    switch (n.k) {
        case K_LE:
        case K_EQ: {
            std::vector<i64> key = {n.k, (i64)n.tv, (i64)n.cst, (i64)(n.cst >> 64)};
            auto &z = atomAst[key];
            if (!z) {
                // bound against a plain sum
                z = keep(n.k == K_LE ? zk_le( tvs[n.tv].z, mkInt(n.cst)) : zk_eq( tvs[n.tv].z, mkInt(n.cst)));
            }
            return z;
        }
        case K_NOT: {
            Z3_ast c = boolAst(n.a);
            std::vector<i64> key = {100, (i64)Z3_get_ast_id(ctx, c)};
            auto &z = atomAst[key];
            if (!z) z = keep(Z3_mk_not(ctx, c));
            return z;
        }
        case K_AND:
        case K_OR:
        case K_IFF: {
            Z3_ast a[2] = {boolAst(n.a), boolAst(n.b)};
            std::vector<i64> key = {100 + n.k, (i64)Z3_get_ast_id(ctx, a[0]), (i64)Z3_get_ast_id(ctx, a[1])};
            auto &z = atomAst[key];
            if (!z)
                z = keep(n.k == K_AND ? Z3_mk_and(ctx, 2, a) : n.k == K_OR ? Z3_mk_or(ctx, 2, a) : Z3_mk_iff(ctx, a[0], a[1]));
            return z;
        }
        default: engineError("not a boolean node");
    }
}
u64 boolHash(u32 id) {
    Node const &n = nodes[id];
    u64 h = n.k * 0x9e3779b97f4a7c15ull;
    auto mix = [&](u64 x) { h = (h ^ x) * 0xff51afd7ed558ccdull; h ^= h >> 29; };
    switch (n.k) {
        case K_LE:
        case K_EQ:
            for (auto &t : tvs[n.tv].t) {
                for (char c : vars[t.v].name) mix(c);
                mix(t.c);
            }
            mix((u64)n.cst);
            mix((u64)(n.cst >> 64));
            break;
        case K_NOT: mix(boolHash(n.a)); break;
        default:
            mix(boolHash(n.a));
            mix(boolHash(n.b));
    }
    return h;
}
// assert node with given polarity to the path bounds
void assume(u32 id, bool pos) {
    Node const n = nodes[id];
    switch (n.k) {
        case K_LE: {
            auto &t = tvs[n.tv];
            if (pos)
                t.hi = std::min<i128>(t.hi, n.cst);
            else
                t.lo = std::max<i128>(t.lo, (i128)n.cst + 1);
            if (t.t.size() == 1 && t.t[0].c == 1) {
            }
            break;
        }
        case K_EQ: {
            auto &t = tvs[n.tv];
            if (pos)
                t.lo = t.hi = n.cst;
            else {
                if (t.lo == n.cst) ++t.lo;
                if (t.hi == n.cst) --t.hi;
            }
            break;
        }
        case K_NOT: assume(n.a, !pos); break;
        case K_AND:
            if (pos) {
                assume(n.a, true);
                assume(n.b, true);
            }
            break;
        case K_OR:
            if (!pos) {
                assume(n.a, false);
                assume(n.b, false);
            }
            break;
        default: break;
    }
}

// value of a boolean node if the bounds of the path decide it, otherwise -1
int evalBool(u32 id) {
    Node const &n = nodes[id];
    switch (n.k) {
        case K_LE: {
            auto &t = tvs[n.tv];
            return t.hi <= n.cst ? 1 : t.lo > n.cst ? 0 : -1;
        }
        case K_EQ: {
            auto &t = tvs[n.tv];
            return t.hi < n.cst || t.lo > n.cst ? 0 : t.lo == t.hi ? 1 : -1;
        }
        case K_NOT: {
            int a = evalBool(n.a);
            return a < 0 ? a : !a;
        }
        case K_AND: {
            int a = evalBool(n.a), b = evalBool(n.b);
            return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : -1;
        }
        case K_OR: {
            int a = evalBool(n.a), b = evalBool(n.b);
            return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : -1;
        }
        case K_IFF: {
            int a = evalBool(n.a), b = evalBool(n.b);
            return a < 0 || b < 0 ? -1 : a == b;
        }
        default: return -1;
    }
}

void syncSolver() {
    size_t i = 0;
    while (i < pc.size() && i < solverStack.size() && pc[i] == solverStack[i]) ++i;
    if (solverStack.size() > i) {
        Z3_solver_pop(ctx, solver, solverStack.size() - i);
        solverStack.resize(i);
    }
    for (; i < pc.size(); ++i) {
        Z3_solver_push(ctx, solver);
        Z3_solver_assert(ctx, solver, pc[i]);
        solverStack.push_back(pc[i]);
    }
}

// check path condition and extra; fill model for the inputs
int query(Z3_ast extra, std::vector<i64> *model, u32 evalTv = 0, i64 *evalOut = nullptr) {
    double t0 = now();
    syncSolver();
    Z3_solver_push(ctx, solver);
    Z3_solver_assert(ctx, solver, extra);
    Z3_lbool r = Z3_solver_check(ctx, solver);
    Z3_solver used = solver;
    if (r == Z3_L_UNDEF) {
        // the incremental solver got lost; start over with fresh ones
        __atomic_add_fetch(&S->qretry, 1, __ATOMIC_RELAXED);
        for (int k = 0; k < 4 && r == Z3_L_UNDEF; ++k) {
            Z3_solver f = k % 2 == 0 ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, nonlinear ? "QF_NIA" : "QF_LIA"));
            Z3_solver_inc_ref(ctx, f);
            Z3_params p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), k < 2 ? 5000 : 60000);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), k + 1);
            Z3_solver_set_params(ctx, f, p);
            Z3_params_dec_ref(ctx, p);
            for (auto &z : pc) Z3_solver_assert(ctx, f, z);
            Z3_solver_assert(ctx, f, extra);
            r = Z3_solver_check(ctx, f);
            if (used != solver) Z3_solver_dec_ref(ctx, used);
            used = f;
        }
        if (auto *fn = getenv("SYM_SLOW")) {
            char nm[200];
            snprintf(nm, sizeof nm, "%s.%d.%d.smt2", fn, getpid(), (int)S->qretry);
            FILE *o = fopen(nm, "w");
            fputs(Z3_solver_to_string(ctx, used), o);
            fclose(o);
        }
    }
    if (r == Z3_L_TRUE && model) {
        Z3_model m = Z3_solver_get_model(ctx, used);
        Z3_model_inc_ref(ctx, m);
        model->clear();
        for (u32 v : inputs) {
            Z3_ast out;
            i64 x = vars[v].val;
            if (Z3_model_eval(ctx, m, vars[v].z, true, &out)) {
                Z3_inc_ref(ctx, out);
                int64_t y;
                if (Z3_get_numeral_int64(ctx, out, &y)) x = y;
                Z3_dec_ref(ctx, out);
            }
            // unconstrained variables may take any value in their range
            if (x < vars[v].lo) x = vars[v].lo;
            if (x > vars[v].hi) x = vars[v].hi;
            model->push_back(x);
        }
        if (evalOut) {
            Z3_ast out;
            if (!Z3_model_eval(ctx, m, tvs[evalTv].z, true, &out)) engineError("model evaluation");
            Z3_inc_ref(ctx, out);
            int64_t y;
            if (!Z3_get_numeral_int64(ctx, out, &y)) engineError("model evaluation");
            *evalOut = y;
            Z3_dec_ref(ctx, out);
        }
        Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_pop(ctx, solver, 1);
    u64 ns = (u64)((now() - t0) * 1e9);
    __atomic_add_fetch(&S->queries, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&S->solverNs, ns, __ATOMIC_RELAXED);
    __atomic_add_fetch(r == Z3_L_TRUE ? &S->qsat : r == Z3_L_FALSE ? &S->qunsat : &S->qunknown, 1, __ATOMIC_RELAXED);
    if (r == Z3_L_UNDEF) engineError("solver returned unknown: %s", Z3_solver_get_reason_unknown(ctx, used));
    if (used != solver) Z3_solver_dec_ref(ctx, used);
    return r == Z3_L_TRUE;
}

void pushJob(std::vector<i64> const &vals, u32 prefix, u64 hash) {
    pthread_mutex_lock(&S->mx);
    if (S->top >= MAXJOBS) {
        S->error = 1;
        snprintf(S->emsg, sizeof S->emsg, "job stack overflow");
        S->stop = 1;
    } else {
        Job &j = JOBS[S->top++];
        if (S->top > S->maxTop) S->maxTop = S->top;
        j.variant = cur.variant;
        j.prefix = prefix;
        j.hash = hash;
        j.n = vals.size();
        memcpy(j.vals, vals.data(), vals.size() * sizeof(i64));
    }
    pthread_mutex_unlock(&S->mx);
}

void recordViolation(char const *msg, std::vector<i64> const &vals) {
    pthread_mutex_lock(&S->mx);
    if (!S->violation) {
        S->violation = 1;
        snprintf(S->vmsg, sizeof S->vmsg, "%s", msg);
        S->vvariant = cur.variant;
        S->vn = vals.size();
        for (u32 i = 0; i < vals.size(); ++i) {
            auto &v = vars[inputs[i]];
            snprintf(S->vnames[i], sizeof S->vnames[i], "%s", v.name.c_str());
            S->vlo[i] = v.lo;
            S->vhi[i] = v.hi;
            S->vvals[i] = vals[i];
        }
    }
    S->stop = 1;
    pthread_mutex_unlock(&S->mx);
}

std::vector<i64> currentInputs() {
    std::vector<i64> r;
    for (u32 v : inputs) r.push_back(vars[v].val);
    return r;
}

// debugging aid: SYM_TRACE=1 prints the decisions of every path
int traceOn = -1;
int ndOn = -1;
struct NdRec {
    u32 d;
    char const *what;
    Z3_ast z;
    int n = 0;
    void *bt[40];
};
std::vector<NdRec> ndLog;
void trace(char const *what, Z3_ast z, bool fresh) {
    if (ndOn < 0) ndOn = getenv("SYM_ND") != nullptr;
    if (ndOn) {
        NdRec r;
        r.d = decisions;
        r.what = what;
        r.z = z;
        if (what[1] != 'r') r.n = backtrace(r.bt, 40);
        ndLog.push_back(r);
    }
    if (traceOn < 0) traceOn = getenv("SYM_TRACE") != nullptr;
    if (!traceOn) return;
    fprintf(stderr, "[%d] %u/%u %s%s %s h=%llx want=%llx\n", getpid(), decisions, cur.prefix, fresh ? "NEW " : "", what, Z3_ast_to_string(ctx, z), (unsigned long long)decHash,
            (unsigned long long)cur.hash);
}
[[noreturn]] void endPath(int how) { longjmp(pathEnd, how); }

// exploring decision on boolean node b whose concrete value is taken
bool branchTrue(u32 b) {
    if (!b) return true;
    if (nodes[b].k == K_NOT) return !branchTrue(nodes[b].a);
    bool val = nodes[b].cval;
    if (int e = evalBool(b); e >= 0) {
        if (e != val) engineError("inconsistent bounds");
        return val;
    }
    ++decisions;
    u64 h = boolHash(b);
    u64 prev = decHash;
    auto step = [&](bool o) {
        u64 x = prev ^ (h + (o ? 0x1234567 : 0x7654321));
        x *= 0xc4ceb9fe1a85ec53ull;
        return x ^ (x >> 31);
    };
    decHash = step(val);
    Z3_ast z = boolAst(b);
    u32 nb = mkNot(b);
    Z3_ast nz = boolAst(nb);
    trace("branch", val ? z : nz, decisions > cur.prefix);
    if (decisions <= cur.prefix) {
        if (decisions == cur.prefix && decHash != cur.hash) engineError("non-deterministic replay of a path prefix (variant %d, decision %u)", cur.variant, decisions);
    } else {
        std::vector<i64> model;
        if (query(val ? nz : z, &model)) pushJob(model, decisions, step(!val));
    }
    addPC(val ? z : nz);
    assume(b, val);
    return val;
}

// Multi-way decision: the block of values of tv (between from and to, as given
// by the callback) that contains the current value is taken; one job is queued
// for every other feasible block.
template <class F>
void branchBlock(u32 tv, F block, int limit, char const *why) {
    i64 val = fit(tvs[tv].val);
    std::pair<i64, i64> mine = block(val);
    if (tvs[tv].lo >= mine.first && tvs[tv].hi <= mine.second) return;
    u64 h = 0x5555;
    auto mix = [&](u64 x) { h = (h ^ x) * 0xff51afd7ed558ccdull; h ^= h >> 29; };
    for (auto &t : tvs[tv].t) {
        for (char c : vars[t.v].name) mix(c);
        mix(t.c);
    }
    ++decisions;
    u64 prev = decHash;
    auto step = [&](i64 key) {
        u64 x = (prev ^ h ^ ((u64)key * 0x9e3779b97f4a7c15ull)) * 0xc4ceb9fe1a85ec53ull;
        return x ^ (x >> 31);
    };
    auto atom = [&](std::pair<i64, i64> b) {
        Z3_ast a[2] = {zk_ge( tvs[tv].z, mkInt(b.first)), zk_le( tvs[tv].z, mkInt(b.second))};
        std::vector<i64> key = {-2, (i64)tv, b.first, b.second};
        auto &z = atomAst[key];
        if (!z) z = keep(b.first == b.second ? zk_eq( tvs[tv].z, mkInt(b.first)) : Z3_mk_and(ctx, 2, a));
        return z;
    };
    decHash = step(mine.first);
    Z3_ast z = atom(mine);
    trace(why, z, decisions > cur.prefix);
    if (decisions <= cur.prefix) {
        if (decisions == cur.prefix && decHash != cur.hash) engineError("non-deterministic replay of a path prefix (variant %d, decision %u, block)", cur.variant, decisions);
    } else {
        std::vector<Z3_ast> no;
        auto neg = [&](Z3_ast a) {
            std::vector<i64> key = {100, (i64)Z3_get_ast_id(ctx, a)};
            auto &n = atomAst[key];
            if (!n) n = keep(Z3_mk_not(ctx, a));
            no.push_back(n);
        };
        neg(z);
        std::vector<i64> model;
        i64 v;
        while (true) {
            Z3_ast c = keep(Z3_mk_and(ctx, no.size(), no.data()));
            if (!query(c, &model, tv, &v)) break;
            if ((int)no.size() > limit) engineError("more than %d values (%s)", limit, why);
            auto b = block(v);
            pushJob(model, decisions, step(b.first));
            neg(atom(b));
        }
    }
    addPC(z);
    auto &t = tvs[tv];
    t.lo = std::max<i128>(t.lo, mine.first);
    t.hi = std::min<i128>(t.hi, mine.second);
}

void concretise(u32 id, u64 v, int limit, char const *why) {
    if (!id) return;
    Node const n = nodes[id];
    switch (n.k) {
        case K_LIN:
        case K_FP: {
            branchBlock(n.tv, [](i64 v) { return std::make_pair(v, v); }, limit, why);
            return;
        }
        case K_CAT:
            for (u32 i = 0; i < n.b; ++i) {
                Seg s = segs[n.a + i];
                if (s.id) concretise(s.id, nodes[s.id].cval, limit, why);
            }
            return;
        case K_B2I: branchTrue(n.a); return;
        default: branchTrue(id); return;
    }
}

// ------------------------------------------------------------------- CAT
u32 mkCat(std::vector<Seg> const &in, unsigned w, u64 cval) {
    std::vector<Seg> s;
    for (auto x : in) {
        if (x.len == 0) continue;
        if (!s.empty()) {
            auto &p = s.back();
            if (p.id == 0 && x.id == 0) {
                p.bytes |= p.len >= 8 ? 0 : (x.bytes << (8 * p.len));
                p.len += x.len;
                continue;
            }
            if (p.id && p.id == x.id && p.off + p.len == x.off) {
                p.bytes |= x.bytes << (8 * p.len);
                p.len += x.len;
                continue;
            }
        }
        s.push_back(x);
    }
    bool any = false;
    for (auto &x : s) any |= x.id != 0;
    if (!any) return 0;
    if (s.size() == 1 && s[0].off == 0 && s[0].len * 8 == std::max<unsigned>(nodes[s[0].id].w, 8) && s[0].len * 8 == w && nodes[s[0].id].w == w) return s[0].id;
    Node n{};
    n.k = K_CAT;
    n.w = w;
    n.cval = cval & mask(w);
    n.a = segs.size();
    n.b = s.size();
    segs.insert(segs.end(), s.begin(), s.end());
    return addNode(n);
}
std::vector<Seg> toSegs(u32 id, u64 v, unsigned w) {
    std::vector<Seg> r;
    if (!id) {
        r.push_back({0, 0, (u8)(w / 8), v & mask(w)});
        return r;
    }
    Node const &n = nodes[id];
    if (n.k == K_CAT) {
        r.assign(segs.begin() + n.a, segs.begin() + n.a + n.b);
        return r;
    }
    r.push_back({id, 0, (u8)(w / 8), v & mask(w)});
    return r;
}
std::vector<Seg> slice(std::vector<Seg> const &s, unsigned from, unsigned len) {
    std::vector<Seg> r;
    unsigned pos = 0;
    for (auto x : s) {
        unsigned b = std::max(pos, from), e = std::min<unsigned>(pos + x.len, from + len);
        if (b < e) {
            Seg y = x;
            y.off = x.off + (b - pos);
            y.len = e - b;
            y.bytes = (x.bytes >> (8 * (b - pos))) & mask(8 * y.len);
            if (!y.id) y.off = 0;
            r.push_back(y);
        }
        pos += x.len;
    }
    return r;
}

// some bytes of a linear expression as an unsigned number
Lin partLin(Node const &m, Seg const &s) {
    Lin l{false, m.tv, m.mul, m.cst};
    if (tvs[l.tv].lo == tvs[l.tv].hi) l = cLin(l.val());
    Lin q = s.off ? floorDivLin(l, (i128)1 << (8 * s.off)) : l;
    Lin h = floorDivLin(l, (i128)1 << (8 * (s.off + s.len)));
    h.mul *= (i128)1 << (8 * s.len);
    h.cst *= (i128)1 << (8 * s.len);
    return linAdd(q, h, -1);
}

Lin catToLin(u32 id) {
    Node n = nodes[id];
    Lin r = cLin(0);
    unsigned pos = 0;
    for (u32 i = 0; i < n.b; ++i) {
        Seg s = segs[n.a + i];
        bool top = i + 1 == n.b;
        i128 f = (i128)1 << (8 * pos);
        if (!s.id) {
            i128 v = s.bytes;
            if (top) v = sext(s.bytes, s.len * 8);
            r.cst += v * f;
        } else {
            Node m = nodes[s.id];
            Lin l;
            if (m.k == K_LIN && s.off == 0 && s.len * 8 == m.w) {
                l = {false, m.tv, m.mul, m.cst};
                if (tvs[l.tv].lo == tvs[l.tv].hi) l = cLin(l.val());
                if (!top && l.lo() < 0) {
                    // decide the sign
                    Lin g = l; // l <= -1
                    g.cst += 1;
                    u32 c = linLE0(g);
                    bool neg = l.val() < 0;
                    branchTrue(c);
                    if (neg) l.cst += (i128)1 << m.w;
                }
            } else if (m.k == K_LIN) {
                l = partLin(m, s);
                if (top) {
                    // the sign bit of the result
                    Lin g = l; // l >= 2^(n-1)
                    g.mul = -g.mul;
                    g.cst = ((i128)1 << (8 * s.len - 1)) - g.cst;
                    u32 c = linLE0(g);
                    bool neg = g.val() <= 0;
                    if (c) branchTrue(c);
                    if (neg) l.cst -= (i128)1 << (8 * s.len);
                }
            } else {
                concretise(s.id, m.cval, concLimit, "partial value");
                i128 v = s.bytes;
                if (top) v = sext(s.bytes, s.len * 8);
                l = cLin(v);
            }
            Lin sc = l;
            sc.mul *= f;
            sc.cst *= f;
            r = linAdd(r, sc, 1);
        }
        pos += s.len;
    }
    return r;
}

Lin toLin(u32 id, u64 v, unsigned w) {
    if (!id) return cLin(sext(v, w));
    Node n = nodes[id];
    switch (n.k) {
        case K_LIN: {
            if (tvs[n.tv].lo == tvs[n.tv].hi) return cLin(sext(v, w));
            return {false, n.tv, n.mul, n.cst};
        }
        case K_CAT: return catToLin(id);
        default: concretise(id, v, concLimit, "toLin"); return cLin(sext(v, w));
    }
}
double asD(u64 v) {
    double d;
    memcpy(&d, &v, 8);
    return d;
}
// dyadic view of a double: value = lin / 2^scale
bool toFp(u32 id, u64 v, Lin &l, int &scale) {
    if (!id) {
        double d = asD(v);
        if (std::isnan(d) || std::isinf(d)) return false;
        int s = 0;
        while (d != std::floor(d)) {
            d *= 2;
            if (++s > 30) return false;
        }
        if (std::fabs(d) > 9007199254740992.0) return false;
        scale = s;
        l = cLin((i128)d);
        return true;
    }
    Node n = nodes[id];
    if (n.k != K_FP) return false;
    l = {false, n.tv, n.mul, n.cst};
    scale = n.scale;
    return true;
}
u32 mkFp(Lin const &l, int scale, u64 cval) {
    double real = (double)(i64)l.val() / (double)(1ull << scale);
    if (real != asD(cval)) engineError("fp value mismatch %g vs %g", real, asD(cval));
    if (l.isConst) return 0;
    if (tvs[l.tv].lo == tvs[l.tv].hi) return 0;
    Node n{};
    n.k = K_FP;
    n.w = 64;
    n.scale = scale;
    n.cval = cval;
    n.tv = l.tv;
    n.mul = l.mul;
    n.cst = l.cst;
    return addNode(n);
}
bool fpExact(Lin const &l) { return l.lo() >= -((i128)1 << 53) && l.hi() <= ((i128)1 << 53); }
bool fpAlign(Lin &a, int sa, Lin &b, int sb, int &s) {
    s = std::max(sa, sb);
    a.mul <<= (s - sa);
    a.cst *= (i128)1 << (s - sa);
    b.mul <<= (s - sb);
    b.cst *= (i128)1 << (s - sb);
    return fpExact(a) && fpExact(b);
}

u32 toBool(u32 id, u64 v, unsigned w) { // id of width-1 or B2I node
    if (!id) return 0;
    if (nodes[id].k == K_B2I) return nodes[id].a;
    if (nodes[id].w == 1) return id;
    (void)v;
    (void)w;
    engineError("toBool");
}
bool isBoolish(u32 id) { return id && (nodes[id].k == K_B2I || nodes[id].w == 1); }

u32 boolAnd(u32 a, bool va, u32 b, bool vb) {
    if (!a) return va ? b : 0;
    if (!b) return vb ? a : 0;
    if (a == b) return a;
    return mkBool2(K_AND, a, b, va && vb);
}
u32 boolOr(u32 a, bool va, u32 b, bool vb) {
    if (!a) return va ? 0 : b;
    if (!b) return vb ? 0 : a;
    if (a == b) return a;
    return mkBool2(K_OR, a, b, va || vb);
}
u32 boolIff(u32 a, bool va, u32 b, bool vb) {
    if (!a && !b) return 0;
    if (!a) return va ? b : mkNot(b);
    if (!b) return vb ? a : mkNot(a);
    if (a == b) return 0;
    return mkBool2(K_IFF, a, b, va == vb);
}
u32 mkB2I(u32 b, unsigned w) {
    if (!b) return 0;
    Node n{};
    n.k = K_B2I;
    n.w = w;
    n.cval = nodes[b].cval;
    n.a = b;
    return addNode(n);
}

// --------------------------------------------------------------- shadow memory
struct Page {
    u32 id[4096];
    u8 off[4096];
    bool used;
};
std::unordered_map<u64, Page *> pages;
std::vector<std::pair<u64, Page *>> pageList;
std::vector<Page *> freePages;
constexpr int PC_N = 4096;
u64 pcKey[PC_N];
Page *pcVal[PC_N];
Page *findPage(u64 p) {
    unsigned h = p & (PC_N - 1);
    if (pcKey[h] == p) return pcVal[h];
    auto it = pages.find(p);
    Page *r = it == pages.end() ? nullptr : it->second;
    pcKey[h] = p;
    pcVal[h] = r;
    return r;
}
Page *makePage(u64 p) {
    Page *r = findPage(p);
    if (r) return r;
    if (freePages.empty())
        r = (Page *)calloc(1, sizeof(Page));
    else {
        r = freePages.back();
        freePages.pop_back();
        memset(r, 0, sizeof *r);
    }
    pages[p] = r;
    pageList.push_back({p, r});
    pcKey[p & (PC_N - 1)] = p;
    pcVal[p & (PC_N - 1)] = r;
    return r;
}
bool memReady = false;
void resetMem() {
    memReady = true;
    for (auto &x : pageList) freePages.push_back(x.second);
    pageList.clear();
    pages.clear();
    memset(pcKey, 0xff, sizeof pcKey);
}
inline u32 getSh(u64 a, u8 &off) {
    Page *p = findPage(a >> 12);
    if (!p) return 0;
    off = p->off[a & 4095];
    return p->id[a & 4095];
}
void clearRange(u64 a, u64 n) {
    while (n) {
        u64 in = std::min<u64>(n, 4096 - (a & 4095));
        Page *p = findPage(a >> 12);
        if (p) memset(p->id + (a & 4095), 0, in * 4);
        a += in;
        n -= in;
    }
}

std::unordered_set<void *> fnSet;

} // namespace

// fresh memory carries no symbolic values, also if it is requested by code that is not instrumented
static void *freshMem(size_t n, size_t al) {
    void *p = al <= 16 ? malloc(n ? n : 1) : aligned_alloc(al, (n + al - 1) / al * al);
    if (p && memReady) clearRange((u64)p, n);
    return p;
}
#define OPNEW(args, n, al)                                  \
    {                                                       \
        void *p = freshMem(n, al);                          \
        if (!p) throw std::bad_alloc();                     \
        return p;                                           \
    }
void *operator new(size_t n) OPNEW((n), n, 0)
void *operator new[](size_t n) OPNEW((n), n, 0)
void *operator new(size_t n, std::align_val_t a) OPNEW((n), n, (size_t)a)
void *operator new[](size_t n, std::align_val_t a) OPNEW((n), n, (size_t)a)
void *operator new(size_t n, std::nothrow_t const &) noexcept { return freshMem(n, 0); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return freshMem(n, 0); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }

extern "C" {

u32 __sym_load(void *ptr, u32 size, u32 kind, u64 val) {
    u64 a = (u64)ptr;
    Page *p = findPage(a >> 12);
    unsigned o = a & 4095;
    if (o + size <= 4096) {
        if (!p) return 0;
        u32 any = 0;
        for (unsigned i = 0; i < size; ++i) any |= p->id[o + i];
        if (!any) return 0;
    } else if (!p && !findPage((a + size - 1) >> 12))
        return 0;
    std::vector<Seg> s;
    u8 off;
    u32 first = getSh(a, off);
    bool whole = first && off == 0;
    for (unsigned i = 0; i < size; ++i) {
        u8 of = 0;
        u32 id = getSh(a + i, of);
        u64 byte = (val >> (8 * i)) & 0xff;
        if (id && (nodes[id].w == 1 ? nodes[id].cval : ((nodes[id].cval >> (8 * of)) & 0xff)) != byte) {
            id = 0; // overwritten behind our back
        }
        if (id != first || of != i) whole = false;
        s.push_back({id, id ? of : (u8)0, 1, byte});
    }
    if (whole) {
        Node const &n = nodes[first];
        if (n.w == 1) {
            if (kind == 2 && size == 1) return first;
            if (size == 1) return mkB2I(first, 8);
        } else if (n.w == size * 8) {
            if (kind == 2) return n.k == K_B2I ? n.a : first;
            if (kind == 1 && n.k != K_FP) {
                concretise(first, val, concLimit, "int read as fp");
                return 0;
            }
            return first;
        }
    }
    for (auto &x : s)
        if (x.id && nodes[x.id].w == 1) {
            x.id = mkB2I(x.id, 8);
        }
    u32 c = mkCat(s, size * 8, val);
    if (c && kind == 1) {
        if (nodes[c].k == K_FP) return c;
        concretise(c, val, concLimit, "mixed read as fp");
        return 0;
    }
    return c;
}

void __sym_store(void *ptr, u32 size, u32 id) {
    u64 a = (u64)ptr;
    if (!id) {
        clearRange(a, size);
        return;
    }
    for (unsigned i = 0; i < size; ++i) {
        Page *p = makePage((a + i) >> 12);
        p->id[(a + i) & 4095] = id;
        p->off[(a + i) & 4095] = i;
    }
    if (nodes[id].k == K_CAT) {
        // expand so that partial reads stay precise
        Node n = nodes[id];
        unsigned pos = 0;
        for (u32 i = 0; i < n.b; ++i) {
            Seg s = segs[n.a + i];
            for (unsigned k = 0; k < s.len; ++k, ++pos) {
                Page *p = makePage((a + pos) >> 12);
                p->id[(a + pos) & 4095] = s.id;
                p->off[(a + pos) & 4095] = s.off + k;
            }
        }
    }
}

void __sym_clear(void *ptr, u64 n) { clearRange((u64)ptr, n); }
void __sym_copy(void *dst, void *src, u64 n) {
    u64 d = (u64)dst, s = (u64)src;
    if (!n || d == s || !src) return;
    // fast path: nothing shadowed
    bool any = false;
    for (u64 p = s >> 12; p <= (s + n - 1) >> 12 && !any; ++p) any = findPage(p) != nullptr;
    if (!any) {
        clearRange(d, n);
        return;
    }
    std::vector<std::pair<u32, u8>> tmp(n);
    for (u64 i = 0; i < n; ++i) {
        u8 o = 0;
        u32 id = getSh(s + i, o);
        tmp[i] = {id, o};
    }
    for (u64 i = 0; i < n; ++i) {
        if (tmp[i].first) {
            Page *p = makePage((d + i) >> 12);
            p->id[(d + i) & 4095] = tmp[i].first;
            p->off[(d + i) & 4095] = tmp[i].second;
        } else {
            Page *p = findPage((d + i) >> 12);
            if (p) p->id[(d + i) & 4095] = 0;
        }
    }
}
void __sym_memset(void *dst, u32 id, u64 n) {
    if (!id) {
        clearRange((u64)dst, n);
        return;
    }
    for (u64 i = 0; i < n; ++i) __sym_store((char *)dst + i, 1, id);
}
void __sym_noshadow(void *ptr, u64 n) {
    for (u64 i = 0; i < n; ++i) {
        u8 o;
        u32 id = getSh((u64)ptr + i, o);
        if (id) {
            concretise(id, nodes[id].cval, concLimit, "unsupported access");
            u64 a = (u64)ptr + i;
            Page *p = findPage(a >> 12);
            if (p) p->id[a & 4095] = 0;
        }
    }
}

void __sym_conc(u32 id, u64 v) {
    if (id) concretise(id, v, concLimit, "address or size");
}
void __sym_branch(u32 id, u32 v) {
    if (!id) return;
    if (nodes[id].k == K_B2I) id = nodes[id].a;
    if ((bool)nodes[id].cval != (bool)v) engineError("branch mismatch");
    branchTrue(id);
}
void __sym_extarg(u32 id, u64 v, char const *fn) {
    if (!id) return;
    __atomic_add_fetch(&S->forcedConc, 1, __ATOMIC_RELAXED);
    concretise(id, v, concLimit, fn);
}
void __sym_extptr(void *p, char const *fn) {
    if (!p) return;
    u8 o;
    u64 a = (u64)p;
    u32 id = 0;
    for (int i = 0; i < 8 && !id; ++i) id = getSh(a + i, o);
    if (id) {
        // symbolic memory escapes to an external function: must be made concrete
        char buf[200];
        snprintf(buf, sizeof buf, "memory passed to %s", fn);
        // stale entries whose bytes were overwritten do not count
        for (int i = 0; i < 8; ++i) {
            u32 x = getSh(a + i, o);
            if (x) {
                u8 byte = *(u8 *)(a + i);
                u64 nb = nodes[x].w == 1 ? nodes[x].cval : ((nodes[x].cval >> (8 * o)) & 0xff);
                if (nb == byte) concretise(x, nodes[x].cval, concLimit, buf);
            }
        }
    }
}
void __sym_indirect(void *callee, u32 id, u64 v, u32) {
    if (!id) return;
    if (fnSet.count(callee)) return;
    concretise(id, v, concLimit, "indirect external call");
}

static u32 boolBin(unsigned op, u32 a, u32 b, bool va, bool vb) {
    switch (op) {
        case 28: return boolAnd(a, va, b, vb);
        case 29: return boolOr(a, va, b, vb);
        case 13:
        case 15:
        case 30: return mkNot(boolIff(a, va, b, vb));
        default: engineError("boolean op %u", op);
    }
}

// auxiliary quotient: a = d*q + r, 0 <= r < d, for d > 0 (floor division)
// product of two linear terms; returns false if it does not fit
static bool mulLin(Lin const &a, Lin const &b, Lin &r) {
    if (a.isConst || b.isConst) {
        Lin const &x = a.isConst ? b : a;
        i128 c = a.isConst ? a.cst : b.cst;
        r = c == 0 ? cLin(0) : x;
        if (c != 0) {
            if (!r.isConst) r.mul *= c;
            r.cst *= c;
        }
        return true;
    }
    u32 x = std::min(a.tv, b.tv), y = std::max(a.tv, b.tv);
    i128 lo = 0, hi = 0;
    bool first = true;
    for (i128 i : {(i128)tvs[x].lo, (i128)tvs[x].hi})
        for (i128 j : {(i128)tvs[y].lo, (i128)tvs[y].hi}) {
            i128 k = i * j;
            if (first || k < lo) lo = k;
            if (first || k > hi) hi = k;
            first = false;
        }
    if (lo < -((i128)1 << 62) || hi > ((i128)1 << 62)) return false;
    nonlinear = true;
    std::string nm = "p";
    for (u32 v : {x, y}) {
        for (auto &t : tvs[v].t) nm += "_" + vars[t.v].name + "x" + std::to_string(t.c);
        nm += "_times";
    }
    u32 q = mkVar(nm, fit(lo), fit(hi), fit((i128)tvs[x].val * tvs[y].val), true);
    i64 m;
    u32 tv = internTV({{q, 1}}, m);
    std::vector<i64> key = {-2, (i64)q, x, y};
    auto &z = atomAst[key];
    if (!z) {
        Z3_ast f[2] = {tvs[x].z, tvs[y].z};
        z = keep(zk_eq(tvs[tv].z, zk_mul(2, f)));
    }
    addPC(z);
    // (ma ta + ca) (mb tb + cb)
    r = Lin{false, tv, a.mul * b.mul, a.cst * b.cst};
    if (b.cst != 0) r = linAdd(r, Lin{false, a.tv, a.mul * b.cst, 0}, 1);
    if (a.cst != 0) r = linAdd(r, Lin{false, b.tv, b.mul * a.cst, 0}, 1);
    return true;
}

// truncating division of a >= 0 by b > 0
static bool divLin(Lin const &a, Lin const &b, Lin &q, Lin &rem) {
    i128 lo = a.lo() / std::max((i128)1, b.hi()), hi = a.hi() / std::max((i128)1, b.lo()), val = a.val() / b.val();
    if (lo < 0) lo = 0;
    std::string nm = "d";
    for (auto *l : {&a, &b}) {
        if (!l->isConst)
            for (auto &t : tvs[l->tv].t) nm += "_" + vars[t.v].name + "x" + std::to_string(t.c);
        nm += "m" + str128(l->isConst ? 0 : l->mul) + "c" + str128(l->cst);
    }
    u32 v = mkVar(nm, fit(lo), fit(hi), fit(val), true);
    i64 m;
    u32 tv = internTV({{v, 1}}, m);
    q = Lin{false, tv, 1, 0};
    Lin p;
    if (!mulLin(q, b, p)) return false;
    rem = linAdd(a, p, -1); // 0 <= rem < b
    Lin c1 = cLin(0), c2 = linAdd(rem, b, -1);
    c1 = linAdd(c1, rem, -1);
    c2.cst += 1;
    for (auto &c : {c1, c2}) {
        u32 n = linLE0(c);
        if (n) {
            addPC(boolAst(n));
            assume(n, true);
        }
    }
    return true;
}

static Lin floorDivLin(Lin const &a, i128 d) {
    if (a.isConst) return cLin(floordiv(a.cst, d));
    if (a.mul % d == 0) return {false, a.tv, a.mul / d, floordiv(a.cst, d)};
    i128 lo = floordiv(a.lo(), d), hi = floordiv(a.hi(), d), val = floordiv(a.val(), d);
    if (lo == hi) return cLin(lo);
    std::string nm = "q";
    for (auto &t : tvs[a.tv].t) nm += "_" + vars[t.v].name + "x" + std::to_string(t.c);
    nm += "m" + str128(a.mul) + "c" + str128(a.cst) + "d" + str128(d);
    u32 q = mkVar(nm, fit(lo), fit(hi), fit(val), true);
    i64 m;
    u32 tv = internTV({{q, 1}}, m);
    Lin lq{false, tv, 1, 0};
    // d*q <= a <= d*q + d - 1
    Lin dq = lq;
    dq.mul = d;
    Lin c1 = linAdd(dq, a, -1); // dq - a <= 0
    Lin c2 = linAdd(a, dq, -1);
    c2.cst -= d - 1; // a - dq - (d-1) <= 0
    for (auto &c : {c1, c2}) {
        u32 b = linLE0(c);
        if (b) {
            addPC(boolAst(b));
            assume(b, true);
        }
    }
    return lq;
}

// split on the sign of a linear value; afterwards the bounds reflect it
static bool signNeg(Lin const &l) {
    if (l.isConst) return l.cst < 0;
    bool neg = l.val() < 0;
    if (l.hi() < 0 || l.lo() >= 0) return neg;
    Lin g = l;
    g.cst += 1; // l <= -1
    branchTrue(linLE0(g));
    return neg;
}

// x & m for a mask of consecutive ones
static bool andMask(Lin a, u64 m, unsigned w, Lin &r) {
    m &= mask(w);
    if (m == 0) return false;
    unsigned i = __builtin_ctzll(m);
    u64 t = m >> i;
    if ((t & (t + 1)) != 0) return false;
    unsigned j = i + __builtin_popcountll(m);
    if (j > 62) return false;
    auto high = [&](unsigned k) { // a with the lower k bits cleared
        i128 d = (i128)1 << k;
        Lin q = floorDivLin(a, d);
        q.mul *= d;
        q.cst *= d;
        return q;
    };
    r = linAdd(high(i), high(j), -1);
    return true;
}

u32 __sym_bin(u32 op, u32 w, u32 sa, u32 sb, u64 va, u64 vb, u64 res) {
    if (!sa && !sb) return 0;
    bool disjoint = op & 0x200;
    op &= 0xff;
    res &= mask(w);
    // LLVM opcodes (18): Add13 FAdd14 Sub15 FSub16 Mul17 FMul18 UDiv19 SDiv20 FDiv21 URem22 SRem23 FRem24 Shl25 LShr26 AShr27 And28 Or29 Xor30
    if (w == 1) return boolBin(op, toBool(sa, va, w), toBool(sb, vb, w), va & 1, vb & 1);
    if (op == 14 || op == 16 || op == 18 || op == 21 || op == 24) {
        Lin a, b;
        int s1, s2, s;
        if (w == 64 && toFp(sa, va, a, s1) && toFp(sb, vb, b, s2)) {
            if (op == 14 || op == 16) {
                Lin x = a, y = b;
                if (fpAlign(x, s1, y, s2, s)) {
                    Lin r = linAdd(x, y, op == 14 ? 1 : -1);
                    if (fpExact(r)) return mkFp(r, s, res);
                }
            } else if (op == 18 && (a.isConst || b.isConst)) {
                Lin l = a.isConst ? b : a;
                i128 c = a.isConst ? a.cst : b.cst;
                l.mul *= c;
                l.cst *= c;
                if (c == 0) return 0;
                if (fpExact(l) && s1 + s2 <= 60) return mkFp(l, s1 + s2, res);
            } else if (op == 21 && b.isConst && b.cst != 0) {
                // division by a power of two (b = +-2^k / 2^s2)
                i128 c = b.cst < 0 ? -b.cst : b.cst;
                if ((c & (c - 1)) == 0) {
                    int k = 0;
                    while (((i128)1 << k) < c) ++k;
                    Lin l = a;
                    int sc = s1 + k - s2;
                    i128 f = b.cst < 0 ? -1 : 1;
                    for (; sc < 0; ++sc) f *= 2;
                    l.mul *= f;
                    l.cst *= f;
                    if (fpExact(l) && sc <= 60) return mkFp(l, sc, res);
                }
            }
        }
        if (w == 64 && (op == 14 || op == 16) && ((!sa && !std::isfinite(asD(va))) || (!sb && !std::isfinite(asD(vb))))) return 0;
        concretise(sa, va, concLimit, "fp op");
        concretise(sb, vb, concLimit, "fp op");
        return 0;
    }
    bool catA = sa && nodes[sa].k == K_CAT, catB = sb && nodes[sb].k == K_CAT;
    // boolean-as-integer
    if ((op == 28 || op == 29 || op == 30) && (sa ? isBoolish(sa) : va <= 1) && (sb ? isBoolish(sb) : vb <= 1) && !catA && !catB)
        return mkB2I(boolBin(op, toBool(sa, va, w), toBool(sb, vb, w), va & 1, vb & 1), w);
    if (op == 28 && ((sa && isBoolish(sa) && !sb && (vb & 1)) || (sb && isBoolish(sb) && !sa && (va & 1)))) return sa ? sa : sb;
    // byte level operations
    if (w % 8 == 0) {
        if ((op == 26 || op == 25 || op == 27) && !sb && vb % 8 == 0 && vb < w && (catA || op == 26)) {
            auto s = toSegs(sa, va, w);
            unsigned k = vb / 8;
            if (op == 26 || op == 27) {
                auto r = slice(s, k, w / 8 - k);
                if (op == 26) {
                    r.push_back({0, 0, (u8)k, 0});
                    // a plain non-negative value shifted right is handled linearly below
                    if (!(sa && nodes[sa].k == K_LIN)) return mkCat(r, w, res);
                } else {
                    // arithmetic: sign extend the remaining top part when it is a whole value
                    u32 top = mkCat(r, w - vb, (res & mask(w - vb)));
                    if (!top) return 0;
                    Lin l = toLin(top, res & mask(w - vb), w - vb);
                    return mkLinWrap(l, w, res);
                }
            } else {
                std::vector<Seg> r;
                r.push_back({0, 0, (u8)k, 0});
                for (auto &x : slice(s, 0, w / 8 - k)) r.push_back(x);
                return mkCat(r, w, res);
            }
        }
        if (op == 25 && !sb && vb % 8 == 0 && vb < w && sa && nodes[sa].k == K_LIN) {
            // pack shifts as concatenations when the linear form would wrap
            Lin l = toLin(sa, va, w);
            i128 f = (i128)1 << vb;
            if (!l.isConst && (l.lo() * f < smin(w) || l.hi() * f > smax(w))) {
                auto s = toSegs(sa, va, w);
                unsigned k = vb / 8;
                std::vector<Seg> r;
                r.push_back({0, 0, (u8)k, 0});
                for (auto &x : slice(s, 0, w / 8 - k)) r.push_back(x);
                return mkCat(r, w, res);
            }
        }
        if (op == 28 && (catA || catB || true) && (!sa || !sb)) {
            u64 m = sa ? vb : va;
            bool bytes = true;
            for (unsigned i = 0; i < w / 8; ++i) {
                u64 y = (m >> (8 * i)) & 0xff;
                if (y != 0 && y != 0xff) bytes = false;
            }
            u32 x = sa ? sa : sb;
            u64 xv = sa ? va : vb;
            if (bytes && (nodes[x].k == K_CAT || nodes[x].k == K_LIN)) {
                if (nodes[x].k == K_LIN) {
                    // masks that do not change the value
                    Lin l = toLin(x, xv, w);
                    if (l.isConst) return 0;
                    if (l.lo() >= 0 && l.hi() <= (i128)m && ((m + 1) & m) == 0) return x;
                }
                auto s = toSegs(x, xv, w);
                std::vector<Seg> r;
                for (unsigned i = 0; i < w / 8; ++i) {
                    if ((m >> (8 * i)) & 0xff) {
                        for (auto &y : slice(s, i, 1)) r.push_back(y);
                    } else
                        r.push_back({0, 0, 1, 0});
                }
                return mkCat(r, w, res);
            }
        }
        if ((op == 29 || op == 30 || op == 13) && (catA || catB)) {
            auto s = toSegs(sa, va, w), t = toSegs(sb, vb, w);
            std::vector<Seg> r;
            bool ok = true;
            for (unsigned i = 0; i < w / 8 && ok; ++i) {
                auto x = slice(s, i, 1)[0], y = slice(t, i, 1)[0];
                if (!x.id && x.bytes == 0)
                    r.push_back(y);
                else if (!y.id && y.bytes == 0)
                    r.push_back(x);
                else if (!x.id && !y.id && op != 13) {
                    x.bytes = op == 29 ? (x.bytes | y.bytes) : (x.bytes ^ y.bytes);
                    r.push_back(x);
                } else
                    ok = false;
            }
            if (ok) return mkCat(r, w, res);
        }
    }
    switch (op) {
        case 13:
        case 15: {
            Lin a = toLin(sa, va, w), b = toLin(sb, vb, w);
            return mkLinWrap(linAdd(a, b, op == 13 ? 1 : -1), w, res);
        }
        case 17: {
            Lin a = toLin(sa, va, w), b = toLin(sb, vb, w);
            Lin pr;
            if (!a.isConst && !b.isConst && tvs[a.tv].hi - tvs[a.tv].lo > 16 && tvs[b.tv].hi - tvs[b.tv].lo > 16 && mulLin(a, b, pr))
                return mkLinWrap(pr, w, res);
            if (!a.isConst && !b.isConst) {
                i128 ra = tvs[a.tv].hi - tvs[a.tv].lo, rb = tvs[b.tv].hi - tvs[b.tv].lo;
                if (ra < rb) {
                    concretise(sa, va, concLimit, "product");
                    a = cLin(sext(va, w));
                } else {
                    concretise(sb, vb, concLimit, "product");
                    b = cLin(sext(vb, w));
                }
            }
            if (a.isConst) std::swap(a, b);
            i128 c = b.cst;
            if (c == 0) return 0;
            Lin r = a;
            r.mul *= c;
            r.cst *= c;
            return mkLinWrap(r, w, res);
        }
        case 25: {
            if (sb) concretise(sb, vb, concLimit, "shift");
            Lin a = toLin(sa, va, w);
            i128 f = (i128)1 << vb;
            a.mul *= f;
            a.cst *= f;
            return mkLinWrap(a, w, res);
        }
        case 19:
        case 22:
        case 26: { // unsigned division by a constant
            if (sb && op != 26) {
                Lin b = toLin(sb, vb, w);
                if (!b.isConst && tvs[b.tv].hi - tvs[b.tv].lo > 16) {
                    if (u32 z = linEQ0(b)) branchTrue(z);
                    if (b.val() == 0) return 0;
                    Lin a = toLin(sa, va, w), q, r;
                    if (a.isConst ? a.cst < 0 : signNeg(a)) a.cst += (i128)1 << w;
                    if (signNeg(b)) b.cst += (i128)1 << w;
                    if (divLin(a, b, q, r)) return mkLinWrap(op == 22 ? r : q, w, res);
                }
            }
            if (sb) concretise(sb, vb, concLimit, "unsigned divisor");
            Lin a = toLin(sa, va, w);
            i128 d = op == 26 ? (i128)1 << vb : (i128)(vb & mask(w));
            if (signNeg(a)) a.cst += (i128)1 << w;
            Lin q = floorDivLin(a, d);
            if (op == 22) {
                Lin dq = q;
                dq.mul *= d;
                dq.cst *= d;
                Lin r = linAdd(a, dq, -1);
                return mkLinWrap(r, w, res);
            }
            return mkLinWrap(q, w, res);
        }
        case 20:
        case 23: { // signed division truncates towards zero
            Lin b = toLin(sb, vb, w);
            if (!b.isConst && tvs[b.tv].hi - tvs[b.tv].lo > 16) {
                if (u32 z = linEQ0(b)) branchTrue(z);
                if (b.val() == 0) return 0;
                Lin a = toLin(sa, va, w);
                bool na = a.isConst ? a.cst < 0 : signNeg(a), nb = signNeg(b);
                auto neg = [](Lin &l) {
                    l.mul = -l.mul;
                    l.cst = -l.cst;
                };
                Lin x = a, y = b, q, r;
                if (na) neg(x);
                if (nb) neg(y);
                if (divLin(x, y, q, r)) {
                    if (op == 23) {
                        if (na) neg(r);
                        return mkLinWrap(r, w, res);
                    }
                    if (na != nb) neg(q);
                    return mkLinWrap(q, w, res);
                }
            }
            if (!b.isConst) {
                concretise(sb, vb, concLimit, "divisor");
                b = cLin(sext(vb, w));
            }
            Lin a = toLin(sa, va, w);
            if (a.isConst) return 0;
            i128 d = b.cst;
            i128 ad = d < 0 ? -d : d;
            bool neg = signNeg(a);
            Lin m = a;
            if (neg) {
                m.mul = -m.mul;
                m.cst = -m.cst;
            }
            Lin q = floorDivLin(m, ad);
            if (op == 23) {
                Lin dq = q;
                dq.mul *= ad;
                dq.cst *= ad;
                Lin r = linAdd(m, dq, -1);
                if (neg) {
                    r.mul = -r.mul;
                    r.cst = -r.cst;
                }
                return mkLinWrap(r, w, res);
            }
            if (neg != (d < 0)) {
                q.mul = -q.mul;
                q.cst = -q.cst;
            }
            return mkLinWrap(q, w, res);
        }
        case 27: {
            if (sb) concretise(sb, vb, concLimit, "shift");
            return mkLinWrap(floorDivLin(toLin(sa, va, w), (i128)1 << vb), w, res);
        }
        case 28: {
            if (sa && sb) {
                concretise(sa, va, concLimit, "and");
                concretise(sb, vb, concLimit, "and");
                return 0;
            }
            u64 m = (sa ? vb : va) & mask(w);
            u32 x = sa ? sa : sb;
            u64 xv = sa ? va : vb;
            if (((m + 1) & m) == 0 && m) { // 2^k - 1
                Lin a = toLin(x, xv, w);
                i128 d = (i128)m + 1;
                Lin q = floorDivLin(a, d);
                q.mul *= d;
                q.cst *= d;
                return mkLinWrap(linAdd(a, q, -1), w, res);
            }
            i64 sm = sext(m, w);
            if (sm < 0 && ((-sm) & (-sm - 1)) == 0) { // -2^k
                Lin a = toLin(x, xv, w);
                i128 d = -(i128)sm;
                Lin q = floorDivLin(a, d);
                q.mul *= d;
                q.cst *= d;
                return mkLinWrap(q, w, res);
            }
            Lin r;
            if (andMask(toLin(x, xv, w), m, w, r)) return mkLinWrap(r, w, res);
            concretise(x, xv, concLimit, "and mask");
            return 0;
        }
        case 29: {
            if (disjoint) return mkLinWrap(linAdd(toLin(sa, va, w), toLin(sb, vb, w), 1), w, res);
            if (!sa || !sb) { // x|c = x + c - (x&c)
                u64 m = (sa ? vb : va) & mask(w);
                u32 x = sa ? sa : sb;
                Lin a = toLin(x, sa ? va : vb, w), r;
                if (m == (u64)1 << (w - 1)) {
                    if (signNeg(a)) return x;
                    return mkLinWrap(linAdd(a, cLin(sext(m, w)), 1), w, res);
                }
                if (andMask(a, m, w, r)) return mkLinWrap(linAdd(linAdd(a, cLin(sext(m, w)), 1), r, -1), w, res);
            }
            concretise(sa, va, concLimit, "or");
            concretise(sb, vb, concLimit, "or");
            return 0;
        }
        case 30: {
            if (!sa || !sb) {
                u64 m = (sa ? vb : va) & mask(w);
                if (m == mask(w)) { // ~x = -x-1
                    Lin a = toLin(sa ? sa : sb, sa ? va : vb, w);
                    return mkLinWrap(linAdd(cLin(-1), a, -1), w, res);
                }
                Lin a = toLin(sa ? sa : sb, sa ? va : vb, w), r;
                if (m == (u64)1 << (w - 1)) return mkLinWrap(linAdd(a, cLin(sext(m, w)), 1), w, res);
                if (m == ((u64)1 << (w - 1)) - 1) { // ~x with the sign flipped
                    return mkLinWrap(linAdd(cLin((i128)-1 + sext((u64)1 << (w - 1), w)), a, -1), w, res);
                }
                // x^c = x + c - 2*(x&c)
                if (andMask(a, m, w, r)) return mkLinWrap(linAdd(linAdd(a, cLin(sext(m, w)), 1), r, -2), w, res);
            }
            concretise(sa, va, concLimit, "xor");
            concretise(sb, vb, concLimit, "xor");
            return 0;
        }
        default:
            concretise(sa, va, concLimit, "bit op");
            concretise(sb, vb, concLimit, "bit op");
            return 0;
    }
}

u32 __sym_fneg(u32 s, u64 res) {
    Lin a;
    int sc;
    u64 neg = res ^ (1ull << 63);
    if (!s) return 0;
    if (!toFp(s, neg, a, sc)) {
        concretise(s, neg, concLimit, "fneg");
        return 0;
    }
    a.mul = -a.mul;
    a.cst = -a.cst;
    return mkFp(a, sc, res);
}

u32 __sym_cmp(u32 pred, u32 w, u32 sa, u32 sb, u64 va, u64 vb, u32 res) {
    if (!sa && !sb) return 0;
    if (pred < 16) { // fcmp
        if (pred == 7 || pred == 8) return 0; // ord / uno: no NaNs among dyadic values
        Lin a, b;
        int s1, s2, s;
        if (!(w == 64 && toFp(sa, va, a, s1) && toFp(sb, vb, b, s2))) {
            // comparison with infinities, large constants, or numbers that are not dyadic
            u32 sx = sa ? sa : sb;
            if (w == 64 && (!sa || !sb) && toFp(sx, sa ? va : vb, a, s1)) {
                double c = asD(sa ? vb : va);
                if (std::isnan(c) || std::isinf(c)) return 0;
                c = std::ldexp(c, s1);
                if (std::fabs(c) > 1e18) return 0; // (beyond the values of a)
                unsigned k = pred & 7;
                if (!sa) k = k == 2 ? 4 : k == 4 ? 2 : k == 3 ? 5 : k == 5 ? 3 : k;
                i128 lo = (i128)std::floor(c), hi = (i128)std::ceil(c);
                Lin up = a, dn;
                dn = a;
                dn.mul = -dn.mul;
                dn.cst = -dn.cst;
                switch (k) {
                    case 1:
                    case 6: {
                        if (lo != hi) return 0;
                        up.cst -= lo;
                        u32 r = linEQ0(up);
                        return k == 6 ? mkNot(r) : r;
                    }
                    case 2: dn.cst += lo + 1; return linLE0(dn); // a >= floor(c)+1
                    case 3: dn.cst += hi; return linLE0(dn);
                    case 4: up.cst -= hi - 1; return linLE0(up);
                    case 5: up.cst -= lo; return linLE0(up);
                    default: break;
                }
            }
            concretise(sa, va, concLimit, "fcmp");
            concretise(sb, vb, concLimit, "fcmp");
            return 0;
        }
        s = std::max(s1, s2);
        a.mul *= (i128)1 << (s - s1);
        a.cst *= (i128)1 << (s - s1);
        b.mul *= (i128)1 << (s - s2);
        b.cst *= (i128)1 << (s - s2);
        Lin d = linAdd(a, b, -1);
        u32 r;
        switch (pred & 7) {
            case 1: r = linEQ0(d); break;
            case 2: { // gt: b - a + 1 <= 0
                Lin e = linAdd(b, a, -1);
                e.cst += 1;
                r = linLE0(e);
                break;
            }
            case 3: r = linLE0(linAdd(b, a, -1)); break;
            case 4: {
                Lin e = d;
                e.cst += 1;
                r = linLE0(e);
                break;
            }
            case 5: r = linLE0(d); break;
            case 6: r = mkNot(linEQ0(d)); break;
            default: engineError("fcmp pred %u", pred);
        }
        if (r && (bool)nodes[r].cval != (bool)res) engineError("fcmp mismatch");
        return r;
    }
    auto chk = [&](u32 r) {
        if (r && (bool)nodes[r].cval != (bool)res) engineError("cmp mismatch pred %u", pred);
        return r;
    };
    if (w == 1 || ((isBoolish(sa) || (!sa && (va & mask(w)) <= 1)) && (isBoolish(sb) || (!sb && (vb & mask(w)) <= 1)))) {
        u32 a = toBool(sa, va, w), b = toBool(sb, vb, w);
        bool x = va & 1, y = vb & 1;
        if (pred == 32) return chk(boolIff(a, x, b, y));
        if (pred == 33) return chk(mkNot(boolIff(a, x, b, y)));
        bool sg = pred >= 38;
        unsigned p = sg ? pred - 38 : pred - 34; // gt ge lt le
        if (sg && w == 1) {
            // signed i1: true is -1
            std::swap(a, b);
            std::swap(x, y);
        }
        switch (p) {
            case 0: return chk(boolAnd(a, x, mkNot(b), !y));
            case 1: return chk(boolOr(a, x, mkNot(b), !y));
            case 2: return chk(boolAnd(mkNot(a), !x, b, y));
            case 3: return chk(boolOr(mkNot(a), !x, b, y));
        }
    }
    bool cat = (sa && nodes[sa].k == K_CAT) || (sb && nodes[sb].k == K_CAT);
    if (cat && (pred == 32 || pred == 33)) {
        auto s = toSegs(sa, va, w), t = toSegs(sb, vb, w);
        // align on segment boundaries
        u32 r = 0;
        bool rv = true;
        unsigned pos = 0, n = w / 8;
        while (pos < n) {
            auto segAt = [&](std::vector<Seg> const &v, unsigned p, unsigned &left) {
                unsigned q = 0;
                for (auto &x : v) {
                    if (p < q + x.len) {
                        left = q + x.len - p;
                        return;
                    }
                    q += x.len;
                }
            };
            unsigned l1 = 0, l2 = 0;
            segAt(s, pos, l1);
            segAt(t, pos, l2);
            unsigned len = std::min(l1, l2);
            auto x = slice(s, pos, len), y = slice(t, pos, len);
            u64 xv = x[0].bytes, yv = y[0].bytes;
            u32 xi = mkCat(x, len * 8, xv), yi = mkCat(y, len * 8, yv);
            u32 e = 0;
            bool ev = xv == yv;
            if (xi || yi) {
                auto lin = [](u32 id, std::vector<Seg> const &v) { return !id || nodes[id].k == K_LIN || (nodes[id].k == K_CAT && v.size() == 1 && nodes[v[0].id].k == K_LIN); };
                if (((xi && nodes[xi].k == K_CAT) || (yi && nodes[yi].k == K_CAT)) && lin(xi, x) && lin(yi, y)) {
                    auto get = [](u32 id, std::vector<Seg> const &v, u64 c) {
                        if (!id) return cLin((i128)c);
                        return partLin(nodes[v[0].id], v[0]);
                    };
                    e = linEQ0(linAdd(get(xi, x, xv), get(yi, y, yv), -1));
                } else if ((xi && nodes[xi].k == K_CAT) || (yi && nodes[yi].k == K_CAT)) {
                    concretise(xi, xv, concLimit, "partial compare");
                    concretise(yi, yv, concLimit, "partial compare");
                } else
                    e = __sym_cmp(32, len * 8, xi, yi, xv, yv, ev);
            }
            r = boolAnd(r, rv, e, ev);
            rv = rv && ev;
            pos += len;
        }
        if (!r) return 0;
        return chk(pred == 32 ? r : mkNot(r));
    }
    Lin a = toLin(sa, va, w), b = toLin(sb, vb, w);
    if (a.isConst && b.isConst) return 0;
    if (pred == 32) return chk(linEQ0(linAdd(a, b, -1)));
    if (pred == 33) return chk(mkNot(linEQ0(linAdd(a, b, -1))));
    if (pred >= 34 && pred <= 37) {
        bool aneg = a.lo() < 0, bneg = b.lo() < 0;
        if (aneg || bneg) {
            if (b.isConst && b.cst >= 0 && a.lo() < 0) {
                // a u< c  <=> 0 <= a and a < c
                Lin na = a; // -a <= 0
                na.mul = -na.mul;
                na.cst = -na.cst;
                u32 ge0 = linLE0(na);
                bool vge = a.val() >= 0;
                if (!ge0) { // sign known
                    if (!vge) return 0;
                } else {
                    Lin d = linAdd(a, b, -1);
                    bool lt = a.val() < b.cst, le = a.val() <= b.cst;
                    Lin d1 = d;
                    d1.cst += 1;
                    u32 clt = linLE0(d1), cle = linLE0(d);
                    switch (pred) {
                        case 36: return chk(boolAnd(ge0, vge, clt, lt));
                        case 37: return chk(boolAnd(ge0, vge, cle, le));
                        case 34: return chk(mkNot(boolAnd(ge0, vge, cle, le)));
                        case 35: return chk(mkNot(boolAnd(ge0, vge, clt, lt)));
                    }
                }
            }
            bool an = signNeg(a), bn = signNeg(b);
            if (an) a.cst += (i128)1 << w;
            if (bn) b.cst += (i128)1 << w;
            if (an != bn) return 0;
        }
        pred += 4;
    }
    Lin d = linAdd(a, b, -1);
    switch (pred) {
        case 38: { // sgt
            Lin e = linAdd(b, a, -1);
            e.cst += 1;
            return chk(linLE0(e));
        }
        case 39: return chk(linLE0(linAdd(b, a, -1)));
        case 40: {
            Lin e = d;
            e.cst += 1;
            return chk(linLE0(e));
        }
        case 41: return chk(linLE0(d));
    }
    engineError("cmp pred %u", pred);
}

u32 __sym_cast(u32 op, u32 wf, u32 wt, u32 s, u64 v, u64 res) {
    // Trunc38 ZExt39 SExt40 FPToUI41 FPToSI42 UIToFP43 SIToFP44 FPTrunc45 FPExt46 PtrToInt47 IntToPtr48 BitCast49
    if (!s) return 0;
    Node n = nodes[s];
    switch (op) {
        case 38:
            if (wt == 1) {
                if (n.k == K_B2I) return n.a;
                if (n.k == K_CAT) {
                    Seg g = segs[n.a];
                    if (!g.id) return 0;
                    if (nodes[g.id].k == K_B2I && g.off == 0) return nodes[g.id].a;
                }
                Lin a = toLin(s, v, wf);
                if (!a.isConst && a.lo() >= 0 && a.hi() <= 1) {
                    Lin e = a;
                    e.cst -= 1;
                    u32 r = linEQ0(e);
                    return r;
                }
                concretise(s, v, concLimit, "trunc to bool");
                return 0;
            }
            if (n.k == K_B2I) return mkB2I(n.a, wt);
            if (n.k == K_CAT || (n.k == K_FP && wt % 8 == 0)) return mkCat(slice(toSegs(s, v, wf), 0, wt / 8), wt, res);
            return mkLinWrap(toLin(s, v, wf), wt, res);
        case 39:
            if (wf == 1 || n.k == K_B2I) return mkB2I(toBool(s, v, wf), wt);
            if (n.k == K_LIN) {
                Lin a = toLin(s, v, wf);
                if (a.isConst) return 0;
                if (a.lo() >= 0) return mkLinRaw(a, wt, res);
            }
            {
                auto g = toSegs(s, v, wf);
                g.push_back({0, 0, (u8)((wt - wf) / 8), 0});
                return mkCat(g, wt, res);
            }
        case 40:
            if (wf == 1) {
                branchTrue(s);
                return 0;
            }
            if (n.k == K_B2I) return mkB2I(n.a, wt);
            return mkLinWrap(toLin(s, v, wf), wt, res);
        case 43:
        case 44: {
            Lin a = wf == 1 || n.k == K_B2I ? cLin(0) : toLin(s, v, wf);
            if (wf == 1 || n.k == K_B2I) {
                concretise(s, v, concLimit, "bool to fp");
                return 0;
            }
            if (op == 43 && signNeg(a)) a.cst += (i128)1 << wf;
            if (wt == 64 && fpExact(a)) return mkFp(a, 0, res);
            concretise(s, v, concLimit, "int to fp");
            return 0;
        }
        case 41:
        case 42: {
            Lin a;
            int sc;
            if (toFp(s, v, a, sc) && wf == 64) {
                if (sc) {
                    bool neg = signNeg(a);
                    if (neg) {
                        a.mul = -a.mul;
                        a.cst = -a.cst;
                    }
                    a = floorDivLin(a, (i128)1 << sc);
                    if (neg) {
                        a.mul = -a.mul;
                        a.cst = -a.cst;
                    }
                }
                if (a.isConst) return 0;
                // outside the target range the conversion is undefined
                i128 lo = op == 42 ? smin(wt) : 0, hi = op == 42 ? smax(wt) : ((i128)1 << wt) - 1;
                if (a.lo() < lo || a.hi() > hi) {
                    Lin up = a;
                    up.cst -= hi;
                    bool okU = a.val() <= hi;
                    branchTrue(linLE0(up));
                    Lin dn = a;
                    dn.mul = -dn.mul;
                    dn.cst = -dn.cst + lo;
                    bool okD = a.val() >= lo;
                    branchTrue(linLE0(dn));
                    if (!okU || !okD) {
                        sym_fail("floating point value outside the range of the integer type it is converted to");
                        return 0;
                    }
                }
                if (op == 41) return mkLinWrap(a, wt, res);
                return mkLinRaw(a, wt, res);
            }
            concretise(s, v, concLimit, "fp to int");
            return 0;
        }
        case 49:
            if (n.k == K_FP && wt == 64) return s; // same bits
            concretise(s, v, concLimit, "bitcast");
            return 0;
        default: concretise(s, v, concLimit, "cast"); return 0;
    }
}

u32 __sym_selb(u32 sc, u32 vc, u32 st, u32 vt, u32 sf, u32 vf) {
    if (!sc) return vc ? st : sf;
    // (c and t) or (not c and f)
    u32 x = boolAnd(sc, vc, st, vt);
    bool xv = vc && vt;
    u32 nc = mkNot(sc);
    u32 y = boolAnd(nc, !vc, sf, vf);
    bool yv = !vc && vf;
    return boolOr(x, xv, y, yv);
}

u32 __sym_minmax(u32 k, u32 w, u32 sa, u32 sb, u64 va, u64 vb, u64 res) {
    if (!sa && !sb) return 0;
    if (k == 4) {
        Lin a = toLin(sa, va, w);
        bool neg = signNeg(a);
        if (neg) {
            a.mul = -a.mul;
            a.cst = -a.cst;
        }
        return mkLinWrap(a, w, res);
    }
    u32 pred = k == 0 ? 38 : k == 1 ? 40 : k == 2 ? 34 : 36; // sgt slt ugt ult
    bool c;
    switch (k) {
        case 0: c = sext(va, w) > sext(vb, w); break;
        case 1: c = sext(va, w) < sext(vb, w); break;
        case 2: c = (va & mask(w)) > (vb & mask(w)); break;
        default: c = (va & mask(w)) < (vb & mask(w));
    }
    u32 b = __sym_cmp(pred, w, sa, sb, va, vb, c);
    if (b) branchTrue(b);
    return c ? sa : sb;
}

u32 __sym_ovf(u32 k, u32 w, u32 sa, u32 sb, u64 va, u64 vb, u32 *ov) {
    *ov = 0;
    if (!sa && !sb) return 0;
    Lin a = toLin(sa, va, w), b = toLin(sb, vb, w);
    bool uns = k & 1;
    if (uns) {
        if (signNeg(a)) a.cst += (i128)1 << w;
        if (signNeg(b)) b.cst += (i128)1 << w;
    }
    Lin r;
    if (k < 4)
        r = linAdd(a, b, k < 2 ? 1 : -1);
    else {
        if (!a.isConst && !b.isConst && (tvs[a.tv].hi - tvs[a.tv].lo <= 16 || tvs[b.tv].hi - tvs[b.tv].lo <= 16 || !mulLin(a, b, r))) {
            bool x = tvs[a.tv].hi - tvs[a.tv].lo < tvs[b.tv].hi - tvs[b.tv].lo;
            concretise(x ? sa : sb, x ? va : vb, concLimit, "product");
            (x ? a : b) = cLin((x ? a : b).val());
        }
        if (a.isConst || b.isConst) mulLin(a, b, r);
    }
    // decide overflow by forking; afterwards both results are linear
    i128 lo = uns ? 0 : smin(w), hi = uns ? ((i128)1 << w) - 1 : smax(w);
    if (!r.isConst) {
        if (r.hi() > hi) {
            Lin up = r;
            up.cst -= hi;
            branchTrue(linLE0(up));
        }
        if (r.lo() < lo) {
            Lin dn = r;
            dn.mul = -dn.mul;
            dn.cst = -dn.cst + lo;
            branchTrue(linLE0(dn));
        }
    }
    u64 res;
    switch (k) {
        case 0:
        case 1: res = va + vb; break;
        case 2:
        case 3: res = va - vb; break;
        default: res = va * vb;
    }
    return mkLinWrap(r, w, res & mask(w));
}

// ------------------------------------------------------------------ harness API
static void ret(void *fn, u32 id) {
    __sym_ret[0] = id;
    __sym_ret_from = fn;
}
static u32 newInput(char const *name, i64 lo, i64 hi, i64 &val) {
    u32 k = inputs.size();
    if (k >= MAXV) engineError("too many inputs");
    val = lo <= 0 && hi >= 0 ? 0 : (lo > 0 ? lo : hi);
    if (k < cur.n) val = cur.vals[k];
    if (val < lo || val > hi) engineError("input %s out of range", name);
    char nm[40];
    snprintf(nm, sizeof nm, "%s#%u", name, k);
    u32 v = mkVar(nm, lo, hi, val, false, k);
    inputs.push_back(v);
    if (myslot >= 0) {
        Slot &s = S->slots[myslot];
        snprintf(s.names[k], sizeof s.names[k], "%s", nm);
        s.lo[k] = lo;
        s.hi[k] = hi;
        s.job.vals[k] = val;
        s.n = k + 1;
    }
    if (lo == hi) return 0;
    i64 m;
    u32 tv = internTV({{v, 1}}, m);
    Node n{};
    n.k = K_LIN;
    n.tv = tv;
    n.mul = 1;
    n.cst = 0;
    n.cval = val;
    return addNode(n);
}
int sym_int(char const *name, int lo, int hi) {
    i64 v;
    u32 id = newInput(name, lo, hi, v);
    if (id) {
        nodes[id].w = 32;
        nodes[id].cval &= mask(32);
    }
    ret((void *)sym_int, id);
    return (int)v;
}
int64_t sym_i64(char const *name, int64_t lo, int64_t hi) {
    i64 v;
    u32 id = newInput(name, lo, hi, v);
    if (id) nodes[id].w = 64;
    ret((void *)sym_i64, id);
    return v;
}
uint64_t sym_u64(char const *name, int64_t lo, int64_t hi) {
    uint64_t r = sym_i64(name, lo, hi);
    __sym_ret_from = (void *)sym_u64;
    return r;
}
double sym_dbl(char const *name, int lo, int hi, int scale) {
    i64 v;
    u32 id = newInput(name, lo, hi, v);
    double d = (double)v / (double)(1ull << scale);
    if (id) {
        nodes[id].k = K_FP;
        nodes[id].w = 64;
        nodes[id].scale = scale;
        memcpy(&nodes[id].cval, &d, 8);
    }
    ret((void *)sym_dbl, id);
    return d;
}
int sym_choose(char const *name, int n) {
    __atomic_add_fetch(&S->chooses, 1, __ATOMIC_RELAXED);
    if (n <= 1) {
        ret((void *)sym_choose, 0);
        return 0;
    }
    i64 v;
    u32 id = newInput(name, 0, n - 1, v);
    nodes[id].w = 32;
    // a fresh variable: every other value is feasible, no query is needed
    auto &t = tvs[nodes[id].tv];
    ++decisions;
    u64 prev = decHash;
    auto step = [&](i64 o) {
        u64 x = prev ^ (0xabcdef12345ull + o * 0x9e3779b97f4a7c15ull);
        x *= 0xc4ceb9fe1a85ec53ull;
        return x ^ (x >> 31);
    };
    decHash = step(v);
    if (decisions <= cur.prefix) {
        if (decisions == cur.prefix && decHash != cur.hash) engineError("non-deterministic replay of a path prefix (choice)");
    } else {
        auto base = currentInputs();
        for (int o = n - 1; o >= 0; --o) {
            if (o == v) continue;
            base.back() = o;
            pushJob(base, decisions, step(o));
            __atomic_add_fetch(&S->trivial, 1, __ATOMIC_RELAXED);
        }
    }
    Node e{};
    e.k = K_EQ;
    e.w = 1;
    e.cval = 1;
    e.tv = nodes[id].tv;
    e.cst = v;
    u32 eq = addNode(e);
    addPC(boolAst(eq));
    t.lo = t.hi = v;
    ret((void *)sym_choose, 0);
    return (int)v;
}
static u32 argBool(int c, void *fn, bool &isSym) {
    u32 id = __sym_callee == fn ? __sym_args[0] : 0;
    __sym_callee = nullptr;
    isSym = id != 0;
    if (!id) return 0;
    Node n = nodes[id];
    if (n.k == K_B2I) return n.a;
    if (n.w == 1) return id;
    Lin l = toLin(id, (u64)(i64)c, n.w);
    return mkNot(linEQ0(l));
}
void sym_assume(int c) {
    bool is;
    u32 b = argBool(c, (void *)sym_assume, is);
    if (!c) {
        __atomic_add_fetch(&S->assumesCut, 1, __ATOMIC_RELAXED);
        if (b) {
            // continue with inputs satisfying the assumption
            std::vector<i64> model;
            ++decisions;
            u64 h = boolHash(b);
            u64 x = (decHash ^ (h + 0x1234567)) * 0xc4ceb9fe1a85ec53ull;
            x ^= x >> 31;
            if (query(boolAst(b), &model)) pushJob(model, decisions, x);
        }
        endPath(PATH_STOP);
    }
    if (b) {
        ++decisions;
        u64 h = boolHash(b);
        u64 x = (decHash ^ (h + 0x1234567)) * 0xc4ceb9fe1a85ec53ull;
        decHash = x ^ (x >> 31);
        if (decisions == cur.prefix && decHash != cur.hash) engineError("non-deterministic replay of a path prefix (assume)");
        addPC(boolAst(b));
        assume(b, true);
    }
}
void sym_fail(char const *msg) {
    recordViolation(msg, currentInputs());
    if (getenv("SYM_BT")) {
        void *bt[40];
        int n = backtrace(bt, 40);
        backtrace_symbols_fd(bt, n, 2);
    }
    _exit(10);
}
void sym_assert(int c, char const *msg) {
    traceHash = traceHash * 1099511628211ull + 7;
    bool is;
    u32 b = argBool(c, (void *)sym_assert, is);
    __atomic_add_fetch(&S->asserts, 1, __ATOMIC_RELAXED);
    if (!c) sym_fail(msg);
    if (b) {
        std::vector<i64> model;
        if (query(boolAst(mkNot(b)), &model)) {
            recordViolation(msg, model);
            _exit(10);
        }
        __atomic_add_fetch(&S->assertsUnsat, 1, __ATOMIC_RELAXED);
    }
}
void sym_reach(char const *label) {
    for (char const *p = label; *p; ++p) traceHash = (traceHash ^ (u8)*p) * 1099511628211ull;
    pthread_mutex_lock(&S->mx);
    int i = 0;
    for (; i < S->nlabels; ++i)
        if (!strcmp(S->labels[i].name, label)) break;
    if (i == S->nlabels && i < 128) {
        snprintf(S->labels[i].name, sizeof S->labels[i].name, "%s", label);
        S->nlabels++;
    }
    if (i < 128) S->labels[i].count++;
    pthread_mutex_unlock(&S->mx);
}
int sym_conc(int v) {
    u32 id = __sym_callee == (void *)sym_conc ? __sym_args[0] : 0;
    __sym_callee = nullptr;
    if (id) concretise(id, (u64)(i64)v, concLimit, "harness");
    ret((void *)sym_conc, 0);
    return v;
}
int sym_conc_n(int v, int n) {
    u32 id = __sym_callee == (void *)sym_conc_n ? __sym_args[0] : 0;
    __sym_callee = nullptr;
    if (id) concretise(id, (u64)(i64)v, n, "harness");
    ret((void *)sym_conc_n, 0);
    return v;
}
int sym_is_symbolic(int) {
    u32 id = __sym_callee == (void *)sym_is_symbolic ? __sym_args[0] : 0;
    __sym_callee = nullptr;
    ret((void *)sym_is_symbolic, 0);
    return id != 0;
}
void sym_conc_limit(int n) { concLimit = n; }
void sym_log(char const *, ...) {}
int sym_replaying(void) { return 0; }

} // extern "C"

namespace {

void ndDump() {
    char nm[300];
    snprintf(nm, sizeof nm, "%s.%d", getenv("SYM_ND"), getpid());
    FILE *o = fopen(nm, "w");
    fprintf(o, "variant %d prefix %u pathNo %llu inputs", cur.variant, cur.prefix, (unsigned long long)pathNo);
    for (u32 i = 0; i < cur.n; ++i) fprintf(o, " %lld", (long long)cur.vals[i]);
    fprintf(o, "\n");
    for (auto &x : ndLog) {
        fprintf(o, "%u %s %s\n", x.d, x.what, Z3_ast_to_string(ctx, x.z));
        char **sy = backtrace_symbols(x.bt, x.n);
        for (int i = 0; i < x.n; ++i) fprintf(o, "    %s\n", sy[i]);
        free(sy);
    }
    fclose(o);
}
bool popJob(Job &j) {
    for (;;) {
        pthread_mutex_lock(&S->mx);
        if (S->stop) {
            pthread_mutex_unlock(&S->mx);
            return false;
        }
        if (S->top > 0) {
            j = JOBS[--S->top];
            ++S->active;
            pthread_mutex_unlock(&S->mx);
            return true;
        }
        if (S->active == 0) {
            pthread_mutex_unlock(&S->mx);
            return false;
        }
        pthread_mutex_unlock(&S->mx);
        if (deadline && now() > deadline) return false;
        usleep(500);
    }
}

// the globals of the code under test, restored before each path
std::vector<std::vector<char>> globalSave;
void saveGlobals() {
    for (u64 i = 0; i < __sym_gl_count; ++i) {
        auto *p = (char *)__sym_gl_table[i];
        globalSave.emplace_back(p, p + __sym_gl_size[i]);
    }
}
void restoreGlobals() {
    for (u64 i = 0; i < __sym_gl_count; ++i) memcpy(__sym_gl_table[i], globalSave[i].data(), globalSave[i].size());
    memset((void *)__cxxabiv1::__cxa_get_globals(), 0, 16);
}

void runOne() {
    if (pathNo > 0) restoreGlobals();
    ++pathNo;
    ndLog.clear();
    nodes.clear();
    nodes.push_back(Node{});
    segs.clear();
    pc.clear();
    inputs.clear();
    resetMem();
    decisions = 0;
    decHash = 0x1234;
    traceHash = 1;
    concLimit = 64;
    __sym_callee = nullptr;
    __sym_ret_from = nullptr;
    int r = setjmp(pathEnd);
    if (r == 0) {
        sym_main(cur.variant);
        // keep some complete paths as samples to be replayed against the plainly compiled code
        u64 k = cur.variant < 4096 ? S->variantPaths[cur.variant] : 1;
        if (S->nsamples < MAXSAMPLES && (k == 0 || (k % 16 == 9 && S->nsamples < MAXSAMPLES - 16))) {
            pthread_mutex_lock(&S->mx);
            if (S->nsamples < MAXSAMPLES) {
                auto &x = S->samples[S->nsamples];
                x.variant = cur.variant;
                x.trace = traceHash;
                x.n = inputs.size();
                for (u32 i = 0; i < inputs.size(); ++i) {
                    snprintf(x.names[i], sizeof x.names[i], "%s", vars[inputs[i]].name.c_str());
                    x.vals[i] = vars[inputs[i]].val;
                }
                S->nsamples++;
            }
            pthread_mutex_unlock(&S->mx);
        }
    }
    __atomic_add_fetch(&S->paths, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&S->decisions, decisions, __ATOMIC_RELAXED);
    __atomic_add_fetch(&S->nodes, nodes.size(), __ATOMIC_RELAXED);
    if (cur.variant < 4096) __atomic_add_fetch(&S->variantPaths[cur.variant], 1, __ATOMIC_RELAXED);
    if (getenv("SYM_ONE")) engineError("one path");
    if (decisions < cur.prefix) engineError("path ended before its prefix (variant %d)", cur.variant);
}

// child: run several paths
void childLoop(int slot, Job first) {
    myslot = slot;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = (rlim_t)memLimitMB << 20;
    setrlimit(RLIMIT_AS, &rl);
    cur = first;
    int n = 0;
    for (;;) {
        Slot &s = S->slots[slot];
        s.job = cur;
        s.n = 0;
        s.start = now();
        alarm(pathTimeout);
        runOne();
        alarm(0);
        ++n;
        pthread_mutex_lock(&S->mx);
        --S->active;
        bool stop = S->stop || n >= pathsPerProc || !inProc || (deadline && now() > deadline);
        bool got = false;
        if (!stop && S->top > 0) {
            cur = JOBS[--S->top];
            ++S->active;
            got = true;
        }
        pthread_mutex_unlock(&S->mx);
        if (!got) _exit(0);
    }
}

void workerLoop(int slot) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    initZ3();
    Job j;
    while (popJob(j)) {
        if (deadline && now() > deadline) _exit(0);
        pid_t p = fork();
        if (p == 0) {
            // keep output of the code under test away
            if (!getenv("SYM_VERBOSE")) {
                if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(11);
            }
            childLoop(slot, j);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 10 || WEXITSTATUS(st) == 11)) _exit(0);
        // crash, uncaught exception, hang or unexpected exit
        // (the lock may be held by the dead child only if it died in our own code)
        pthread_mutex_lock(&S->mx);
        --S->active;
        Slot &s = S->slots[slot];
        if (!S->violation) {
            S->violation = 1;
            if (WIFSIGNALED(st))
                snprintf(S->vmsg, sizeof S->vmsg, WTERMSIG(st) == SIGALRM ? "no termination within the path time limit" : "crash: signal %d (%s)", WTERMSIG(st),
                         strsignal(WTERMSIG(st)));
            else
                snprintf(S->vmsg, sizeof S->vmsg, "unexpected exit %d", WEXITSTATUS(st));
            S->vvariant = s.job.variant;
            S->vn = s.n;
            for (u32 i = 0; i < s.n; ++i) {
                memcpy(S->vnames[i], s.names[i], sizeof s.names[i]);
                S->vlo[i] = s.lo[i];
                S->vhi[i] = s.hi[i];
                S->vvals[i] = s.job.vals[i];
            }
        }
        S->crashes++;
        S->stop = 1;
        pthread_mutex_unlock(&S->mx);
        _exit(0);
    }
    _exit(0);
}

std::string jstr(char const *s) {
    std::string r = "\"";
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\') r += '\\', r += *s;
        else if ((u8)*s < 32) r += ' ';
        else r += *s;
    }
    return r + "\"";
}

} // namespace

int main(int argc, char **argv) {
    int workers = 8, tier = 0, onlyVariant = -1;
    double limit = 600;
    char const *out = nullptr, *replay = nullptr;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return argv[++i]; };
        if (a == "--workers") workers = atoi(val());
        else if (a == "--limit") limit = atof(val());
        else if (a == "--tier") tier = atoi(val());
        else if (a == "--variant") onlyVariant = atoi(val());
        else if (a == "--out") out = val();
        else if (a == "--replay") replay = val();
        else if (a == "--fork") inProc = 0;
        else if (a == "--path-timeout") pathTimeout = atoi(val());
    }
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    JOBS = (Job *)mmap(nullptr, sizeof(Job) * (size_t)MAXJOBS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    __sym_seen = (u8 *)mmap(nullptr, __sym_fn_count + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pthread_mutexattr_t at;
    pthread_mutexattr_init(&at);
    pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
    pthread_mutex_init(&S->mx, &at);
    for (u64 i = 0; i < __sym_fn_count; ++i) fnSet.insert(__sym_fn_table[i]);
    saveGlobals();
    resetMem();
    double t0 = now();
    deadline = t0 + limit;
    nodes.push_back(Node{}); // harness code below runs concretely
    int nv = sym_variants(tier);
    for (int v = nv - 1; v >= 0; --v) {
        if (onlyVariant >= 0 && v != onlyVariant) continue;
        Job &j = JOBS[S->top++];
        j = Job{};
        j.variant = v;
        // debugging aid: run one path and dump its decisions
        if (char const *in = getenv("SYM_ONE")) {
            char *e = const_cast<char *>(in);
            while (*e) j.vals[j.n++] = strtoll(e, &e, 10);
            inProc = 0;
        }
    }
    fflush(stdout);
    std::vector<pid_t> ws;
    for (int i = 0; i < workers; ++i) {
        pid_t p = fork();
        if (p == 0) workerLoop(i);
        ws.push_back(p);
    }
    for (auto p : ws) {
        int st;
        waitpid(p, &st, 0);
    }
    double wall = now() - t0;
    bool complete = S->top == 0 && !S->stop && !S->error && !S->violation && S->active == 0;
    std::string j = "{";
    auto num = [&](char const *k, u64 v) { j += jstr(k) + ":" + std::to_string(v) + ","; };
    num("variants", onlyVariant >= 0 ? 1 : nv);
    num("paths", S->paths);
    num("decisions", S->decisions);
    num("queries", S->queries);
    num("sat", S->qsat);
    num("unsat", S->qunsat);
    num("unknown", S->qunknown);
    num("retries", S->qretry);
    num("choice_alternatives", S->trivial);
    num("assertions_checked", S->asserts);
    num("assertions_unsat", S->assertsUnsat);
    num("assume_cuts", S->assumesCut);
    num("forced_concretisations", S->forcedConc);
    num("expr_nodes", S->nodes);
    num("max_jobs", S->maxTop);
    num("pending", S->top);
    j += "\"solver_s\":" + std::to_string(S->solverNs * 1e-9) + ",";
    j += "\"wall_s\":" + std::to_string(wall) + ",";
    j += std::string("\"complete\":") + (complete ? "true" : "false") + ",";
    j += "\"error\":" + (S->error ? jstr(S->emsg) : std::string("null")) + ",";
    j += "\"violation\":" + (S->violation ? jstr(S->vmsg) : std::string("null")) + ",";
    if (S->violation) {
        j += "\"variant\":" + std::to_string(S->vvariant) + ",\"inputs\":[";
        for (u32 i = 0; i < S->vn; ++i) j += (i ? "," : "") + std::string("[") + jstr(S->vnames[i]) + "," + std::to_string(S->vvals[i]) + "]";
        j += "],";
        if (replay) {
            FILE *f = fopen(replay, "w");
            if (f) {
                fprintf(f, "variant %d\n", S->vvariant);
                for (u32 i = 0; i < S->vn; ++i) fprintf(f, "%s %lld\n", S->vnames[i], (long long)S->vvals[i]);
                fclose(f);
            }
        }
    }
    j += "\"variant_paths\":[";
    for (int i = 0; i < nv && i < 4096; ++i) j += (i ? "," : "") + std::to_string(S->variantPaths[i]);
    j += "],";
    j += "\"samples\":[";
    for (int i = 0; i < S->nsamples; ++i) {
        auto &x = S->samples[i];
        j += (i ? "," : "") + std::string("{\"variant\":") + std::to_string(x.variant) + ",\"trace\":\"" + std::to_string(x.trace) + "\",\"inputs\":[";
        for (u32 k = 0; k < x.n; ++k) j += (k ? "," : "") + std::string("[") + jstr(x.names[k]) + "," + std::to_string(x.vals[k]) + "]";
        j += "]}";
    }
    j += "],\"labels\":{";
    for (int i = 0; i < S->nlabels; ++i) j += (i ? "," : "") + jstr(S->labels[i].name) + ":" + std::to_string(S->labels[i].count);
    j += "},\"functions\":[";
    bool f1 = true;
    for (u64 i = 0; i < __sym_fn_count; ++i) {
        if (!__sym_seen[i]) continue;
        j += (f1 ? "" : ",") + jstr(__sym_fn_name[i]);
        f1 = false;
    }
    j += "]}\n";
    FILE *f = out ? fopen(out, "w") : stdout;
    fputs(j.c_str(), f);
    if (out) fclose(f);
    if (S->error) return 2;
    if (S->violation) return 1;
    return complete ? 0 : 3;
}
