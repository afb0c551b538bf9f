// Concrete replay of a counterexample against the plainly compiled code.
#include "sym.h"
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <utility>
#include <vector>

static std::vector<std::pair<std::string, long long>> inputs;
static size_t pos = 0;
static unsigned long long traceHash = 1;

static long long input(char const *name, long long lo, long long hi) {
    long long v = lo <= 0 && hi >= 0 ? 0 : (lo > 0 ? lo : hi);
    if (pos < inputs.size()) v = inputs[pos].second;
    if (v < lo || v > hi) {
        fprintf(stderr, "replay: input %s=%lld outside [%lld,%lld]\n", name, v, lo, hi);
        _exit(5);
    }
    ++pos;
    fprintf(stderr, "  input %s = %lld\n", name, v);
    return v;
}
static void fail(char const *msg) {
    printf("REPLAY-VIOLATION: %s\n", msg);
    fflush(stdout);
    _exit(1);
}
extern "C" {
int sym_int(char const *n, int lo, int hi) { return (int)input(n, lo, hi); }
int64_t sym_i64(char const *n, int64_t lo, int64_t hi) { return input(n, lo, hi); }
uint64_t sym_u64(char const *n, int64_t lo, int64_t hi) { return (uint64_t)input(n, lo, hi); }
double sym_dbl(char const *n, int lo, int hi, int scale) { return (double)input(n, lo, hi) / (double)(1ull << scale); }
int sym_choose(char const *n, int k) { return k <= 1 ? 0 : (int)input(n, 0, k - 1); }
void sym_assume(int c) {
    if (!c) {
        printf("REPLAY: assumption violated\n");
        fflush(stdout);
        _exit(4);
    }
}
void sym_assert(int c, char const *m) {
    traceHash = traceHash * 1099511628211ull + 7;
    if (!c) fail(m);
}
void sym_fail(char const *m) { fail(m); }
void sym_reach(char const *p) {
    for (; *p; ++p) traceHash = (traceHash ^ (unsigned char)*p) * 1099511628211ull;
}
int sym_conc(int v) { return v; }
int sym_conc_n(int v, int) { return v; }
void sym_conc_limit(int) {}
void sym_log(char const *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fputc('\n', stderr);
}
int sym_replaying(void) { return 1; }
int sym_is_symbolic(int) { return 0; }
}
static void onSig(int s) {
    static char const m[] = "REPLAY-VIOLATION: crash or no termination\n";
    if (write(1, m, sizeof m - 1) < 0) {}
    _exit(s == SIGALRM ? 1 : 1);
}
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    FILE *f = fopen(argv[1], "r");
    if (!f) return 2;
    int variant = 0;
    char name[128];
    long long v;
    while (fscanf(f, "%127s %lld", name, &v) == 2) {
        if (!strcmp(name, "variant")) variant = (int)v;
        else inputs.emplace_back(name, v);
    }
    fclose(f);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGALRM}) signal(s, onSig);
    alarm(argc > 2 ? atoi(argv[2]) : 20);
    sym_variants(1);
    sym_main(variant);
    printf("REPLAY-OK trace=%llu\n", traceHash);
    return 0;
}
