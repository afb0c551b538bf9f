// Interface between harnesses and the symbolic execution engine.  The same
// harness is linked with rt.cpp (symbolic) or replay.cpp (concrete replay).
#ifndef SYM_H
#define SYM_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// a symbolic integer in [lo,hi]
int sym_int(char const *name, int lo, int hi);
int64_t sym_i64(char const *name, int64_t lo, int64_t hi);
uint64_t sym_u64(char const *name, int64_t lo, int64_t hi);
// a symbolic double k/2^scale with k in [lo,hi]
double sym_dbl(char const *name, int lo, int hi, int scale);
// a symbolic choice in [0,n), decided by forking
int sym_choose(char const *name, int n);
// restrict to inputs with c != 0
void sym_assume(int c);
// the property: c != 0 for every input following this path
void sym_assert(int c, char const *msg);
// unconditional violation
void sym_fail(char const *msg);
// reachability witness
void sym_reach(char const *label);
// number of variants (configurations) of the harness and its body
int sym_variants(int tier);
void sym_main(int variant);
// fork until the value is concrete
int sym_conc(int v);
// like sym_conc but allow n alternatives
int sym_conc_n(int v, int n);
// maximum number of alternatives when the code under test forces a concrete value
void sym_conc_limit(int n);
// trap signed overflow of arithmetic flagged "no signed wrap"
void sym_log(char const *fmt, ...);
int sym_replaying(void);
// does v depend on symbolic input
int sym_is_symbolic(int v);
#ifdef __cplusplus
}
#endif
#endif
