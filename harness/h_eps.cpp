// The epsilon used for strict relations.
#include "sym.h"
#include <clingo-dl/theory.hh>
int sym_variants(int) { return 1; }
void sym_main(int) {
    // x < c and x <= c - epsilon agree on integers
    int x = sym_int("x", -(1 << 24), 1 << 24), c = sym_int("c", -(1 << 24), 1 << 24);
    sym_assert((x < c) == (x <= c - ClingoDL::epsilon<int>()), "strict relation over integers is wrong");
    // on reals, numbers that are multiples of 1/1024 are told apart
    double y = sym_dbl("y", -(1 << 24), 1 << 24, 10), d = sym_dbl("d", -(1 << 24), 1 << 24, 10);
    double e = ClingoDL::epsilon<double>();
    double diff = d - y;
    sym_assert((diff > 0) == (diff >= e), "strict relation over reals is wrong");
    // it does not vanish when added to or subtracted from numbers up to 2^22,
    // which are at most 2^-30 apart from the next double
    sym_assert(e >= 1.0 / (1 << 30), "epsilon vanishes next to numbers that occur in constraints");
    sym_reach("epsilon");
}
