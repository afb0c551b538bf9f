// Checked arithmetic: exact result or an exception, for all 32 bit operands.
#include "sym.h"
#include <clingo.hh>
#include <clingo-dl/util.hh>
#include <climits>
#include <stdexcept>
using namespace ClingoDL;
using i64 = long long;

int sym_variants(int tier) { return 6 + (tier ? 30 : 17); }

static bool fits(i64 r) { return r >= INT_MIN && r <= INT_MAX; }

// m is zero or has the sign of x
__attribute__((noinline)) static bool sameSign(i64 m, i64 x) {
    if (x < 0) return m <= 0;
    return m >= 0;
}

void sym_main(int variant) {
    sym_conc_limit(128);
    bool div = variant == 3 || variant == 4;
    bool pow = variant >= 6;
    int pb = pow ? variant - 6 - 2 : 0; // exponent
    int a = pow ? sym_int("a", pb <= 2 ? -60 : -40, pb <= 2 ? 60 : 40) : sym_int("a", INT_MIN, INT_MAX);
    int b = pow ? pb : sym_int("b", INT_MIN, INT_MAX);
    if (pow) a = sym_conc_n(a, 200); // library function
    int r = 0;
    bool ok = true;
    try {
        switch (variant) {
            case 0: r = safe_add<int>(a, b); break;
            case 1: r = safe_sub<int>(a, b); break;
            case 2: r = safe_mul<int>(a, b); break;
            case 3: r = safe_div<int>(a, b); break;
            case 4: r = safe_mod<int>(a, b); break;
            case 5: r = safe_inv<int>(a); break;
            default: r = safe_pow<int>(a, b); break;
        }
    } catch (std::exception const &) {
        ok = false;
    }
    i64 x = a, y = b;
    if (pow) {
        bool def = a != 0 || b >= 0;
        i64 e = 1;
        for (int i = 0; def && i < b && fits(e); ++i) e *= x;
        if (b < 0 && def) e = a == 1 ? 1 : a == -1 ? (b % 2 ? -1 : 1) : 0; // truncated
        if (def && fits(e)) {
            if (ok) sym_assert(r == e, "power is wrong");
            else sym_fail("power that fits is refused");
        } else if (ok)
            sym_fail("undefined or overflowing power accepted");
        sym_reach("power");
        return;
    }
    if (div) {
        // both |a| = |q| |b| + |m| and 0 <= |m| < |b|
        if (!ok) {
            sym_assert(y == 0 || (x == INT_MIN && y == -1), "division that fits is refused");
            sym_reach("refused");
            return;
        }
        sym_assert(y != 0, "division by zero accepted");
        if (variant == 3) {
            i64 m = x - (i64)r * y;
            sym_assert((m < 0 ? -m : m) < (y < 0 ? -y : y), "quotient is wrong");
            sym_assert(sameSign(m, x), "quotient is rounded wrongly");
        } else {
            i64 m = r;
            sym_assert((m < 0 ? -m : m) < (y < 0 ? -y : y), "remainder is too large");
            sym_assert(sameSign(m, x), "remainder has the wrong sign");
            i64 q = x / y;
            sym_assert(q * y + m == x, "remainder is wrong");
        }
        sym_reach("exact");
        return;
    }
    i64 e = variant == 0 ? x + y : variant == 1 ? x - y : variant == 2 ? x * y : -x;
    if (ok) {
        sym_reach("exact");
        sym_assert(r == e, "result is not exact");
    } else {
        sym_reach("refused");
        sym_assert(e < INT_MIN || e > INT_MAX, "result that fits is refused");
    }
}
