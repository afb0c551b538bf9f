// Instrumented models of the libc functions that inspect memory the code under
// test may have filled with symbolic bytes.
#include <stddef.h>
#include <stdint.h>
int symlib_memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; ++i)
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int symlib_bcmp(const void *a, const void *b, size_t n) { return symlib_memcmp(a, b, n); }
int symlib_strcmp(const char *a, const char *b) {
    for (;; ++a, ++b) {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
int symlib_strncmp(const char *a, const char *b, size_t n) {
    for (; n; ++a, ++b, --n) {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
size_t symlib_strlen(const char *a) {
    size_t n = 0;
    while (a[n]) ++n;
    return n;
}
void *symlib_memchr(const void *p, int c, size_t n) {
    const unsigned char *x = p;
    for (size_t i = 0; i < n; ++i)
        if (x[i] == (unsigned char)c) return (void *)(x + i);
    return 0;
}
char *symlib_strchr(const char *s, int c) {
    for (;; ++s) {
        if (*s == (char)c) return (char *)s;
        if (!*s) return 0;
    }
}
int symlib_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int symlib_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int symlib_isdigit(int c) { return c >= '0' && c <= '9'; }
int symlib_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int symlib_abs(int c) { return c < 0 ? -c : c; }
// Characters that may belong to a number are fixed one by one; the first one
// that cannot ends the text to be converted.
extern double strtof64(const char *, char **); // (the same function as strtod)
static int symlib_fix(int c, const char *set) {
    for (; *set; ++set)
        if (c == *set) return *set;
    return 0;
}
double symlib_strtod(const char *s, char **end) {
    char buf[64];
    int n = 0, i = 0;
    while (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) ++i;
    int start = i;
    const char *set = "+-.0123456789iInN";
    int special = 0;
    for (; n < 63; ++i) {
        int c = s[i];
        // (the decimal point and exponents)
        int k = symlib_fix(c, set);
        if (!k) break;
        buf[n++] = k;
        if (k == 'i' || k == 'I' || k == 'n' || k == 'N') special = 1;
        if (special) set = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_()";
        else if (n == 1 && k == '0') set = ".0123456789eExX";
        else if (k == 'x' || k == 'X') special = 2, set = "0123456789abcdefABCDEF.pP+-";
        else if (k == 'e' || k == 'E') set = "+-0123456789";
        else if (special != 2) {
            set = ".0123456789eE";
            if (n == 1 && (k == '+' || k == '-')) set = ".0123456789iInN";
            if (n == 2 && k == '0' && (buf[0] == '+' || buf[0] == '-')) set = ".0123456789eExX";
        }
    }
    buf[n] = 0;
    char *e;
    double r = strtof64(buf, &e);
    if (end) *end = (char *)s + (e == buf ? 0 : start + (e - buf));
    return r;
}
#define PLAIN __attribute__((optnone, noinline))
PLAIN double symlib_fabs(double d) { return d > 0 ? d : 0.0 - d; }
PLAIN double symlib_trunc(double d) { return d >= 9007199254740992.0 || d <= -9007199254740992.0 || d != d ? d : (double)(int64_t)d; }
PLAIN double symlib_floor(double d) {
    double t = symlib_trunc(d);
    return t > d ? t - 1 : t;
}
PLAIN double symlib_ceil(double d) {
    double t = symlib_trunc(d);
    return t < d ? t + 1 : t;
}
