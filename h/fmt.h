/* Model of formatted output for solver builds (the conversions the repository uses).
 * VP_FMT_ABSTRACT: every conversion is rendered as one character, arguments are still fetched. */
#ifndef H_FMT_H
#define H_FMT_H
#ifndef VP_REPLAY
#include <stdarg.h>
int vp_noprint(void) { return 0; }
static void fmt_put(char *b, size_t n, size_t *k, char c) {
    if (*k + 1 < n) b[*k] = c;
    (*k)++;
}
static void fmt_num(char *b, size_t n, size_t *k, unsigned long long v, bool neg, unsigned base, bool upper, unsigned width, bool zero) {
#ifdef VP_FMT_ABSTRACT
    (void)v; (void)neg; (void)base; (void)upper; (void)zero;
    for (unsigned i = 0; i < (width ? width : 1); i++) fmt_put(b, n, k, '?');
#else
    const char *dig = upper ? "0123456789ABCDEF" : "0123456789abcdef";
#ifdef VP_DIGITS
    /* sign and number of digits fixed by the job keep the length of the text concrete */
    const unsigned len = base == 10 ? VP_DIGITS : 2;
    ASSUME(v < (len == 1 ? base : len == 2 ? base * base : base * base * base));
    ASSUME(base != 10 || v >= (len == 1 ? 0 : len == 2 ? 10 : 100));
    ASSUME(neg == VP_NEG || base != 10);
    neg = VP_NEG && base == 10;
#else
    ASSUME(base == 16 || v <= 999);    /* decimal numbers with at most three digits */
    unsigned len = 1;
    for (unsigned long long q = v; q >= base && len < 8; q /= base) len++;
#endif
    if (neg) fmt_put(b, n, k, '-');
    for (unsigned i = width; i > len; i--) fmt_put(b, n, k, zero ? '0' : ' ');
    for (unsigned i = 8; i > 0; i--) if (i <= len) {
        unsigned long long q = v;
        for (unsigned j = 1; j < i; j++) q /= base;
        fmt_put(b, n, k, dig[q % base]);
    }
#endif
}
/* strings of arbitrary bytes whose length is fixed by the job */
static const char *fmt_str[4];
static size_t fmt_len[4];
static unsigned fmt_n;
static size_t fmt_strlen(const char *s) {
    for (unsigned i = 0; i < fmt_n; i++) if (s == fmt_str[i]) return fmt_len[i];
    size_t l = 0;
    while (s[l]) l++;
    return l;
}
size_t vp_strlen(const char *s) { return fmt_strlen(s); }
/* the encoding does not promote small variadic arguments */
#define FMT_INT(T, S) (__CPROVER_OBJECT_SIZE(*(void **)a) == 1 ? (T)va_arg(a, S char) : __CPROVER_OBJECT_SIZE(*(void **)a) == 2 ? (T)va_arg(a, S short) : va_arg(a, T))
int vp_vsnprintf(char *b, size_t n, const char *f, va_list a) {
    size_t k = 0;
    for (size_t i = 0; f[i]; i++) {
        if (f[i] != '%') { fmt_put(b, n, &k, f[i]); continue; }
        i++;
        bool zero = false; unsigned width = 0; int len = 0;
        if (f[i] == '0') { zero = true; i++; }
        while (f[i] >= '0' && f[i] <= '9') width = width * 10 + (f[i++] - '0');
        if (f[i] == '.') { i++; while (f[i] >= '0' && f[i] <= '9') i++; }
        while (f[i] == 'h' || f[i] == 'l' || f[i] == 'z') { len = f[i] == 'h' ? len - 1 : f[i] == 'z' ? 2 : len + 1; i++; }
        switch (f[i]) {
        case '%': fmt_put(b, n, &k, '%'); break;
        case 'd': case 'i': {
            long long v = len > 0 ? va_arg(a, long) : FMT_INT(int, signed);
            if (len == -1) v = (short)v;
            if (len <= -2) v = (signed char)v;
            fmt_num(b, n, &k, v < 0 ? -(unsigned long long)v : (unsigned long long)v, v < 0, 10, false, width, zero);
            break; }
        case 'u': case 'x': case 'X': {
            unsigned long long v = len > 0 ? va_arg(a, unsigned long) : FMT_INT(unsigned, unsigned);
            if (len == -1) v = (unsigned short)v;
            if (len <= -2) v = (unsigned char)v;
            fmt_num(b, n, &k, v, false, f[i] == 'u' ? 10 : 16, f[i] == 'X', width, zero);
            break; }
        case 'c': fmt_put(b, n, &k, (char)va_arg(a, int)); break;
        case 'p': (void)va_arg(a, void *); fmt_put(b, n, &k, '?'); break;
        case 'f': case 'e': case 'g': {
            double v = __CPROVER_OBJECT_SIZE(*(void **)a) == 4 ? (double)va_arg(a, float) : va_arg(a, double);
#ifdef VP_FMT_ABSTRACT
            (void)v; fmt_put(b, n, &k, '?');
#else
            ASSUME(v >= 0 && v < 10 && v == (double)(int)v);     /* one-digit numbers */
            fmt_put(b, n, &k, '0' + (int)v);
#endif
            break; }
        case 's': {
            const char *s = va_arg(a, const char *);
#ifdef VP_FMT_ABSTRACT
            if (s) fmt_put(b, n, &k, s[0] ? '?' : '?');
#else
            size_t l = fmt_strlen(s);
            for (size_t j = 0; j < l; j++) fmt_put(b, n, &k, s[j]);
#endif
            break; }
        default: CHECK(0, "conversion known to the model of formatted output");
        }
    }
    if (n > 0) b[k < n ? k : n - 1] = '\0';
    return (int)k;
}
int vp_snprintf(char *b, size_t n, const char *f, ...) {
    va_list a; va_start(a, f);
    int r = vp_vsnprintf(b, n, f, a);
    va_end(a);
    return r;
}
int vp_sprintf(char *b, const char *f, ...) {
    va_list a; va_start(a, f);
    int r = vp_vsnprintf(b, (size_t)1 << 30, f, a);
    va_end(a);
    return r;
}
#endif
#endif
