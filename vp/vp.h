/* Harness vocabulary. One harness source serves three builds:
 *   (default, goto-cc)     symbolic: inputs are nondeterministic, CHECK is a proof obligation
 *   -DVP_WITNESS (goto-cc) vacuity twin: CHECKs vanish, REACH must be violated
 *   -DVP_REPLAY (gcc)      concrete: inputs are read from the file named by $VP_INPUTS        */
#ifndef VP_H
#define VP_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_REPLAY

static FILE *vp_f;
static uint64_t vp_next(const char *t) {
    char tag[16];
    unsigned long long v = 0;
    if (!vp_f) {
        const char *p = getenv("VP_INPUTS");
        vp_f = p ? fopen(p, "r") : NULL;
        if (!vp_f) { fprintf(stderr, "REPLAY: no inputs\n"); exit(78); }
    }
    if (fscanf(vp_f, "%15s %llx", tag, &v) != 2) {
        /* inputs not constrained by the solver may be absent from the trace */
        fprintf(stderr, "REPLAY: input exhausted, using 0 for %s\n", t);
        return 0;
    }
    if (strcmp(tag, t)) { fprintf(stderr, "REPLAY: input kind %s, expected %s\n", tag, t); exit(79); }
    return (uint64_t)v;
}
#define VP_IN(name, type, tag) \
    static inline type name(void) { uint64_t b = vp_next(tag); type vp_in; memcpy(&vp_in, &b, sizeof(vp_in)); return vp_in; }
VP_IN(in_f64, double, "f64")
VP_IN(in_f32, float, "f32")
VP_IN(in_u64, uint64_t, "u64")
VP_IN(in_i64, int64_t, "i64")
VP_IN(in_u32, uint32_t, "u32")
VP_IN(in_i32, int32_t, "i32")
VP_IN(in_u16, uint16_t, "u16")
VP_IN(in_i16, int16_t, "i16")
VP_IN(in_u8, uint8_t, "u8")
VP_IN(in_i8, int8_t, "i8")
static inline bool in_bool(void) { return vp_next("bool") & 1; }

#define ASSUME(c) do { if (!(c)) { fprintf(stderr, "REPLAY: assumption not met: %s (%s:%d)\n", #c, __FILE__, __LINE__); exit(77); } } while (0)
#define CHECK(c, what) do { if (!(c)) { \
    fprintf(stderr, "REPLAY-VIOLATION: %s [%s] at %s:%d\n", what, #c, __FILE__, __LINE__); fflush(NULL); _Exit(42); } } while (0)
#define REACH(what) ((void)0)

#else /* solver builds */

#define VP_IN(name, type, tag) \
    type nondet_##name(void); \
    static inline type name(void) { type vp_in = nondet_##name(); return vp_in; }
VP_IN(in_f64, double, "f64")
VP_IN(in_f32, float, "f32")
VP_IN(in_u64, uint64_t, "u64")
VP_IN(in_i64, int64_t, "i64")
VP_IN(in_u32, uint32_t, "u32")
VP_IN(in_i32, int32_t, "i32")
VP_IN(in_u16, uint16_t, "u16")
VP_IN(in_i16, int16_t, "i16")
VP_IN(in_u8, uint8_t, "u8")
VP_IN(in_i8, int8_t, "i8")
VP_IN(in_bool, bool, "bool")

#define ASSUME(c) __CPROVER_assume(c)
#ifdef VP_WITNESS
#define CHECK(c, what) ((void)(c))
#define REACH(what) __CPROVER_assert(0, "VPREACH " what)
#else
/* a failed check ends the path, so what follows may rely on it */
#define CHECK(c, what) do { const bool vp_c = (c); __CPROVER_assert(vp_c, "VPCHECK " what); __CPROVER_assume(vp_c); } while (0)
#define REACH(what) ((void)0)
#endif

#endif

#define CHECK_OK(call) CHECK((call) == 0, "unexpected status of " #call)

/* value in [lo, hi] */
static inline unsigned in_range(unsigned lo, unsigned hi) {
    unsigned v = in_u32();
    ASSUME(v >= lo && v <= hi);
    return v;
}

/* finite IEEE double, any magnitude */
static inline bool vp_isnan(double d) { return d != d; }
static inline bool vp_finite(double d) { return d - d == 0.0; }

/* same value as far as a reader can tell: equal, or both NaN */
static inline bool same_f64(double a, double b) { return a == b || (a != a && b != b); }
static inline bool same_f32(float a, float b) { return a == b || (a != a && b != b); }

/* dyadic rational with few significant bits: m * 2^-s, |m| < 2^bits; arithmetic on
 * these is exact for small expressions and cheap for a bit-level solver */
static inline double in_dyadic(unsigned bits, int scale) {
    int32_t m = in_i32();
    ASSUME(m > -(1 << bits) && m < (1 << bits));
    double v = (double)m;
    for (int i = 0; i < scale; i++) v *= 0.5;
    return v;
}

#endif
