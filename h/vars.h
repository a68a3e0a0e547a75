/* Variables of each model as its model description lists them, with the modes in which they may be set,
 * and a complete observation of an instance. */
#ifndef VARS_H
#define VARS_H
#include "api.h"

enum { T_F64, T_F32, T_I8, T_U8, T_I16, T_U16, T_I32, T_U32, T_I64, T_U64, T_B, T_S, T_BIN, NTYPES };
enum { M_INST = 1, M_CONF = 2, M_INIT = 4, M_EVENT = 8, M_CT = 16, M_STEP = 32, M_CLK = 64, M_RECONF = 128, M_TERM = 256 };
/* access: read-only, any mode, fixed, tunable/discrete, state, start value, StateSpace x, structural, not tested */
enum { A_RO, A_ANY, A_FIX, A_TUN, A_STATE, A_START, A_X, A_STRUCT, A_SKIP };

#if defined(VP_MODEL_BouncingBall)
#define VARS(V) V(F64, 0, 1, RO) V(F64, 1, 1, STATE) V(F64, 2, 1, RO) V(F64, 3, 1, STATE) V(F64, 4, 1, RO) V(F64, 5, 1, FIX) V(F64, 6, 1, TUN) V(F64, 7, 1, RO)
static bool dep(VR j, VR i) { return (j == 2 && i == 3) || (j == 4 && i == 5); }
#elif defined(VP_MODEL_Dahlquist)
#define VARS(V) V(F64, 0, 1, RO) V(F64, 1, 1, ANY) V(F64, 2, 1, RO) V(F64, 3, 1, FIX)
static bool dep(VR j, VR i) { return j == 2 && (i == 1 || i == 3); }
#elif defined(VP_MODEL_VanDerPol)
#define VARS(V) V(F64, 0, 1, RO) V(F64, 1, 1, ANY) V(F64, 2, 1, RO) V(F64, 3, 1, ANY) V(F64, 4, 1, RO) V(F64, 5, 1, TUN)
static bool dep(VR j, VR i) { return (j == 2 && i == 3) || (j == 4 && (i == 1 || i == 3 || i == 5)); }
#elif defined(VP_MODEL_Stair)
#define VARS(V) V(F64, 0, 1, RO) V(I32, 1, 1, START)
static bool dep(VR j, VR i) { (void)i; (void)j; return false; }
#elif defined(VP_MODEL_Resource)
#define VARS(V) V(F64, 0, 1, RO) V(I32, 1, 1, RO)
static bool dep(VR j, VR i) { (void)i; (void)j; return false; }
#elif defined(VP_MODEL_Clocks)
#define VARS(V) V(F64, 0, 1, RO) V(I32, 2001, 1, RO) V(I32, 2002, 1, RO) V(I32, 2003, 1, RO) V(I32, 2004, 1, RO) V(I32, 2005, 1, RO) V(I32, 2006, 1, ANY) V(I32, 2007, 1, RO)
static bool dep(VR j, VR i) { (void)i; (void)j; return false; }
#elif defined(VP_MODEL_Roberts)
/* y3 is an independent variable only if dae is true */
#ifdef VP_DAE
#define VARS(V) V(F64, 0, 1, RO) V(B, 1, 1, SKIP) V(F64, 2, 1, ANY) V(F64, 3, 1, RO) V(F64, 4, 1, ANY) V(F64, 5, 1, RO) V(F64, 6, 1, ANY) V(F64, 7, 1, RO) V(F64, 8, 1, RO) V(F64, 9, 1, RO) V(F64, 10, 1, RO)
static bool dep(VR j, VR i) { return i != 7 && (j == 3 || j == 5 || j == 8 || (j == 9 && i == 2) || (j == 10 && i == 6)); }
#else
#define VARS(V) V(F64, 0, 1, RO) V(B, 1, 1, ANY) V(F64, 2, 1, ANY) V(F64, 3, 1, RO) V(F64, 4, 1, ANY) V(F64, 5, 1, RO) V(F64, 6, 1, SKIP) V(F64, 7, 1, RO) V(F64, 8, 1, RO) V(F64, 9, 1, RO) V(F64, 10, 1, RO)
static bool dep(VR j, VR i) { return i != 7 && (j == 3 || j == 5 || j == 6 || j == 8 || j == 9 || j == 10); }
#endif
#elif defined(VP_MODEL_StateSpace)
#ifdef VP_NOMATRIX   /* what is observed without the matrices */
#define VARS(V) V(F64, 0, 1, RO) V(U64, 1, 1, STRUCT) V(U64, 2, 1, STRUCT) V(U64, 3, 1, STRUCT) V(F64, 8, 3, ANY) V(F64, 9, 3, ANY) V(F64, 11, 3, X)
#else
#define VARS(V) V(F64, 0, 1, RO) V(U64, 1, 1, STRUCT) V(U64, 2, 1, STRUCT) V(U64, 3, 1, STRUCT) V(F64, 4, 9, ANY) V(F64, 5, 9, ANY) V(F64, 6, 9, ANY) V(F64, 7, 9, ANY) V(F64, 8, 3, ANY) V(F64, 9, 3, ANY) V(F64, 10, 3, RO) V(F64, 11, 3, X) V(F64, 12, 3, RO)
#endif
static bool dep(VR j, VR i) { return ((j == 11 || j == 10 || j == 12) && i == 8) || (j == 10 && (i == 6 || i == 7 || i == 9 || i == 11)) || (j == 12 && (i == 4 || i == 5 || i == 9 || i == 11)); }
#elif defined(VP_MODEL_Feedthrough)
#if FMI_VERSION == 3
#define VARS(V) V(F64, 0, 1, RO) V(F32, 1, 1, ANY) V(F32, 2, 1, RO) V(F32, 3, 1, TUN) V(F32, 4, 1, RO) \
    V(F64, 5, 1, FIX) V(F64, 6, 1, TUN) V(F64, 7, 1, ANY) V(F64, 8, 1, RO) V(F64, 9, 1, TUN) V(F64, 10, 1, RO) \
    V(I8, 11, 1, ANY) V(I8, 12, 1, RO) V(U8, 13, 1, ANY) V(U8, 14, 1, RO) V(I16, 15, 1, ANY) V(I16, 16, 1, RO) V(U16, 17, 1, ANY) V(U16, 18, 1, RO) \
    V(I32, 19, 1, ANY) V(I32, 20, 1, RO) V(U32, 21, 1, ANY) V(U32, 22, 1, RO) V(I64, 23, 1, ANY) V(I64, 24, 1, RO) V(U64, 25, 1, ANY) V(U64, 26, 1, RO) \
    V(B, 27, 1, ANY) V(B, 28, 1, RO) V(S, 29, 1, ANY) V(S, 30, 1, RO) V(BIN, 31, 1, ANY) V(BIN, 32, 1, RO) V(I64, 33, 1, ANY) V(I64, 34, 1, RO)
#else
#define VARS(V) V(F64, 0, 1, RO) V(F64, 5, 1, FIX) V(F64, 6, 1, TUN) V(F64, 7, 1, ANY) V(F64, 8, 1, RO) V(F64, 9, 1, TUN) V(F64, 10, 1, RO) \
    V(I32, 19, 1, ANY) V(I32, 20, 1, RO) V(B, 27, 1, ANY) V(B, 28, 1, RO) V(S, 29, 1, ANY) V(S, 30, 1, RO) V(I32, 33, 1, ANY) V(I32, 34, 1, RO)
#endif
static bool dep(VR j, VR i) { return j == i + 1 && i != 5 && i != 6; }
#endif

#ifdef VP_DAE
#define VP_R3(vr) false
#else
#define VP_R3(vr) (vr == 6)
#endif
/* variables computed by products of others; with VP_NODERIVED they are left to the properties on the equations */
static bool derived(VR vr) {
    (void)vr;
#ifdef VP_NODERIVED
#if defined(VP_MODEL_Dahlquist)
    return vr == 2;
#elif defined(VP_MODEL_VanDerPol)
    return vr == 4;
#elif defined(VP_MODEL_Roberts)
    return vr == 3 || vr == 5 || vr >= 8 || VP_R3(vr);
#elif defined(VP_MODEL_StateSpace)
    return vr == 10 || vr == 12;
#endif
#endif
    return false;
}

static bool mode_ok(int acc, int type, int kind, unsigned mode) {
    bool me = kind == ME;
#if FMI_VERSION == 3
    if (mode == M_CT && type != T_F64 && type != T_F32) return false;
#else
    if (mode == M_TERM || (mode == M_CT && type != T_F64)) return false;
#endif
    switch (acc) {
    case A_ANY: return true;
    case A_FIX: return !me || (mode & (M_INST | M_INIT));
    case A_TUN: return !me || (mode & (M_INST | M_INIT | M_EVENT));
    case A_STATE: return mode & (M_INST | M_INIT | M_EVENT | M_CT);
    case A_START: return mode & (M_INST | M_INIT);
    case A_X: return mode & (M_EVENT | M_CT);
    case A_STRUCT: return mode & (M_CONF | M_RECONF);
    }
    return false;
}

#ifndef VP_BINLEN
#define VP_BINLEN 3   /* as the start value; other lengths are the subject of P21 */
#endif
#define STRN 4   /* bytes of a tested string or binary */
struct val { double f64[9]; float f32; int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; bool b; char s[STRN]; size_t nbin; uint8_t bin[STRN]; };

#define SC(T, m, F) \
static int get_##T(inst c, VR vr, struct val *v, size_t n) { (void)n; return fmi3Get##F(c, &vr, 1, &v->m, 1); } \
static int set_##T(inst c, VR vr, const struct val *v, size_t n) { (void)n; return fmi3Set##F(c, &vr, 1, &v->m, 1); }

static int get_F64(inst c, VR vr, struct val *v, size_t n) { return a_getr(c, &vr, 1, v->f64, n); }
static int set_F64(inst c, VR vr, const struct val *v, size_t n) { return a_setr(c, &vr, 1, v->f64, n); }
static int get_B(inst c, VR vr, struct val *v, size_t n) { (void)n; return a_getb1(c, vr, &v->b); }
static int set_B(inst c, VR vr, const struct val *v, size_t n) { (void)n; return a_setb1(c, vr, v->b); }
static int get_S(inst c, VR vr, struct val *v, size_t n) {
    const char *p = NULL; (void)n;
    int s = a_gets1(c, vr, &p);
    if (s == 0) for (int i = 0; i < STRN; i++) { v->s[i] = p[i]; if (!p[i]) break; }
    return s;
}
static int set_S(inst c, VR vr, const struct val *v, size_t n) { (void)n; return a_sets1(c, vr, v->s); }
#if FMI_VERSION == 3
SC(F32, f32, Float32) SC(I8, i8, Int8) SC(U8, u8, UInt8) SC(I16, i16, Int16) SC(U16, u16, UInt16) SC(I32, i32, Int32) SC(U32, u32, UInt32) SC(I64, i64, Int64) SC(U64, u64, UInt64)
static int get_BIN(inst c, VR vr, struct val *v, size_t n) {
    const fmi3Byte *p = NULL; size_t sz = 0; (void)n;
    int s = fmi3GetBinary(c, &vr, 1, &sz, &p, 1);
    v->nbin = sz;
    if (s == 0) for (size_t i = 0; i < STRN; i++) if (i < sz) v->bin[i] = p[i];
    return s;
}
static int set_BIN(inst c, VR vr, const struct val *v, size_t n) { const fmi3Byte *p = v->bin; size_t sz = v->nbin; (void)n; return fmi3SetBinary(c, &vr, 1, &sz, &p, 1); }
#else
static int get_I32(inst c, VR vr, struct val *v, size_t n) { return a_geti(c, &vr, 1, &v->i32, n); }
static int set_I32(inst c, VR vr, const struct val *v, size_t n) { return a_seti(c, &vr, 1, &v->i32, n); }
#endif

static bool eq_F64(const struct val *a, const struct val *b, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r = r & same_f64(a->f64[i], b->f64[i]); return r; }
static bool eq_F32(const struct val *a, const struct val *b, size_t n) { (void)n; return same_f32(a->f32, b->f32); }
#define EQ(T, m) static bool eq_##T(const struct val *a, const struct val *b, size_t n) { (void)n; return a->m == b->m; }
EQ(I8, i8) EQ(U8, u8) EQ(I16, i16) EQ(U16, u16) EQ(I32, i32) EQ(U32, u32) EQ(I64, i64) EQ(U64, u64) EQ(B, b)
static bool eq_S(const struct val *a, const struct val *b, size_t n) { (void)n; for (int i = 0; i < STRN; i++) { if (a->s[i] != b->s[i]) return false; if (!a->s[i]) break; } return true; }
static bool eq_BIN(const struct val *a, const struct val *b, size_t n) { (void)n; if (a->nbin != b->nbin) return false; for (size_t i = 0; i < STRN; i++) if (i < a->nbin && a->bin[i] != b->bin[i]) return false; return true; }

/* symbolic value; only the member of the given type is filled */
static void sym(struct val *v, int t, size_t n) {
    switch (t) {
    case T_F64: for (size_t i = 0; i < n; i++) v->f64[i] = in_f64(); break;
    case T_F32: v->f32 = in_f32(); break;
    case T_I8: v->i8 = in_i8(); break;
    case T_U8: v->u8 = in_u8(); break;
    case T_I16: v->i16 = in_i16(); break;
    case T_U16: v->u16 = in_u16(); break;
    case T_I32: v->i32 = in_i32(); break;
    case T_U32: v->u32 = in_u32(); break;
    case T_I64: v->i64 = in_i64(); break;
    case T_U64: v->u64 = in_u64(); break;
    case T_B: v->b = in_bool(); break;
    case T_S: for (int i = 0; i < STRN - 1; i++) v->s[i] = (char)in_u8(); v->s[STRN - 1] = 0; break;
    case T_BIN: v->nbin = VP_BINLEN; for (int i = 0; i < STRN; i++) v->bin[i] = in_u8(); break;
    }
}

/* values the model documents as legal */
static bool legal_value(int t, VR vr, const struct val *v) {
    (void)t; (void)vr; (void)v;
#if defined(VP_MODEL_Stair)
    if (t == T_I32) return v->i32 <= 10;
#elif defined(VP_MODEL_Feedthrough)
#if FMI_VERSION == 3
    if (t == T_I64 && vr == 33) return v->i64 == 1 || v->i64 == 2;
#else
    if (t == T_I32 && vr == 33) return v->i32 == 1 || v->i32 == 2;
#endif
#elif defined(VP_MODEL_StateSpace)
    if (t == T_U64) return v->u64 <= 5;
#endif
    return true;
}

/* everything an importer can read: the variables */
struct view {
#define V(T, vr, n, acc) struct val v##vr;
    VARS(V)
#undef V
};
static void observe(inst c, struct view *o) {
#define V(T, vr, n, acc) CHECK(get_##T(c, vr, &o->v##vr, n) == S_OK, "variable " #vr " can be read");
    VARS(V)
#undef V
}
/* o1 and o2 agree on every variable but `except` and those computed from it (use NONE for a full comparison) */
#define NONE 0xffffffu
static void views_agree(const struct view *o1, const struct view *o2, VR except) {
#define V(T, vr, n, acc) CHECK(derived(vr) || (except != NONE && (except == vr || dep(vr, except))) || eq_##T(&o1->v##vr, &o2->v##vr, n), "variable " #vr " is the same");
    VARS(V)
#undef V
}

#if FMI_VERSION == 3
#endif
#ifndef VP_TYPES
#define VP_TYPES 0xffff   /* types under test, a case split done by the runner */
#endif
#define ON(t) ((VP_TYPES >> (t)) & 1)
static int set_any(inst c, int t, VR vr, const struct val *v, size_t n) {
    switch (t) {
    case T_F64: if (ON(T_F64)) return set_F64(c, vr, v, n); break;
    case T_I32: if (ON(T_I32)) return set_I32(c, vr, v, n); break;
    case T_B: if (ON(T_B)) return set_B(c, vr, v, n); break;
    case T_S: if (ON(T_S)) return set_S(c, vr, v, n); break;
#if FMI_VERSION == 3
    case T_F32: if (ON(T_F32)) return set_F32(c, vr, v, n); break;
    case T_I8: if (ON(T_I8)) return set_I8(c, vr, v, n); break;
    case T_U8: if (ON(T_U8)) return set_U8(c, vr, v, n); break;
    case T_I16: if (ON(T_I16)) return set_I16(c, vr, v, n); break;
    case T_U16: if (ON(T_U16)) return set_U16(c, vr, v, n); break;
    case T_U32: if (ON(T_U32)) return set_U32(c, vr, v, n); break;
    case T_I64: if (ON(T_I64)) return set_I64(c, vr, v, n); break;
    case T_U64: if (ON(T_U64)) return set_U64(c, vr, v, n); break;
    case T_BIN: if (ON(T_BIN)) return set_BIN(c, vr, v, n); break;
#endif
    }
    ASSUME(0);
    return 0;
}
static int get_any(inst c, int t, VR vr, struct val *v, size_t n) {
    switch (t) {
    case T_F64: if (ON(T_F64)) return get_F64(c, vr, v, n); break;
    case T_I32: if (ON(T_I32)) return get_I32(c, vr, v, n); break;
    case T_B: if (ON(T_B)) return get_B(c, vr, v, n); break;
    case T_S: if (ON(T_S)) return get_S(c, vr, v, n); break;
#if FMI_VERSION == 3
    case T_F32: if (ON(T_F32)) return get_F32(c, vr, v, n); break;
    case T_I8: if (ON(T_I8)) return get_I8(c, vr, v, n); break;
    case T_U8: if (ON(T_U8)) return get_U8(c, vr, v, n); break;
    case T_I16: if (ON(T_I16)) return get_I16(c, vr, v, n); break;
    case T_U16: if (ON(T_U16)) return get_U16(c, vr, v, n); break;
    case T_U32: if (ON(T_U32)) return get_U32(c, vr, v, n); break;
    case T_I64: if (ON(T_I64)) return get_I64(c, vr, v, n); break;
    case T_U64: if (ON(T_U64)) return get_U64(c, vr, v, n); break;
    case T_BIN: if (ON(T_BIN)) return get_BIN(c, vr, v, n); break;
#endif
    }
    ASSUME(0);
    return 0;
}
static bool eq_any(int t, const struct val *a, const struct val *b, size_t n) {
    switch (t) {
    case T_F64: return eq_F64(a, b, n);
    case T_F32: return eq_F32(a, b, n);
    case T_I8: return eq_I8(a, b, n);
    case T_U8: return eq_U8(a, b, n);
    case T_I16: return eq_I16(a, b, n);
    case T_U16: return eq_U16(a, b, n);
    case T_I32: return eq_I32(a, b, n);
    case T_U32: return eq_U32(a, b, n);
    case T_I64: return eq_I64(a, b, n);
    case T_U64: return eq_U64(a, b, n);
    case T_B: return eq_B(a, b, n);
    case T_S: return eq_S(a, b, n);
    case T_BIN: return eq_BIN(a, b, n);
    }
    return false;
}

/* number of elements of the variable, 0 if there is no such variable of this type */
static size_t var_size(int t, VR v) {
#define V(T, vr, n, acc) if (t == T_##T && v == vr) return n;
    VARS(V)
#undef V
    return 0;
}
static int var_access(int t, VR v) {
#define V(T, vr, n, acc) if (t == T_##T && v == vr) return A_##acc;
    VARS(V)
#undef V
    return A_RO;
}

/* variables with a restricted range get a concrete value, so that the status of the call is concrete */
static bool limited(int t, VR vr) {
#if defined(VP_MODEL_Stair)
    return t == T_I32 && vr == 1;
#elif defined(VP_MODEL_Feedthrough)
#ifdef VP_NOSTR
    if (t == T_S || t == T_BIN) return true;
#endif
    return (t == T_I64 || t == T_I32) && vr == 33;
#else
    (void)t; (void)vr;
    return false;
#endif
}
static void concrete(struct val *v) { v->i32 = 2; v->i64 = 2; v->s[0] = 'x'; v->s[1] = 0; v->nbin = VP_BINLEN; v->bin[0] = 1; v->bin[1] = 2; v->bin[2] = 3; }
/* give every variable that may be set after instantiation a symbolic value, the same in both instances */
static void symbolic_values(inst c, inst d) {
#define V(T, vr, n, acc) if (mode_ok(A_##acc, T_##T, ME, M_INST) && A_##acc != A_STRUCT) { \
        struct val x; if (limited(T_##T, vr)) concrete(&x); else sym(&x, T_##T, n); \
        CHECK_OK(set_##T(c, vr, &x, n)); if (d) CHECK_OK(set_##T(d, vr, &x, n)); }
    VARS(V)
#undef V
}

static void to_mode(inst c, int kind, unsigned m) {
    if (m == M_INST) return;
#if FMI_VERSION == 3
    if (m == M_CONF) { CHECK_OK(fmi3EnterConfigurationMode(c)); return; }
#endif
    CHECK_OK(a_enter_init(c, 0));
    if (m == M_INIT) return;
    CHECK_OK(a_exit_init(c));
    if (m == M_TERM) { CHECK_OK(a_term(c)); return; }
    if (kind == ME) {
        if (m == M_CT) CHECK_OK(a_enter_ct(c));
    }
#if FMI_VERSION == 3
    if (m == M_RECONF) { CHECK_OK(fmi3EnterConfigurationMode(c)); return; }
    if (kind == CSE && m == M_STEP) CHECK_OK(fmi3EnterStepMode(c));
#endif
}
#endif
