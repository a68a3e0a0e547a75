/* P06: array size contract. The arrays have exactly the announced size, so every access outside is a
 * memory error that the pointer checks (and AddressSanitizer in a replay) report. */
#include "vars.h"

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define TY CAT(T_, VP_T)
#define CT_F64 double
#define CT_F32 float
#define CT_I8 int8_t
#define CT_U8 uint8_t
#define CT_I16 int16_t
#define CT_U16 uint16_t
#define CT_I32 int32_t
#define CT_U32 uint32_t
#define CT_I64 int64_t
#define CT_U64 uint64_t
#define CT_S const char *
#define CT_BIN const uint8_t *
#if FMI_VERSION == 3
#define CT_B bool
#define F_F64 Float64
#define F_F32 Float32
#define F_I8 Int8
#define F_U8 UInt8
#define F_I16 Int16
#define F_U16 UInt16
#define F_I32 Int32
#define F_U32 UInt32
#define F_I64 Int64
#define F_U64 UInt64
#define F_B Boolean
#define F_S String
#define F_BIN Binary
#define GETF CAT(fmi3Get, CAT(F_, VP_T))
#define SETF CAT(fmi3Set, CAT(F_, VP_T))
#else
#define CT_B fmi2Boolean
#define F_F64 Real
#define F_I32 Integer
#define F_B Boolean
#define F_S String
#define GETF CAT(fmi2Get, CAT(F_, VP_T))
#define SETF CAT(fmi2Set, CAT(F_, VP_T))
#endif
typedef CAT(CT_, VP_T) elem;

#define MAXV 4
static elem e1[1], e2[2], e3[3], e4[4];
static size_t z1[1], z2[2], z3[3], z4[4];
static VR r1[1], r2[2];

int main(void) {
    inst c = mk(VP_KIND);
    CHECK(c != NULL, "instantiated");
    CHECK_OK(a_enter_init(c, 0));
    const size_t nvr = VP_NVR;
    size_t nv;
    elem *v; size_t *z; VR *vr = nvr == 2 ? r2 : r1;
#ifdef VP_NV
    nv = VP_NV;
#else
    nv = in_range(0, MAXV);
#endif
#if FMI_VERSION == 2
    nv = nvr;
#endif
    switch (nv) {
    case 0: v = e1 + 1; z = z1 + 1; nv = 0; break;
    case 1: v = e1; z = z1; nv = 1; break;
    case 2: v = e2; z = z2; nv = 2; break;
    case 3: v = e3; z = z3; nv = 3; break;
    default: v = e4; z = z4; nv = 4; break;
    }
    (void)z;
    size_t total = 0;
    bool known = true, settable = true;
    for (size_t i = 0; i < nvr; i++) {
        vr[i] = in_u32();
        ASSUME(vr[i] < NONE);
        size_t n = var_size(TY, vr[i]);
        known = known && n > 0;
        settable = settable && n > 0 && (var_access(TY, vr[i]) == A_SKIP || mode_ok(var_access(TY, vr[i]), TY, VP_KIND, M_INIT));
        total += n;
    }
    int s;
    bool nullvr = VP_NULL && in_bool(), nullv = VP_NULL && !nullvr;
#ifdef VP_SET
    for (size_t i = 0; i < MAXV; i++) {
        static const char *const strs[MAXV] = { "a", "", "abc", "d" };
        static const uint8_t bin[3] = { 1, 0, 3 };
        (void)strs; (void)bin;
        if (i < nv) {
            struct val x = {0};
            switch (TY) {   /* any value; strings and binaries are the subject of P21 */
            case T_S: { const char *p = strs[i]; memcpy(&v[i], &p, sizeof(p)); break; }
            case T_BIN: { const uint8_t *p = bin; memcpy(&v[i], &p, sizeof(p)); z[i] = 3; break; }
            case T_F64: x.f64[0] = in_f64(); memcpy(&v[i], &x.f64[0], sizeof(elem)); break;
            case T_B: { CT_B b = in_bool(); memcpy(&v[i], &b, sizeof(b)); break; }
            default: { uint64_t b = in_u64(); memcpy(&v[i], &b, sizeof(elem)); break; }
            }
        }
    }
#if VP_IS_BIN
    s = SETF(c, nullvr ? NULL : vr, nvr, z, nullv ? NULL : v, nv);
#elif FMI_VERSION == 3
    s = SETF(c, nullvr ? NULL : vr, nvr, nullv ? NULL : v, nv);
#else
    s = SETF(c, nullvr ? NULL : vr, nvr, nullv ? NULL : v);
#endif
    known = settable;
#else
#if VP_IS_BIN
    s = GETF(c, nullvr ? NULL : vr, nvr, z, nullv ? NULL : v, nv);
#elif FMI_VERSION == 3
    s = GETF(c, nullvr ? NULL : vr, nvr, nullv ? NULL : v, nv);
#else
    s = GETF(c, nullvr ? NULL : vr, nvr, nullv ? NULL : v);
#endif
#endif
    if (VP_NULL) {
        if (nullvr || total > 0) CHECK(s == S_ERROR, "an absent array is an error");
    } else if (!known || total != nv) {
        CHECK(s == S_ERROR, "a wrong number of values or an illegal variable is an error");
    }
#ifndef VP_SET
    else CHECK(s == S_OK, "a matching number of values is accepted");
#endif
    REACH("called");
    return 0;
}
