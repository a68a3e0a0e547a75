/* P41: what the model description declares, read from it by specs.py.
 * VP_WHAT: 0 start values, 1 settable variables, 2 states, 3 capabilities, 4 dependencies */
#include "vars.h"
#include <string.h>
#ifndef VP_KIND
#define VP_KIND ME
#endif

/* R: readable; S_<type>: start value; W: settable, within min and max; X: state with derivative and nominal */
#define R(T, vr, n) { struct val v; CHECK_OK(get_##T(c, vr, &v, n)); }
#define S_NUM(T, m, vr, s) { struct val v; CHECK_OK(get_##T(c, vr, &v, 1)); CHECK(v.m == s, "variable " #vr " has its declared start value"); }
#define S_F64(vr, n, ...) { struct val v; const double s[n] = { __VA_ARGS__ }; CHECK_OK(get_F64(c, vr, &v, n)); for (int i = 0; i < n; i++) CHECK(v.f64[i] == s[i], "variable " #vr " has its declared start value"); }
#define S_F32(vr, n, s) S_NUM(F32, f32, vr, s)
#define S_I8(vr, n, s) S_NUM(I8, i8, vr, s)
#define S_U8(vr, n, s) S_NUM(U8, u8, vr, s)
#define S_I16(vr, n, s) S_NUM(I16, i16, vr, s)
#define S_U16(vr, n, s) S_NUM(U16, u16, vr, s)
#define S_I32(vr, n, s) S_NUM(I32, i32, vr, s)
#define S_U32(vr, n, s) S_NUM(U32, u32, vr, s)
#define S_I64(vr, n, s) S_NUM(I64, i64, vr, s)
#define S_U64(vr, n, s) S_NUM(U64, u64, vr, s)
#define S_B(vr, n, s) S_NUM(B, b, vr, s)
#define S_S(vr, n, s) { const char *p = NULL; CHECK_OK(a_gets1(c, vr, &p)); CHECK(strcmp(p, s) == 0, "variable " #vr " has its declared start value"); }
#define S_BIN(vr, n, ...) { const fmi3Byte s[] = { __VA_ARGS__ }, *p = NULL; VR r = vr; size_t k = 0; CHECK_OK(fmi3GetBinary(c, &r, 1, &k, &p, 1)); CHECK(k == sizeof(s) && memcmp(p, s, sizeof(s)) == 0, "variable " #vr " has its declared start value"); }
#define W(T, vr, n, cond, back) { struct val a = { 0 }, b = { 0 }; sym(&a, T_##T, n); ASSUME(cond); CHECK_OK(set_##T(c, vr, &a, n)); \
    if (back) { CHECK_OK(get_##T(c, vr, &b, n)); CHECK(eq_##T(&a, &b, n), "variable " #vr " has the value that was set"); } }

#if VP_WHAT == 3
static int calls;
static double times[3];
static void update(fmi3InstanceEnvironment e, fmi3Float64 t, fmi3Boolean set, fmi3Boolean get, fmi3Boolean fin, fmi3Boolean can, fmi3Boolean *req, fmi3Float64 *rt) {
    (void)e; (void)set; (void)get; (void)fin; (void)can;
    *req = false; *rt = 0;
    if (calls < 3) times[calls] = t;
    calls++;
}
#endif

int main(void) {
#if VP_WHAT == 0
    inst c = mk(VP_KIND);
    CHECK(c != NULL, "instantiated");
    CHECK_OK(a_enter_init(c, 0));
    VP_READABLE
    VP_STARTS
#elif VP_WHAT == 1
    inst c = mk(VP_KIND);
    CHECK(c != NULL, "instantiated");
    CHECK_OK(a_enter_init(c, 0));
    VP_SETTABLE
#elif VP_WHAT == 2
    enum { N = 0 VP_COUNT };
    inst c = mk(ME);
    CHECK(c != NULL, "instantiated");
    CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_exit_init(c));
#if FMI_VERSION == 3
    size_t nx = 99, nz = 99;
    CHECK_OK(fmi3GetNumberOfContinuousStates(c, &nx)); CHECK(nx == N, "declared number of states");
    CHECK_OK(fmi3GetNumberOfEventIndicators(c, &nz)); CHECK(nz == VP_INDICATORS, "declared number of event indicators");
#endif
    CHECK_OK(a_enter_ct(c));
    double x[N + 1], d[N + 1], m[N + 1], z[VP_INDICATORS + 1];
    int k = 0;
    for (int i = 0; i < N; i++) x[i] = in_f64();
    CHECK_OK(a_setx(c, x, N)); CHECK_OK(a_getdx(c, d, N)); CHECK_OK(a_getnom(c, m, N)); CHECK_OK(a_getz(c, z, VP_INDICATORS));
#define X(xvr, dvr, n, nominal) { struct val v, w; CHECK_OK(get_F64(c, xvr, &v, n)); CHECK_OK(get_F64(c, dvr, &w, n)); \
    for (int i = 0; i < n; i++, k++) { CHECK(same_f64(v.f64[i], x[k]), "declared state"); CHECK(same_f64(w.f64[i], d[k]), "declared derivative"); CHECK(m[k] == nominal, "declared nominal value"); } }
    VP_STATES
#elif VP_WHAT == 3
    inst c = fmi3InstantiateCoSimulation("m", INSTANTIATION_TOKEN, RESOURCES, false, false, VP_EVENTS, true, NULL, 0, NULL, NULL, update);
    CHECK(c != NULL, "event mode and early return are available as declared");
    CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_exit_init(c));
#if VP_EVENTS
    CHECK_OK(fmi3EnterStepMode(c));
#endif
    bool e, t, r; double last, h = in_f64();
    ASSUME(h > (VP_SPAN - 0.5) * VP_FIXEDSTEP && h < (VP_SPAN + 0.5) * VP_FIXEDSTEP);
    CHECK_OK(fmi3DoStep(c, 0, h, true, &e, &t, &r, &last));
    CHECK(calls >= 1, "declared internal step size");
    for (int i = 0; i < 3; i++) if (i < calls) CHECK(times[i] > (i + 0.9) * VP_FIXEDSTEP && times[i] < (i + 1.1) * VP_FIXEDSTEP, "declared internal step size");
#if VP_STATE
    fstate s = NULL; size_t n = 0;
    CHECK_OK(a_save(c, &s)); CHECK_OK(a_restore(c, s));
    CHECK_OK(a_size(c, s, &n)); CHECK(n > 0, "declared serialization");
#endif
#else
    /* two instances that differ in the variables the unknown is declared not to depend on */
    inst c = mk(ME), d = mk(ME);
    CHECK(c && d, "instantiated");
    CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_enter_init(d, 0));
#if !VP_INITIAL
    CHECK_OK(a_exit_init(c)); CHECK_OK(a_exit_init(d));
#endif
#define K(T, vr, n, cond, depends) { struct val a = { 0 }; sym(&a, T_##T, n); ASSUME(cond); CHECK_OK(set_##T(c, vr, &a, n)); \
    if (!(depends)) { sym(&a, T_##T, n); ASSUME(cond); } CHECK_OK(set_##T(d, vr, &a, n)); }
    VP_KNOWNS
#define U(T, vr, n) { struct val a = { 0 }, b = { 0 }; CHECK_OK(get_##T(c, vr, &a, n)); CHECK_OK(get_##T(d, vr, &b, n)); CHECK(eq_##T(&a, &b, n), "variable " #vr " depends on no other variables than declared"); }
    VP_UNKNOWN
#endif
    REACH("done");
    return 0;
}
