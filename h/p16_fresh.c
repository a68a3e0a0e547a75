/* P16: whatever is read reflects the current values.
 * VP_WARM: everything is read before the change; VP_OP: the change; VP_READ: the way of reading */
#include "eq.h"

enum { R_VARS, R_DX, R_X, R_Z, R_LATE };
#ifdef VP_MODEL_BouncingBall
#define NZ 1
#elif defined(VP_MODEL_Roberts)
#define NZ 2
#else
#define NZ 0
#endif

static void read_all(inst c) {
    double d, x[2];
    for (int i = 0; i < NXS; i++) { CHECK_OK(get1(c, DVR[i], &d)); CHECK_OK(get1(c, XVR[i], &d)); }
#if VP_KIND == 0 && !(FMI_VERSION == 2 && VP_OP == 1)
    CHECK_OK(a_getdx(c, x, NXS));
    CHECK_OK(a_getx(c, x, NXS));
#if NZ
    CHECK_OK(a_getz(c, x, NZ));
#endif
#endif
    (void)x;
}

static void expect_values(inst c, const double *v) {
    double dx[2], got, a[2];
    deriv(v, v, dx);
#ifdef VP_MODEL_Roberts
#ifdef VP_DAE
    double y3 = v[2];
#else
    double y3 = 1.0 - v[0] - v[1];
#endif
#endif
#if VP_READ == 0
    for (int i = 0; i < NXS; i++) {
        CHECK_OK(get1(c, DVR[i], &got));
        CHECK(near(got, dx[i]), "the derivative read as a variable is current");
    }
    for (int i = 0; i < NI; i++) {
        CHECK_OK(get1(c, IND[i], &got));
        CHECK(same_f64(got, v[i]), "the variable is current");
    }
#elif VP_READ == 1
    CHECK_OK(a_getdx(c, a, NXS));
    for (int i = 0; i < NXS; i++) CHECK(near(a[i], dx[i]), "the derivative is current");
#elif VP_READ == 2
    CHECK_OK(a_getx(c, a, NXS));
    for (int i = 0; i < NXS; i++) CHECK(same_f64(a[i], v[i]), "the continuous state is current");
#elif VP_READ == 3
    CHECK_OK(a_getz(c, a, NZ));
#ifdef VP_MODEL_BouncingBall
    /* at contact a hysteresis may replace the height by another value that is not positive */
    CHECK(v[0] > -0.001 && v[0] <= 0 ? a[0] <= 0 : same_f64(a[0], v[0]), "the event indicator is current");
#else
    CHECK(near(a[0], v[0] - 0.0001) && near(a[1], y3 - 0.01), "the event indicators are current");
#endif
#elif VP_READ == 4
#ifdef VP_MODEL_Roberts
    CHECK_OK(get1(c, 6, &got));
    CHECK(near(got, y3), "y3 is current");
    CHECK_OK(get1(c, 8, &got));
    CHECK(near(got, v[0] + v[1] + y3 - 1.0), "the residual is current");
    CHECK_OK(get1(c, 9, &got));
    CHECK(near(got, v[0] - 0.0001), "the first event indicator variable is current");
    CHECK_OK(get1(c, 10, &got));
    CHECK(near(got, y3 - 0.01), "the second event indicator variable is current");
#endif
#endif
    (void)a; (void)got;
}

int main(void) {
    inst c = mk(VP_KIND);
    CHECK(c != NULL, "instantiated");
    double v[NI];
#ifdef VP_DAE
    CHECK_OK(a_setb1(c, 1, true));
#endif
    for (int i = 0; i < NI; i++) v[i] = value();
    set_independent(c, v);
    CHECK_OK(a_enter_init(c, 0));
#if VP_OP != 1
    CHECK_OK(a_exit_init(c));
#endif
#if VP_KIND == 0 && VP_OP >= 2
    CHECK_OK(a_enter_ct(c));
#endif
#if VP_WARM
    read_all(c);
#endif
#if VP_OP == 1 || VP_OP == 5        /* a variable is set in initialization mode, or between steps */
    double w = value();
#if VP_OP == 1
    CHECK_OK(set1(c, IND[VP_I], w));
    v[VP_I] = w;
#else
    if (set1(c, IND[VP_I], w) == 0) v[VP_I] = w;    /* states may be refused here */
#endif
#elif VP_OP == 2                    /* the integrator sets the states */
    for (int i = 0; i < NXS; i++) v[i] = value();
    CHECK_OK(a_setx(c, v, NXS));
#elif VP_OP == 3                    /* the states are set, read and restored */
    {
        fstate s = NULL;
        double w[2], dummy[2];
        CHECK_OK(a_save(c, &s));
        for (int i = 0; i < NXS; i++) w[i] = value();
        CHECK_OK(a_setx(c, w, NXS));
        CHECK_OK(a_getdx(c, dummy, NXS));
        CHECK_OK(a_restore(c, s));
    }
#elif VP_OP == 4                    /* an event without change of the states */
    {
        struct einfo e;
#ifdef VP_MODEL_BouncingBall
        ASSUME(v[0] > 0);
#endif
        for (int i = 0; i < NXS; i++) v[i] = value();
#ifdef VP_MODEL_BouncingBall
        ASSUME(v[0] > 0);
#endif
        CHECK_OK(a_setx(c, v, NXS));
        CHECK_OK(a_enter_event(c));
        CHECK_OK(a_event(c, &e));
    }
#endif
    expect_values(c, v);
    REACH("read");
    return 0;
}
