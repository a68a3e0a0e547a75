/* P14: internal steps of the co-simulation solver against the documented right hand side */
#include "eq.h"
int main(void) {
    inst c = mk(CS);
    CHECK(c != NULL, "instantiated");
    double v[NI], x[NXS], dx[NXS], got;
    for (int i = 0; i < NI; i++) v[i] = value();
#ifdef VP_DAE
    CHECK_OK(a_setb1(c, 1, true));
#endif
    set_independent(c, v);
    CHECK_OK(a_enter_init(c, 0));
    CHECK_OK(a_exit_init(c));
    for (int i = 0; i < NXS; i++) x[i] = v[i];
    CHECK_OK(a_dostep(c, 0, VP_STEPS * STEP));
    CHECK_OK(get1(c, 0, &got));
    double end = got;
    /* number of internal steps: the tolerance of the step's end may exceed the internal step size (P12) */
    int n = 0;
    for (; n < 24 && (n + 0.5) * STEP < end; n++) {
#ifdef VP_MODEL_BouncingBall
        ASSUME(x[0] > 0 && x[0] + STEP * x[1] > 0);     /* in flight */
#endif
        deriv(v, x, dx);
        for (int i = 0; i < NXS; i++) x[i] += STEP * dx[i];
    }
#ifdef VP_MODEL_Roberts
    CHECK(n >= VP_STEPS && n <= VP_STEPS + 12, "about the requested number of internal steps is made");
#else
    CHECK(n == VP_STEPS, "the requested number of internal steps is made");
#endif
    CHECK(near(end, n * STEP), "time advances by the step size");
    for (int i = 0; i < NXS; i++) {
        CHECK_OK(get1(c, XVR[i], &got));
        CHECK(near(got, x[i]), "the state is the Euler step of the documented equation");
    }
    for (int i = NXS; i < NI; i++) {
        CHECK_OK(get1(c, IND[i], &got));
        CHECK(same_f64(got, v[i]), "inputs and parameters are unchanged");
    }
    REACH("stepped");
    return 0;
}
