/* P12: where a step of any legal size ends */
#include "vars.h"
static double absd(double x) { return x < 0 ? -x : x; }
static double tm(inst c) { double t = -1; CHECK_OK(get1(c, 0, &t)); return t; }

static double step(inst c, double cp, double h) {
    double before = tm(c), t, last;
#if FMI_VERSION == 3
    bool ev = true, te = true, er = true;
    CHECK(fmi3DoStep(c, cp, h, true, &ev, &te, &er, &last) == fmi3OK, "a legal step succeeds");
    CHECK(!er && !ev && !te, "nothing is announced");
#else
    CHECK(fmi2DoStep(c, cp, h, true) == fmi2OK, "a legal step succeeds");
    CHECK_OK(fmi2GetRealStatus(c, fmi2LastSuccessfulTime, &last));
#endif
    t = tm(c);
    double end = cp + h, tol = 2e-5 * (1 + absd(end));
    CHECK(last == t, "the last successful time is the time of the instance");
    CHECK(t >= before, "time does not run backwards");
    CHECK(t <= end + tol, "the step does not lead beyond its end");
    CHECK(t + STEP > end - tol, "the step leads up to its end");
    return end;
}

int main(void) {
#ifdef VP_EVENTMODE
    inst c = mk(CSE);
#else
    inst c = mk(CS);
#endif
    CHECK(c != NULL, "instantiated");
#ifdef VP_MODEL_BouncingBall
    CHECK_OK(set1(c, 1, 1));
#endif
#ifdef VP_T0SYM
    double t0 = in_dyadic(12, 2);
#else
    double t0 = VP_T0;
#endif
#ifdef VP_MODEL_Stair
    ASSUME(t0 + (VP_N + 2) * STEP < 1);    /* the scheduled events are the subject of P18 */
#endif
    CHECK_OK(a_enter_init_stop(c, t0, VP_STOP, t0 + (VP_N + 2) * STEP));
    CHECK_OK(a_exit_init(c));
#ifdef VP_EVENTMODE
    CHECK_OK(fmi3EnterStepMode(c));
#endif
    CHECK(tm(c) == t0, "the simulation starts at the start time");
    double h = in_f64();
    ASSUME(h > 0 && h <= VP_N * STEP);
#ifdef VP_GRID
    ASSUME(h == VP_GRID * STEP);
#endif
    double end = step(c, t0, h);
#ifdef VP_TWICE
    end = step(c, end, VP_TWICE);
#endif
    (void)end;
    REACH("stepped");
    return 0;
}
