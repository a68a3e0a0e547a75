/* P28: events inside a step of three internal steps, for each configuration of event mode (VP_EV) and early return (VP_EARLY) */
#include "vars.h"
static double absd(double x) { return x < 0 ? -x : x; }
int main(void) {
    inst c = fmi3InstantiateCoSimulation("m", INSTANTIATION_TOKEN, RESOURCES, false, false, VP_EV, VP_EARLY, NULL, 0, NULL, NULL, NULL);
    CHECK(c != NULL, "instantiated");
    int at = 0;         /* internal step of the event, 0: none */
    const int N = VP_N;
    double h[VP_N + 1];
#ifdef VP_MODEL_BouncingBall
    h[0] = in_f64();
    ASSUME(h[0] > 0 && h[0] < (VP_N + 1) * STEP);
    CHECK_OK(set1(c, 1, h[0])); CHECK_OK(set1(c, 3, -1)); CHECK_OK(set1(c, 5, 0)); CHECK_OK(set1(c, 6, 0.5));
    for (int k = 1; k <= N; k++) { h[k] = h[k - 1] + STEP * -1.0; if (!at && h[k] <= 0) at = k; }
#ifdef VP_AT
    ASSUME(at == VP_AT); at = VP_AT;
#endif
#else
    (void)h;
    at = N >= 5 ? 5 : 0;
#endif
    CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_exit_init(c));
#if VP_EV
    CHECK_OK(fmi3EnterStepMode(c));
#endif
    bool ev = true, te = true, er = true; double last = -1, t = -1;
    CHECK_OK(fmi3DoStep(c, 0, N * STEP, true, &ev, &te, &er, &last));
    CHECK_OK(get1(c, 0, &t));
    CHECK(last == t, "the last successful time is the current time");
    CHECK(!te, "no termination");
#if !VP_EV
    CHECK(!ev, "without event mode events are not reported");
#endif
    int stop = N;
#if VP_EARLY
    if (at) stop = at;
    if (at != N) CHECK(er == (at != 0), "returns early exactly if there is an event");
#else
    CHECK(!er, "does not return early");
#endif
    CHECK(absd(t - stop * STEP) < 1e-9, "returns at the event or at the end");
#if VP_EV && VP_EARLY
    CHECK(ev == (at != 0), "the event is reported");
#elif VP_EV
    CHECK(ev == (at == N), "an event at the end of the step is reported");
#endif
    bool handled = at && !(VP_EV && at == stop);
#ifdef VP_MODEL_BouncingBall
    double x, v;
    CHECK_OK(get1(c, 1, &x)); CHECK_OK(get1(c, 3, &v));
    CHECK(v == (handled ? 0.5 : -1), "the event is handled by the step exactly if it is not left to event mode");
    if (!handled) CHECK(x == h[stop], "an event that is reported has not been handled");
#elif defined(VP_MODEL_Stair)
    int32_t n = 0;
    CHECK_OK(geti1(c, 1, &n));
    CHECK(n == 1 + handled, "the event is handled by the step exactly if it is not left to event mode");
#endif
#if VP_EV
    if (ev) {
        struct einfo i;
        CHECK_OK(fmi3EnterEventMode(c)); CHECK_OK(a_event(c, &i)); CHECK_OK(fmi3EnterStepMode(c));
    }
#endif
    (void)handled;
    CHECK_OK(fmi3DoStep(c, VP_EARLY ? t : N * STEP, STEP, true, &ev, &te, &er, &last));
#ifdef VP_MODEL_BouncingBall
    if (at) CHECK(!ev && !er, "the same event is not reported twice");
#endif
    REACH("stepped");
    return 0;
}
