/* P18: stair counter. VP_WHAT: 0 Model Exchange event at any time, 1 sequence of Model Exchange events,
 * 2 co-simulation over VP_STEPS internal steps, 3 co-simulation with event mode, 4 start values */
#include "vars.h"
static double absd(double x) { return x < 0 ? -x : x; }
static int32_t counter(inst c) { int32_t v = -99; CHECK_OK(geti1(c, 1, &v)); return v; }

int main(void) {
#if VP_WHAT == 4
    inst c = mk(VP_KIND);
    CHECK(c != NULL, "instantiated");
#if VP_INITMODE
    CHECK_OK(a_enter_init(c, 0));
#else
    (void)absd;
#endif
    int32_t v = in_i32();
    int st = seti1(c, 1, v);
    CHECK((st == S_OK) == (v <= 10), "start values up to the limit are accepted, others refused");
    CHECK(st == S_OK || st == S_ERROR, "refused with an error");
    REACH("set");
#elif VP_WHAT <= 1
    inst c = mk(ME);
    CHECK(c != NULL, "instantiated");
    int32_t n = in_i32();
    ASSUME(n < 10);
#ifdef VP_COUNTER
    ASSUME(n == VP_COUNTER);
#endif
    CHECK_OK(seti1(c, 1, n));
    CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_exit_init(c));
    struct einfo i = {0};
#if VP_WHAT == 0
    double t = in_f64();
    ASSUME(vp_finite(t) && (t == 1 || absd(t - 1) > 1e-4 * (1 + absd(t))));
    CHECK_OK(a_settime(c, t));
    CHECK_OK(a_event(c, &i));
    int32_t want = n + (t == 1);
    CHECK(counter(c) == want, "the counter increases exactly at the scheduled event");
    CHECK(i.term == (want >= 10), "termination is requested exactly at the limit");
    CHECK(i.nextDefined && i.next == (t == 1 ? 2 : 1), "the next event is one second later");
    CHECK(!i.need && !i.values && !i.nominals, "nothing else is reported");
    REACH("event");
#else
    for (int k = 1; k <= VP_EVENTS && n < 10; k++) {
        /* between the events nothing happens */
        CHECK_OK(a_settime(c, k - 0.5));
        CHECK_OK(a_event(c, &i));
        CHECK(counter(c) == n && i.nextDefined && i.next == k, "no count between the events");
        CHECK_OK(a_settime(c, k));
        CHECK_OK(a_event(c, &i));
        n++;
        CHECK(counter(c) == n, "one count per event");
        CHECK(i.nextDefined && i.next == k + 1, "the next event is one second later");
        CHECK(i.term == (n >= 10), "termination is requested exactly at the limit");
    }
    REACH("events");
#endif
#else
    inst c = mk(VP_WHAT == 2 ? CS : CSE);
    CHECK(c != NULL, "instantiated");
    int32_t n = in_i32();
    ASSUME(n < 10);
    CHECK_OK(seti1(c, 1, n));
    CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_exit_init(c));
    int k = 0;      /* internal steps done */
    bool term = false;
    double t = 0;
#if VP_WHAT == 3
    CHECK_OK(fmi3EnterStepMode(c));
#endif
    for (int s = 0; s < VP_CALLS && !term; s++) {
        int due = 0;
        double end = (k + VP_STEPS) * STEP;
#if FMI_VERSION == 3
        bool ev = false, te = false, er = false; double last = 0;
        CHECK_OK(fmi3DoStep(c, k * STEP, VP_STEPS * STEP, true, &ev, &te, &er, &last));
#else
        fmi2Boolean te = 0;
        int st = fmi2DoStep(c, k * STEP, VP_STEPS * STEP, true);
        CHECK(st == S_OK || st == S_DISCARD, "a legal step is done");
        CHECK_OK(fmi2GetBooleanStatus(c, fmi2Terminated, &te));
        CHECK((st == S_DISCARD) == (te != 0), "a termination request discards the rest of the step");
#endif
        for (int j = 0; j < VP_STEPS; j++) { k++; if (k % 5 == 0) due++; }
#if VP_WHAT == 2
        if (n + due >= 10) { n = 10; term = true; } else n += due;
        CHECK(counter(c) == n, "one count per second");
        CHECK((te != 0) == term, "termination is requested exactly at the limit");
        CHECK_OK(get1(c, 0, &t));
        CHECK(term ? t <= end + 1e-4 : absd(t - end) < 1e-4, "time advances");
#else
        CHECK(counter(c) == n && !te, "event mode leaves the counting to the event update");
        CHECK(ev == (k % 5 == 0), "an event at the end of the step is reported");
        if (ev) {
            struct einfo i = {0};
            CHECK_OK(fmi3EnterEventMode(c));
            CHECK_OK(a_event(c, &i));
            n++; term = n >= 10;
            CHECK(counter(c) == n && i.term == term, "the event counts");
            CHECK(i.nextDefined && i.next == k / 5 + 1, "the next event is one second later");
            CHECK_OK(fmi3EnterStepMode(c));
        }
        (void)t; (void)end; (void)due;
#endif
    }
    REACH("stepped");
#endif
    return 0;
}
