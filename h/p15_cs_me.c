/* P15: a co-simulation step against an importer that integrates the Model Exchange interface */
#include "vars.h"
#ifndef VP_STEPS
#define VP_STEPS 2
#endif
static void update(inst c, struct einfo *e) {
    CHECK_OK(a_event(c, e));
    CHECK(!e->need, "one event iteration is enough");
}

int main(void) {
    inst c = mk(CS), d = mk(ME);
    CHECK(c && d, "instantiated");
#ifdef VP_V0
    double start = in_f64();
    CHECK_OK(set1(c, 1, start)); CHECK_OK(set1(d, 1, start));
    CHECK_OK(set1(c, 3, VP_V0)); CHECK_OK(set1(d, 3, VP_V0));
    CHECK_OK(set1(c, 6, VP_E)); CHECK_OK(set1(d, 6, VP_E));
#elif defined(VP_CONC)
    CHECK_OK(set1(c, 2, 0.5)); CHECK_OK(set1(d, 2, 0.5));
    CHECK_OK(set1(c, 4, 0.25)); CHECK_OK(set1(d, 4, 0.25));
#elif defined(VP_MODEL_Stair)
    CHECK_OK(seti1(c, 1, VP_COUNTER)); CHECK_OK(seti1(d, 1, VP_COUNTER));
#else
    symbolic_values(c, d);
#endif
    CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_exit_init(c));
    CHECK_OK(a_enter_init(d, 0)); CHECK_OK(a_exit_init(d));
#ifdef VP_MODEL_BouncingBall
    double h0; CHECK_OK(get1(c, 1, &h0)); ASSUME(h0 > 0);    /* starts above the floor */
#endif
#if FMI_VERSION == 3
    bool ev1, te1, er1; double last;
    CHECK_OK(fmi3DoStep(c, 0, VP_STEPS * STEP, true, &ev1, &te1, &er1, &last));
#else
    int st = fmi2DoStep(c, 0, VP_STEPS * STEP, true);
    bool te1 = st == fmi2Discard;
    CHECK(te1 || st == fmi2OK, "the step succeeds");
#endif
    double end;
    CHECK_OK(get1(c, 0, &end));
    struct einfo e = {0};
    double x[NX + 1], dx[NX + 1], z[NZ + 1], prez[NZ + 1];
    update(d, &e);
    CHECK_OK(a_enter_ct(d));
    CHECK_OK(a_getz(d, prez, NZ));
    int k = 0;
    for (; k < 24 && (k + 0.5) * STEP < end && !e.term; k++) {
        CHECK_OK(a_getx(d, x, NX));
        CHECK_OK(a_getdx(d, dx, NX));
        for (int i = 0; i < NX; i++) x[i] += STEP * dx[i];
        CHECK_OK(a_settime(d, (k + 1) * STEP));
        CHECK_OK(a_setx(d, x, NX));
        bool ev = false, te = false;
        CHECK_OK(a_completed(d, &ev, &te));
        CHECK_OK(a_getz(d, z, NZ));
        for (int i = 0; i < NZ; i++) ev = ev | ((prez[i] <= 0 && z[i] > 0) || (prez[i] > 0 && z[i] <= 0));
        for (int i = 0; i < NZ; i++) prez[i] = z[i];
        if (e.nextDefined && (k + 1) * STEP >= e.next) ev = true;
#ifdef VP_MODEL_Roberts
        ev = false;     /* its roots are indicators only, there is nothing to update */
#endif
        if (ev) {
            CHECK_OK(a_enter_event(d));
            update(d, &e);
            CHECK_OK(a_enter_ct(d));
            CHECK_OK(a_getz(d, prez, NZ));
        }
    }
    CHECK(te1 == e.term, "termination is requested alike");
    CHECK(te1 || k >= VP_STEPS, "the whole step is made");
    struct view o1, o2;
    observe(c, &o1); observe(d, &o2);
    views_agree(&o1, &o2, NONE);
    REACH("compared");
    return 0;
}
