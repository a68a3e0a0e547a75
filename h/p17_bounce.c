/* P17: bouncing ball, the event condition and its handling. VP_WHAT: 0 Model Exchange event handling,
 * 1 event indicator, 2 co-simulation step, 3 co-simulation step with event mode */
#include "eq.h"
#define DROP 1e-9
/* documented handling of an event; returns whether the states change */
static bool bounce(double *h, double *v, double *g, double e) {
    if (!(*h <= 0 && *v < 0)) return false;
    *h = 0;
    *v = -*v * e;
    if (*v < 0.1) { *v = 0; *g = 0; }
    return true;
}
static void compare(inst c, bool hit, double h, double v, double g, double e) {
    double x;
    CHECK_OK(get1(c, 1, &x));
    if (hit) CHECK(x >= 0 && x <= DROP, "the ball is placed at the floor");
    else CHECK(same_f64(x, h), "the height is as in flight");
    CHECK_OK(get1(c, 3, &x)); CHECK(near(x, v), "velocity");
    CHECK_OK(get1(c, 5, &x)); CHECK(same_f64(x, g), "gravity");
    CHECK_OK(get1(c, 6, &x)); CHECK(same_f64(x, e), "restitution is unchanged");
    CHECK_OK(get1(c, 7, &x)); CHECK(x == 0.1, "minimum velocity is unchanged");
}

int main(void) {
#ifdef VP_V0
    double h = in_f64(), v = VP_V0, g = VP_G, e = VP_E;
#else
    double h = in_f64(), v = in_f64(), g = in_f64(), e = in_f64();
#endif
    ASSUME(vp_finite(h) && vp_finite(v) && vp_finite(g) && vp_finite(e));
#if VP_WHAT < 2
    inst c = mk(ME);
#else
    inst c = mk(VP_WHAT == 2 ? CS : CSE);
#endif
    CHECK(c != NULL, "instantiated");
    CHECK_OK(set1(c, 1, h)); CHECK_OK(set1(c, 3, v)); CHECK_OK(set1(c, 5, g)); CHECK_OK(set1(c, 6, e));
    CHECK_OK(a_enter_init(c, 0));
#ifdef VP_INITSET
    h = in_f64(); ASSUME(vp_finite(h));
    CHECK_OK(set1(c, 1, h));
#endif
    CHECK_OK(a_exit_init(c));
#if VP_WHAT == 0
    struct einfo i = { true, true, true, false, true, 0 };
    CHECK_OK(a_event(c, &i));
    bool hit = bounce(&h, &v, &g, e);
    CHECK(i.values == hit, "changed states are reported exactly if the ball bounced");
    CHECK(!i.need && !i.term && !i.nominals && !i.nextDefined, "nothing else is reported");
    compare(c, hit, h, v, g, e);
    REACH("updated");
#elif VP_WHAT == 1
    double z = 0, zz = 0, x[2] = { in_f64(), in_f64() };
    CHECK_OK(a_getz(c, &z, 1));
    CHECK((z > 0) == (h > 0), "the indicator has the sign of the height");
    CHECK(h > 1e-9 || h < -1e-9 ? z == h : (z <= 1e-9 && z >= -1e-9), "the indicator is the height");
    CHECK_OK(a_enter_ct(c));
    CHECK_OK(a_setx(c, x, 2));
    ASSUME(vp_finite(x[0]) && vp_finite(x[1]));
    CHECK_OK(a_getz(c, &zz, 1));
    CHECK((zz > 0) == (x[0] > 0), "the indicator follows the state");
    REACH("indicator");
#else
    double h1 = h + STEP * v, v1 = v + STEP * g;
    ASSUME(vp_finite(h1) && vp_finite(v1));
    bool crossing = (h > 0) != (h1 > 0), hit = false;
#if VP_WHAT == 2
    CHECK_OK(a_dostep(c, 0, STEP));
    if (crossing) hit = bounce(&h1, &v1, &g, e);
#else
    bool ev = !crossing, te = true, er = true; double last = -1;
    CHECK_OK(fmi3EnterStepMode(c));
    CHECK_OK(fmi3DoStep(c, 0, STEP, true, &ev, &te, &er, &last));
    CHECK(ev == crossing, "an event is reported exactly if the height crosses zero");
    CHECK(!te && !er, "nothing else is reported");
#endif
    compare(c, hit, h1, v1, g, e);
    REACH("stepped");
#endif
    return 0;
}
