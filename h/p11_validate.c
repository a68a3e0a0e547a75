/* P11: a step with an unacceptable communication point, step size or end is refused and changes nothing */
#include "vars.h"
static double absd(double x) { return x < 0 ? -x : x; }

int main(void) {
    inst c = mk(CS);
    CHECK(c != NULL, "instantiated");
    bool stopdef = in_bool();
    double stop = in_f64(), cp = in_f64(), h = in_f64();
    ASSUME(vp_finite(stop));
    CHECK_OK(a_enter_init_stop(c, VP_T0, stopdef, stop));
    CHECK_OK(a_exit_init(c));
    double expected = VP_T0;
    (void)expected;
    struct view o1, o2;
    observe(c, &o1);
    /* clear cases only, between them the documented tolerance decides */
    double tol = 4e-5 * (1 + absd(expected));
    bool wrongpoint = !(absd(cp - expected) <= tol), wrongsize = !(h > 0) || !vp_finite(h);
    double end = expected + h;
    bool beyond = stopdef && end > stop && absd(end - stop) > 4e-5 * (1 + absd(stop) + absd(end));
#if VP_WRONG == 0
    ASSUME(wrongpoint);
#elif VP_WRONG == 1
    ASSUME(wrongsize);
#else
    ASSUME(cp == expected && beyond && h > 0 && h < 1e6);
#endif
    (void)wrongpoint; (void)wrongsize; (void)beyond;
    CHECK(a_dostep(c, cp, h) == S_ERROR, "an illegal step is refused");
    observe(c, &o2);
    views_agree(&o1, &o2, NONE);
    REACH("refused");
    return 0;
}
