/* P20: every output of the feedthrough model equals its input. VP_KIND, VP_MODE, VP_BETWEEN: what happens between
 * setting and reading (0 nothing, 1 the other outputs were read before, 2 step or event update) */
#include "vars.h"
static void between(inst c) {
    struct einfo i; (void)i; (void)c;
#if VP_BETWEEN == 2
    if (VP_KIND == CS) CHECK_OK(a_dostep(c, 0, STEP));
    else if (VP_MODE == M_EVENT) CHECK_OK(a_event(c, &i));
#endif
}
int main(void) {
    inst c = mk(VP_KIND);
    CHECK(c != NULL, "instantiated");
    to_mode(c, VP_KIND, VP_MODE);
    struct view o;
#if VP_BETWEEN == 1
    observe(c, &o);
#endif
    struct val s[35];
#define V(T, vr, n, acc) if (ON(T_##T) && mode_ok(A_##acc, T_##T, VP_KIND, VP_MODE)) { if (limited(T_##T, vr)) concrete(&s[vr]); else sym(&s[vr], T_##T, n); CHECK_OK(set_##T(c, vr, &s[vr], n)); }
    VARS(V)
#undef V
    between(c);
    /* the output is read first, so that no other read brings it up to date */
#define V(T, vr, n, acc) if (ON(T_##T) && vr > 0 && A_##acc == A_RO && mode_ok(var_access(T_##T, vr - 1), T_##T, VP_KIND, VP_MODE)) { CHECK(get_##T(c, vr, &o.v##vr, n) == S_OK, "output read"); CHECK(eq_##T(&o.v##vr, &s[vr - 1], n), "output " #vr " equals its input"); }
    VARS(V)
#undef V
    REACH("read");
    return 0;
}
