/* P04/P05: a set either succeeds, is read back exactly and touches nothing else, or is refused and touches nothing.
 * A second instance with the same history, except for the access under test, is the reference. */
#include "vars.h"

int main(void) {
    const int kind = VP_KIND;
    inst c = mk(kind), d = mk(kind);
    CHECK(c && d, "instantiated");
#ifdef VP_DAE
    CHECK_OK(a_setb1(c, 1, true)); CHECK_OK(a_setb1(d, 1, true));
#endif
#ifdef VP_SYMVALS
    symbolic_values(c, d);
#endif
    to_mode(c, kind, VP_MODE);
    to_mode(d, kind, VP_MODE);

#ifdef VP_TYPE
    int t = VP_TYPE;
#else
    int t = (int)in_range(0, NTYPES - 1);
#endif
    ASSUME(ON(t));
#ifdef VP_VR
    VR vr = VP_VR;
#else
    VR vr = in_u32();
#endif
    ASSUME(vr < NONE);
    size_t n = var_size(t, vr);
    int acc = var_access(t, vr);
    ASSUME(acc != A_SKIP);
    struct val x = {0}, y = {0};
    sym(&x, t, t == T_F64 ? 9 : 1);
    bool allowed = n > 0 && mode_ok(acc, t, kind, VP_MODE) && legal_value(t, vr, &x);
    size_t nv = n ? n : 1;

#if defined(VP_REFUSED)
    if (in_bool()) {
        ASSUME(!allowed);
        CHECK(set_any(c, t, vr, &x, nv) == S_ERROR, "a set that is not allowed is refused");
    } else {
        ASSUME(n == 0);
        CHECK(get_any(c, t, vr, &y, nv) == S_ERROR, "reading a variable that does not exist is refused");
    }
    VR except = NONE;
#else
    ASSUME(allowed && acc != A_STRUCT);
    CHECK(set_any(c, t, vr, &x, nv) == S_OK, "an allowed set succeeds");
#if FMI_VERSION == 2
    if (VP_MODE == M_INST) CHECK_OK(a_enter_init(c, 0));
#endif
    CHECK(get_any(c, t, vr, &y, nv) == S_OK && eq_any(t, &x, &y, n), "the variable has the value that was set");
    VR except = vr;
#endif
#if FMI_VERSION == 2
    if (VP_MODE == M_INST) CHECK_OK(a_enter_init(d, 0));
#endif
    struct view o1, o2;
    observe(c, &o1);
    observe(d, &o2);
    views_agree(&o1, &o2, except);
    REACH("compared");
    return 0;
}
