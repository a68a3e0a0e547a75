/* P37: FMI 2 status queries after VP_CALLS steps */
#include "vars.h"
int main(void) {
    inst c = mk(CS);
    CHECK(c != NULL, "instantiated");
#ifdef VP_MODEL_Stair
    CHECK_OK(seti1(c, 1, VP_COUNTER));
#endif
    CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_exit_init(c));
    double t = 0;
    bool term = false;
    for (int i = 0; i < VP_CALLS; i++) {
        int st = a_dostep(c, i * VP_N * STEP, VP_N * STEP);
        CHECK(st == S_OK || (st == S_DISCARD && i == VP_CALLS - 1), "steps succeed");
        term = st == S_DISCARD;
    }
#ifdef VP_TERM
    CHECK(term == VP_TERM, "the last step asks for termination");
#endif
    CHECK_OK(get1(c, 0, &t));
    struct view o1, o2;
    observe(c, &o1);
    int kind = in_i32(), q = (int)in_range(0, 4), st = -1;
    bool supported = (q == 1 && kind == fmi2LastSuccessfulTime) || (q == 3 && kind == fmi2Terminated);
    fmi2Status s = 99; fmi2Real r = -7; fmi2Integer i = -7; fmi2Boolean b = -7; fmi2String str = "x", keep = str;
    switch (q) {
    case 0: st = fmi2GetStatus(c, kind, &s); break;
    case 1: st = fmi2GetRealStatus(c, kind, &r); break;
    case 2: st = fmi2GetIntegerStatus(c, kind, &i); break;
    case 3: st = fmi2GetBooleanStatus(c, kind, &b); break;
    case 4: st = fmi2GetStringStatus(c, kind, &str); break;
    }
    CHECK(st == (supported ? S_OK : S_DISCARD), "only the supported queries are answered");
    CHECK(q == 1 && supported ? r == t : r == -7, "last successful time");
    CHECK(q == 3 && supported ? b == (term ? fmi2True : fmi2False) : b == -7, "terminated");
    CHECK(s == 99 && i == -7 && str == keep, "other outputs are untouched");
    observe(c, &o2);
    views_agree(&o1, &o2, NONE);
#ifndef VP_MODEL_Stair
    if (!term) CHECK_OK(a_dostep(c, VP_CALLS * VP_N * STEP, STEP));
#endif
    REACH("queried");
    return 0;
}
