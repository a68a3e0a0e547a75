/* P35: intermediate update callback during one step of any size */
#include "vars.h"
static int env, calls;
static double times[VP_N + 2];
static bool flags = true, envs = true, current = true;
static struct view seen[VP_N + 2];
static inst self;
static void update(fmi3InstanceEnvironment e, fmi3Float64 t, fmi3Boolean set, fmi3Boolean get, fmi3Boolean fin, fmi3Boolean can, fmi3Boolean *req, fmi3Float64 *rt) {
    double now = -1;
    *req = false; *rt = 0;
    envs = envs & (e == &env);
    flags = flags & !set & get & fin & !can;
    CHECK_OK(get1(self, 0, &now));
    current = current & (now == t);
    if (calls <= VP_N) {
        times[calls] = t;
        observe(self, &seen[calls]);
    }
    calls++;
}
int main(void) {
#ifndef VP_EVENTMODE
#define VP_EVENTMODE 0
#endif
    self = fmi3InstantiateCoSimulation("m", INSTANTIATION_TOKEN, RESOURCES, false, false, VP_EVENTMODE, false, NULL, 0, &env, NULL, VP_CALLBACK ? update : NULL);
    inst d = mk(CS);
    CHECK(self && d, "instantiated");
#ifdef VP_FALL    /* contact within the step */
    double y = in_f64();
    ASSUME(y > 0 && y < VP_FALL * STEP);
    CHECK_OK(set1(self, 1, y)); CHECK_OK(set1(self, 3, -1));
    CHECK_OK(set1(d, 1, y)); CHECK_OK(set1(d, 3, -1));
#endif
    CHECK_OK(a_enter_init(self, 0)); CHECK_OK(a_exit_init(self));
#if VP_EVENTMODE
    CHECK_OK(fmi3EnterStepMode(self));
#endif
    CHECK_OK(a_enter_init(d, 0)); CHECK_OK(a_exit_init(d));
    CHECK(calls == 0, "not called outside of a step");
    double h = in_f64(), end = 0;
    ASSUME(h > 0 && h <= VP_N * STEP);
#ifdef VP_FIXED
    ASSUME(h == VP_FIXED * STEP); h = VP_FIXED * STEP;
#endif
    CHECK_OK(a_dostep(self, 0, h));
    CHECK_OK(get1(self, 0, &end));
#if VP_CALLBACK
    CHECK(envs, "environment of the instance");
    CHECK(flags, "documented flags");
    CHECK(current, "time of the model");
    CHECK(calls <= VP_N + 1, "not more calls than internal steps");
    for (int i = 0; i < VP_N; i++) if (i < calls) {
        CHECK(times[i] > i * STEP + 0.5 * STEP && times[i] < i * STEP + 1.5 * STEP, "one call per internal step, in order");
    }
    CHECK(calls == 0 ? end == 0 : times[calls - 1] == end, "the last call is at the end of the step");
#if defined(VP_FIXED) && !defined(VP_MODEL_Roberts)
    for (int i = 0; i < VP_FIXED; i++) {
        struct view o;
        CHECK_OK(a_dostep(d, i * STEP, STEP));
        observe(d, &o);
#if defined(VP_EVENT)    /* the event may be handled after the callback */
        CHECK(calls == VP_FIXED, "one call for each internal step, events or not");
#else
        views_agree(&o, &seen[i], NONE);
#endif
    }
#endif
#else
    CHECK(calls == 0, "no callback, no call");
#endif
    REACH("stepped");
    return 0;
}
