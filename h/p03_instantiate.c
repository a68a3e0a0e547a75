/* P03: instantiation with symbolic arguments; VP_TOKEN is the token found in the model description */
#include "start.h"

static const char token[] = VP_TOKEN;
#define N (sizeof(token) - 1)
static bool spec(const char *name, const char *tok) {
    if (!name || !name[0] || !tok) return false;
    for (size_t i = 0; i <= N; i++) if (tok[i] != token[i]) return false;
    return true;
}
#if FMI_VERSION == 3
static void logger(fmi3InstanceEnvironment e, fmi3Status s, fmi3String c, fmi3String m) { (void)e; (void)s; (void)c; (void)m; }
static void clk(fmi3InstanceEnvironment e) { (void)e; }
static void lock(void) {}
static void iu(fmi3InstanceEnvironment e, fmi3Float64 t, fmi3Boolean a, fmi3Boolean b, fmi3Boolean c, fmi3Boolean d, fmi3Boolean *r, fmi3Float64 *rt) { (void)e; (void)t; (void)a; (void)b; (void)c; (void)d; (void)r; (void)rt; }
#endif

int main(void) {
#ifdef VP_STARTVALUES
    inst c = mk(VP_KIND);
    CHECK(c != NULL, "instantiated");
#if FMI_VERSION == 2
    CHECK_OK(a_enter_init(c, 0));
    start_values(c);
#else
    start_values(c);
    CHECK_OK(a_enter_init(c, 0));
#endif
    REACH("start values");
#else
    char name[3], tok[N + 2];
    for (int i = 0; i < 2; i++) name[i] = (char)in_u8();
    for (size_t i = 0; i < N + 1; i++) tok[i] = (char)in_u8();
    name[2] = 0; tok[N + 1] = 0;
    const char *np = in_bool() ? name : NULL, *tp = in_bool() ? tok : NULL;
    bool visible = in_bool(), logging = in_bool(), haslog = in_bool();
    bool ok = spec(np, tp);
    int env;
    inst c;
#if FMI_VERSION == 3
    fmi3LogMessageCallback lg = haslog ? logger : NULL;
    const char *res = in_bool() ? "r/" : NULL;
#if VP_KIND == 0
    c = fmi3InstantiateModelExchange(np, tp, res, visible, logging, &env, lg);
#ifdef VP_MODEL_Clocks
    ok = false;
#endif
#elif VP_KIND == 3
    bool cb = in_bool();
    c = fmi3InstantiateScheduledExecution(np, tp, res, visible, logging, &env, lg, cb ? clk : NULL, cb ? lock : NULL, cb ? lock : NULL);
#ifndef VP_MODEL_Clocks
    ok = false;
#endif
#else
    bool ev = in_bool(), early = in_bool();
    c = fmi3InstantiateCoSimulation(np, tp, res, visible, logging, ev, early, NULL, 0, &env, lg, in_bool() ? iu : NULL);
#ifdef VP_MODEL_Clocks
    ok = false;
#endif
    if (ev && !HAS_EVENTS) ok = false;
#endif
#else
    fmi2CallbackFunctions cb = { haslog ? api_log : NULL, NULL, NULL, NULL, &env };
    bool hascb = in_bool();
    c = fmi2Instantiate(np, VP_KIND == 0 ? fmi2ModelExchange : fmi2CoSimulation, tp, in_bool() ? "file:///r" : NULL, hascb ? &cb : NULL, visible, logging);
    ok = ok && hascb && haslog;
#endif
    CHECK((c != NULL) == ok, "an instance is returned exactly for valid arguments");
    if (c) a_free(c);
    REACH("instantiated or refused");
#endif
    return 0;
}
