/* P36, P38: instance, saved states and messages with memory that may be refused; everything is released exactly once */
#include "api.h"
#include "alloc.h"

static int logged;
#if FMI_VERSION == 3
static void on_log(fmi3InstanceEnvironment e, fmi3Status s, fmi3String c, fmi3String m) { (void)e; (void)s; (void)c; CHECK(m != NULL, "a message has a text"); logged++; }
#define LOC "r/"
static inst mk_it(const char *token) {
    return VP_KIND == ME ? fmi3InstantiateModelExchange("m", token, LOC, false, true, NULL, on_log)
         : VP_KIND == SE ? fmi3InstantiateScheduledExecution("m", token, LOC, false, true, NULL, on_log, api_clk, api_lock, api_lock)
                         : fmi3InstantiateCoSimulation("m", token, LOC, false, true, false, false, NULL, 0, NULL, on_log, NULL);
}
#else
static void on_log(fmi2ComponentEnvironment e, fmi2String i, fmi2Status s, fmi2String c, fmi2String m, ...) { (void)e; (void)i; (void)s; (void)c; CHECK(m != NULL, "a message has a text"); logged++; }
static const fmi2CallbackFunctions cbs = { on_log, NULL, NULL, NULL, NULL };
#define LOC "file:///r"
static inst mk_it(const char *token) { return fmi2Instantiate("m", VP_KIND == ME ? fmi2ModelExchange : fmi2CoSimulation, token, LOC, &cbs, false, true); }
#endif

int main(void) {
#if VP_WRONG
    {
        inst w = mk_it("wrong");
        CHECK(w == NULL && live == 0, "a refused instantiation leaves nothing behind");
        a_free(NULL);
        CHECK(live == 0, "freeing nothing releases nothing");
        REACH("wrong");
        return 0;
    }
#else
    inst c = mk_it(INSTANTIATION_TOKEN);
    if (refused) CHECK(c == NULL, "instantiation without memory is refused");
    else CHECK(c != NULL, "instantiated");
    if (!c) {
        CHECK(live == 0, "a refused instantiation leaves nothing behind");
#ifdef VP_FAIL
        REACH("refused");
#endif
        return 0;
    }
    fstate s = NULL, s2 = NULL;
    size_t n = 0;
    int r;
    if (VP_RUN) to_running(c, 0);
    /* two saved states, the first one saved twice */
    int k = refused;
    r = a_save(c, &s);
    if (refused == k) CHECK(r == 0 && s != NULL, "the state is saved");
    else CHECK(r >= 3 && s == NULL, "saving without memory is an error");
    if (s && r == 0 && in_bool()) {
        k = refused;
        r = a_save(c, &s);
        if (refused == k) CHECK(r == 0 && s != NULL, "the state is saved again");
        else CHECK(r >= 3 && s != NULL, "saving without memory is an error and keeps the old state");
    }
    if (r == 0) {
        CHECK_OK(a_size(c, s, &n));
        unsigned char *b = malloc(n);
        if (in_bool()) {
            CHECK_OK(a_ser(c, s, b, n));
            k = refused;
            r = a_deser(c, b, n, &s2);
            if (refused == k) CHECK(r == 0 && s2 != NULL, "the state is restored from bytes");
            else CHECK(r >= 3 && s2 == NULL, "restoring without memory is an error");
            if (r == 0) CHECK_OK(a_restore(c, s2));
            REACH("deserialized");
        }
        free(b);
    }
    /* an error that is logged */
    if (r == 0 && in_bool()) {
        double d; VR vr = 77;
        CHECK(a_getr(c, &vr, 1, &d, 1) >= 3, "an unknown variable is refused");
        CHECK(refused > k || logged > 0, "the error is logged");
    }
    if (in_bool()) { a_freestate(c, &s); a_freestate(c, &s2); a_free(c); }
    else {
        CHECK(a_freestate(c, &s2) == 0 && s2 == NULL, "a state is freed");
        CHECK(a_freestate(c, &s) == 0 && s == NULL, "a state is freed");
        CHECK(a_freestate(c, &s) == 0, "freeing no state is harmless");
        if (VP_RUN && r == 0) a_term(c);
        a_free(c);
    }
    CHECK(live == 0, "everything is released");
    REACH("freed");
    return 0;
#endif
}
