/* P39: creating an importer instance, loading and instantiating an FMU through it, freeing it.
 * VP_V: FMI version; VP_T: interface type; VP_LOG: with callbacks */
#define VP_FMT_ABSTRACT
#include "vp.h"
#if VP_V == 2
#include "FMI2.h"
#include "sym2.h"
#define T(m) (m)->fmi2Functions
#define MEMBER(f) fmi2 ## f
#define PFX "fmi2"
#else
#include "FMI3.h"
#include "sym3.h"
#define T(m) (m)->fmi3Functions
#define MEMBER(f) fmi3 ## f
#define PFX "fmi3"
#endif
#include "fmt.h"
static unsigned char lib, comp;
static unsigned opens, closes, lookups, frees, instantiated, errors, logs;
static unsigned missing;            /* number of the lookup that fails */
static bool lib_missing, inst_fails;
static FMIInstance *me;
static bool eq(const char *a, const char *b) {
    int i = 0;
    for (; a[i] && a[i] == b[i]; i++);
    return a[i] == b[i];
}
#define TOKEN "tok"
#define RES "res"
static bool visible, logging;
#if VP_V == 2
static fmi2Component instantiate(fmi2String name, fmi2Type t, fmi2String guid, fmi2String res, const fmi2CallbackFunctions *f, fmi2Boolean vis, fmi2Boolean log) {
    instantiated++;
    CHECK(eq(name, "m") && t == (fmi2Type)VP_T && eq(guid, TOKEN) && eq(res, RES) && !vis == !visible && !log == !logging, "instantiation is forwarded unchanged");
    CHECK(f && f->logger && f->allocateMemory && f->freeMemory && f->componentEnvironment == (void *)me, "callbacks are given");
    return inst_fails ? NULL : &comp;
}
static void free_it(fmi2Component c) { CHECK(c == &comp, "the FMU's instance is freed"); frees++; }
#else
static fmi3Instance instantiate_me(fmi3String name, fmi3String token, fmi3String res, fmi3Boolean vis, fmi3Boolean log, fmi3InstanceEnvironment env, fmi3LogMessageCallback lm) {
    instantiated++;
    CHECK(VP_T == 0 && eq(name, "m") && eq(token, TOKEN) && eq(res, RES) && vis == visible && log == logging, "instantiation is forwarded unchanged");
    CHECK(env == (void *)me && (lm != NULL) == VP_LOG, "callbacks are given");
    return inst_fails ? NULL : &comp;
}
static fmi3ValueReference req[2];
static void on_update(fmi3InstanceEnvironment e, fmi3Float64 t, fmi3Boolean a, fmi3Boolean b, fmi3Boolean c, fmi3Boolean d, fmi3Boolean *f, fmi3Float64 *g) { (void)e; (void)t; (void)a; (void)b; (void)c; (void)d; (void)f; (void)g; }
static void on_clock(fmi3InstanceEnvironment e) { (void)e; }
static void on_lock(void) {}
static void on_unlock(void) {}
static bool evmode, early;
static fmi3Instance instantiate_cs(fmi3String name, fmi3String token, fmi3String res, fmi3Boolean vis, fmi3Boolean log, fmi3Boolean em, fmi3Boolean er,
                                   const fmi3ValueReference r[], size_t nr, fmi3InstanceEnvironment env, fmi3LogMessageCallback lm, fmi3IntermediateUpdateCallback iu) {
    instantiated++;
    CHECK(VP_T == 1 && eq(name, "m") && eq(token, TOKEN) && eq(res, RES) && vis == visible && log == logging, "instantiation is forwarded unchanged");
    CHECK(em == evmode && er == early && r == req && nr == 2 && iu == on_update, "co-simulation arguments are forwarded unchanged");
    CHECK(env == (void *)me && (lm != NULL) == VP_LOG, "callbacks are given");
    return inst_fails ? NULL : &comp;
}
static fmi3Instance instantiate_se(fmi3String name, fmi3String token, fmi3String res, fmi3Boolean vis, fmi3Boolean log, fmi3InstanceEnvironment env, fmi3LogMessageCallback lm,
                                   fmi3ClockUpdateCallback cu, fmi3LockPreemptionCallback lp, fmi3UnlockPreemptionCallback up) {
    instantiated++;
    CHECK(VP_T == 2 && eq(name, "m") && eq(token, TOKEN) && eq(res, RES) && vis == visible && log == logging, "instantiation is forwarded unchanged");
    CHECK(cu == on_clock && lp == on_lock && up == on_unlock, "scheduled execution callbacks are forwarded unchanged");
    CHECK(env == (void *)me && (lm != NULL) == VP_LOG, "callbacks are given");
    return inst_fails ? NULL : &comp;
}
static void free_it(fmi3Instance c) { CHECK(c == &comp, "the FMU's instance is freed"); frees++; }
#endif
static const char *version(void) { return "ver"; }
static const char *platform(void) { return "plat"; }
void *vp_dlopen(const char *path, int flags) {
    (void)flags;
    opens++;
    CHECK(eq(path, "lib.so"), "the library given is loaded");
    return lib_missing ? NULL : &lib;
}
void *vp_dlsym(void *handle, const char *name) {
    CHECK(handle == &lib, "symbols are looked up in the library");
    if (lookups++ == missing) return NULL;
#if VP_V == 2
    if (eq(name, "fmi2Instantiate")) return (void *)instantiate;
    if (eq(name, "fmi2FreeInstance")) return (void *)free_it;
    if (eq(name, "fmi2GetTypesPlatform")) return (void *)platform;
    if (eq(name, "fmi2GetVersion")) return (void *)version;
#else
    if (eq(name, "fmi3InstantiateModelExchange")) return (void *)instantiate_me;
    if (eq(name, "fmi3InstantiateCoSimulation")) return (void *)instantiate_cs;
    if (eq(name, "fmi3InstantiateScheduledExecution")) return (void *)instantiate_se;
    if (eq(name, "fmi3FreeInstance")) return (void *)free_it;
    if (eq(name, "fmi3GetVersion")) return (void *)version;
#endif
    return (void *)name;        /* other symbols are only compared */
}
int vp_dlclose(void *handle) {
    CHECK(handle == &lib && opens == closes + 1, "the library is unloaded once");
    closes++;
    return 0;
}
static void on_message(FMIInstance *m, FMIStatus s, const char *cat, const char *msg) { (void)cat; (void)msg; CHECK(m == me && s >= FMIError, "the missing symbol is reported"); errors++; }
static void on_call(FMIInstance *m, FMIStatus s, const char *msg) { (void)s; (void)msg; CHECK(m == me, "the log callback gets the instance"); logs++; }
static void quiet(const char *m, va_list a) { (void)m; (void)a; }
/* the address of the symbol of that name */
static bool is(void *p, const char *name) { return p == vp_dlsym(&lib, name) || (p && p != (void *)version && p != (void *)platform && p != (void *)free_it && eq((const char *)p, name)); }
int main(void) {
    lib_missing = in_bool();
    inst_fails = in_bool();
#ifdef VP_COMPLETE
    missing = 1000;
#else
    missing = in_u32();
#endif
    visible = in_bool(); logging = in_bool();
    logErrorMessage = quiet;
    FMIInstance *m = me = FMICreateInstance("m", VP_LOG ? on_message : NULL, VP_LOG ? on_call : NULL);
    CHECK(m && m->name && eq(m->name, "m") && m->name != NULL && m->logMessageBuffer && !m->libraryHandle && m->status == FMIOK, "instance is created");
    FMIStatus s = FMILoadPlatformBinary(m, "lib.so");
    CHECK((s == FMIOK) == !lib_missing, "a missing library is reported");
    CHECK(opens == 1, "the library is loaded once");
    if (lib_missing) {
        REACH("no library");
    } else {
#if VP_V == 2
        s = FMI2Instantiate(m, RES, (fmi2Type)VP_T, TOKEN, visible, logging);
#elif VP_T == 0
        s = FMI3InstantiateModelExchange(m, TOKEN, RES, visible, logging);
#elif VP_T == 1
        evmode = in_bool(); early = in_bool();
        s = FMI3InstantiateCoSimulation(m, TOKEN, RES, visible, logging, evmode, early, req, 2, on_update);
#else
        s = FMI3InstantiateScheduledExecution(m, TOKEN, RES, visible, logging, NULL, NULL, on_clock, on_lock, on_unlock);
#endif
        if (missing < lookups) {
            CHECK(s != FMIOK, "a missing function is reported");
            CHECK(!instantiated, "nothing is instantiated in an incomplete library");
#ifndef VP_COMPLETE
            REACH("symbol missing");
#endif
        } else {
            CHECK(instantiated == 1, "the FMU is instantiated once");
            CHECK((s == FMIOK) == !inst_fails, "failed instantiation is reported");
        }
        if (s == FMIOK) {
            CHECK(m->component == &comp && m->state == FMIInstantiatedState && m->interfaceType == (FMIInterfaceType)VP_T && m->fmiMajorVersion == (FMIMajorVersion)VP_V, "the instance is set up");
#ifdef VP_COMPLETE
            missing = 1000;
#define X(f) CHECK(T(m)->MEMBER(f) && is((void *)T(m)->MEMBER(f), PFX #f), "every FMI function is available: " #f);
            SYMS_COMMON(X)
#if VP_V == 2 && VP_T == 0
            SYMS_ME(X)
#elif VP_V == 2
            SYMS_CS(X)
#endif
#endif
#if VP_V == 2
            CHECK(eq(FMI2GetVersion(m), "ver") && eq(FMI2GetTypesPlatform(m), "plat"), "version and platform are those of the FMU");
            FMI2FreeInstance(m);
#else
            CHECK(eq(FMI3GetVersion(m), "ver"), "the version is that of the FMU");
            CHECK(FMI3FreeInstance(m) == FMIOK, "freed");
#endif
            CHECK(frees == 1, "the FMU's instance is freed once");
            REACH("instantiated");
        }
    }
    FMIFreeInstance(m);
    FMIFreeInstance(NULL);
    CHECK(closes == (lib_missing ? 0 : 1), "the library is unloaded exactly once");
    REACH("freed");
    return 0;
}
