/* P33/P34: one importer function forwards to the FMU, with and without call logging.
 * VP_F: number of the function in fwd2.h/fwd3.h; VP_SPECIAL: functions with their own contract */
#define VP_FMT_ABSTRACT
#include "vp.h"
#if VP_V == 2
#include "FMI2.h"
#define FUNCS FMI2Functions
#define PFX "fmi2"
#define MEMBER_(f) fmi2 ## f
#else
#include "FMI3.h"
#define FUNCS FMI3Functions
#define PFX "fmi3"
#define MEMBER_(f) fmi3 ## f
#endif
#define MEMBER(f) MEMBER_(f)
#define STR_(x) #x
#define STR(x) STR_(x)
#include "fmt.h"
static unsigned char bytes[8];
#define COMPONENT ((void *)(bytes + 7))
#define SAME(a, b) ((a) == (b) || ((a) != (a) && (b) != (b)))
static FMIInstance *me;
static unsigned ncalls, nlogs;
static bool good;
static int ret;
static FMIStatus logged;
#ifndef VP_REPLAY
static int received(bool same) {
#else
static int received(int same) {
#endif
    ncalls++;
    good = same;
    return ret;
}
static void expect_text(const char *msg, const char *name) {
    unsigned n = 0;
    for (; name[n]; n++) CHECK(msg[n] == name[n], "the call is logged with its name");
    CHECK(msg[n] == '(', "the arguments follow the name");
    while (msg[n]) n++;
    CHECK(msg[n - 1] == ')', "the logged text is complete");
}
#if VP_V == 2
#define INTERFACES 1
#else
#define INTERFACES 2
#endif
#include "fwd.h"
static void on_log(FMIInstance *m, FMIStatus s, const char *msg) {
    nlogs++;
    logged = s;
    CHECK(m == me, "the log callback gets the instance");
    expect_text(msg, PFX STR(FN));
#if defined(VP_REPLAY) && VP_F == 0
    /* SetDebugLogging: a missing argument shows as a wrong number */
    char num[64];
    snprintf(num, sizeof num, "loggingOn=%d, nCategories=%zu,", (int)e1, e2);
    CHECK(strstr(msg, num), "the logged arguments are those of the call");
#endif
}
static bool eq(const char *a, const char *b) {
    int i = 0;
    for (; a[i] && a[i] == b[i]; i++);
    return a[i] == b[i];
}
/* state after a successful call */
static FMIState after(FMIState s, FMIInterfaceType t, bool eventMode) {
    const char *f = STR(FN);
    FMIState running = t == FMIModelExchange ? FMIEventModeState : t == FMICoSimulation ? FMIStepModeState : FMIClockActivationMode;
    if (eq(f, "EnterInitializationMode")) return FMIInitializationModeState;
    if (eq(f, "ExitInitializationMode")) return t == FMICoSimulation && eventMode ? FMIEventModeState : running;
    if (eq(f, "Terminate")) return FMITerminatedState;
    if (eq(f, "Reset")) return FMIInstantiatedState;
    if (eq(f, "EnterEventMode")) return FMIEventModeState;
    if (eq(f, "EnterContinuousTimeMode")) return FMIContinuousTimeModeState;
    if (eq(f, "EnterStepMode")) return FMIStepModeState;
    if (eq(f, "EnterConfigurationMode")) return s == FMIInstantiatedState ? FMIConfigurationModeState : FMIReconfigurationModeState;
    if (eq(f, "ExitConfigurationMode")) return s == FMIConfigurationModeState ? FMIInstantiatedState : running;
    return s;
}
int main(void) {
    FMIInstance in = { 0 };
    FUNCS fs = { 0 };
    me = &in;
    in.MEMBER(Functions) = &fs;
    in.component = COMPONENT;
    in.name = "m";
    in.fmiMajorVersion = (FMIMajorVersion)VP_V;
    in.interfaceType = (FMIInterfaceType)in_range(0, INTERFACES);
    in.logMessageBufferSize = 1024;
    in.logMessageBuffer = calloc(1024, 1);
    ASSUME(in.logMessageBuffer);
    fs.MEMBER(FN) = recorder;
    FMIState state = (FMIState)(1u << in_range(0, 9));
    bool ev = in_bool();
#if VP_V == 3
    fs.eventModeUsed = ev;
    /* only called where the standard allows it */
    if (eq(STR(FN), "ExitConfigurationMode")) ASSUME(state == FMIConfigurationModeState || state == FMIReconfigurationModeState);
#else
    ev = false;
#endif
    ret = (int)in_range(0, VP_V == 2 ? 5 : 4);
    arguments();
    for (int l = 1; l >= 0; l--) {
        ncalls = nlogs = 0; good = false;
        in.state = state;
        in.logFunctionCall = l ? on_log : NULL;
        FMIStatus s = forward(&in);
        CHECK(ncalls == 1, "the function of the FMU is called exactly once");
        CHECK(good, "the arguments are passed on unchanged");
        CHECK((int)s == ret, "the status of the FMU is returned");
        CHECK(nlogs == (unsigned)l, "the call is logged exactly once if logging is enabled");
        if (l) CHECK((int)logged == ret, "the status is logged");
        if (ret <= 1) CHECK(in.state == after(state, in.interfaceType, ev), "the state is tracked");
    }
    CHECK(in.component == COMPONENT && in.MEMBER(Functions) == &fs, "the instance keeps its FMU");
    free(in.logMessageBuffer);
    REACH("forwarded");
    return 0;
}
