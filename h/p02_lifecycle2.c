/* P02: FMI 2 call legality, same scheme as P01 */
#include "api.h"

enum { INST = 1, INIT = 2, EVENT = 4, CT = 8, STEPC = 16, TERM = 32, ANY = 63 };
#ifndef VP_KIND
#define VP_KIND 1
#endif
#ifndef VP_K
#define VP_K 2
#endif
#define NCALLS 42
#define GETM (INIT | EVENT | CT | STEPC | TERM)
#define SETM (INST | INIT | EVENT | STEPC)

static inst c;
static unsigned mode;
static double now;

static void call(unsigned f, bool null) {
    inst i = null ? NULL : c;
    int s = 0;
    unsigned legal = ANY, next = 0;
    int ok = S_OK;          /* status expected in a legal state */
    double d[8] = {0}; fstate st = NULL; size_t n = 0; fmi2Boolean b[4] = {0}; fmi2EventInfo ev; fmi2Status fs; fmi2Integer iv; fmi2String sv;
    switch (f) {
    case 0: legal = INST; s = fmi2SetupExperiment(i, false, 0, 0, false, 0); if (!null) now = 0; break;
    case 1: legal = INST; next = INIT; s = fmi2EnterInitializationMode(i); break;
    case 2: legal = INIT; next = VP_KIND == 0 ? EVENT : STEPC; s = fmi2ExitInitializationMode(i); break;
    case 3: legal = EVENT | CT | STEPC; next = TERM; s = fmi2Terminate(i); break;
    case 4: next = INST; s = fmi2Reset(i); break;
    case 5: s = fmi2SetDebugLogging(i, false, 0, NULL); break;
    case 6: legal = GETM; s = fmi2GetReal(i, NULL, 0, NULL); break;
    case 7: legal = GETM; s = fmi2GetInteger(i, NULL, 0, NULL); break;
    case 8: legal = GETM; s = fmi2GetBoolean(i, NULL, 0, NULL); break;
    case 9: legal = GETM; s = fmi2GetString(i, NULL, 0, NULL); break;
    case 10: legal = SETM | CT; s = fmi2SetReal(i, NULL, 0, NULL); break;
    case 11: legal = SETM; s = fmi2SetInteger(i, NULL, 0, NULL); break;
    case 12: legal = SETM; s = fmi2SetBoolean(i, NULL, 0, NULL); break;
    case 13: legal = SETM; s = fmi2SetString(i, NULL, 0, NULL); break;
    case 14: s = fmi2GetFMUstate(i, &st); if (st) free(st); break;
    case 15: s = fmi2SerializedFMUstateSize(i, NULL, &n); break;
    case 16: legal = GETM; s = fmi2GetDirectionalDerivative(i, NULL, 0, NULL, 0, NULL, NULL); break;
#if VP_KIND == 0
    case 17: legal = EVENT | CT; next = EVENT; s = fmi2EnterEventMode(i); break;
    case 18: legal = EVENT; s = fmi2NewDiscreteStates(i, &ev); break;
    case 19: legal = EVENT; next = CT; s = fmi2EnterContinuousTimeMode(i); break;
    case 20: legal = CT; s = fmi2CompletedIntegratorStep(i, true, &b[0], &b[1]); break;
    case 21: legal = EVENT | CT; s = fmi2SetTime(i, 0.5); break;
    case 22: legal = CT; d[0] = 1; d[1] = 2; s = fmi2SetContinuousStates(i, d, NX); break;
    case 23: legal = INIT | EVENT | CT | TERM; s = fmi2GetEventIndicators(i, d, NZ); break;
    case 24: legal = INIT | EVENT | CT | TERM; s = fmi2GetContinuousStates(i, d, NX); break;
    case 25: legal = EVENT | CT | TERM; s = fmi2GetDerivatives(i, d, NX); break;
    case 26: legal = INST | EVENT | CT | TERM; s = fmi2GetNominalsOfContinuousStates(i, d, NX); break;
#else
    case 27: legal = INST | INIT | STEPC; ok = S_ERROR; s = fmi2SetRealInputDerivatives(i, NULL, 0, NULL, NULL); break;
#ifdef VP_MODEL_BouncingBall
    case 28: legal = STEPC | TERM; s = fmi2GetRealOutputDerivatives(i, NULL, 0, NULL, NULL); break;
#else
    case 28: legal = STEPC | TERM; ok = S_ERROR; s = fmi2GetRealOutputDerivatives(i, NULL, 0, NULL, NULL); break;
#endif
    case 29: legal = STEPC; s = fmi2DoStep(i, now, STEP, true); if (s == S_OK) now = now + STEP; break;
    case 30: legal = 0; s = fmi2CancelStep(i); break;
    case 31: legal = STEPC | TERM; ok = S_DISCARD; s = fmi2GetStatus(i, fmi2DoStepStatus, &fs); break;
    case 32: legal = STEPC | TERM; s = fmi2GetRealStatus(i, fmi2LastSuccessfulTime, d); break;
    case 33: legal = STEPC | TERM; ok = S_DISCARD; s = fmi2GetIntegerStatus(i, fmi2DoStepStatus, &iv); break;
    case 34: legal = STEPC | TERM; s = fmi2GetBooleanStatus(i, fmi2Terminated, b); break;
    case 35: legal = STEPC | TERM; ok = S_DISCARD; s = fmi2GetStringStatus(i, fmi2PendingStatus, &sv); break;
#endif
    default: ASSUME(0);
    }
    if (null) {
        CHECK(s == S_ERROR, "a missing instance is reported as an error");
        return;
    }
    if (mode & legal) {
        CHECK(s == ok, "call in an allowed state returns the prescribed status");
        if (ok == S_ERROR) mode = TERM;
        else if (next) mode = next;
    } else {
        CHECK(s == S_ERROR, "call in a state that does not allow it is refused");
        mode = TERM;
    }
}

static void to_mode(unsigned m) {
    switch (m) {
    case INST: break;
    case INIT: CHECK_OK(a_enter_init(c, 0)); break;
#if VP_KIND == 0
    case EVENT: to_running(c, 0); break;
    case CT: to_running(c, 0); CHECK_OK(a_enter_ct(c)); break;
#else
    case STEPC: to_running(c, 0); break;
#endif
    case TERM: to_running(c, 0); CHECK_OK(a_term(c)); break;
    default: ASSUME(0);
    }
    mode = m;
}

int main(void) {
    c = mk(VP_KIND == 0 ? ME : CS);
    CHECK(c != NULL, "instantiation with valid arguments succeeds");
#ifdef VP_NULLCALLS
    call(in_range(0, NCALLS), true);
    REACH("null call");
#else
#ifdef VP_MODE
    to_mode(VP_MODE);
#else
    to_mode(in_u32());
#endif
#ifdef VP_FIRST
    call(VP_FIRST, false);
    call(in_range(0, NCALLS), false);
#else
    for (int k = 0; k < VP_K; k++) call(in_range(0, NCALLS), false);
#endif
    REACH("all calls made");
#endif
    return 0;
}
