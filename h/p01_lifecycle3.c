/* P01: FMI 3 call legality.  An instance is brought to a symbolically chosen mode by legal
 * calls, then K symbolically chosen functions are called; every status and every following
 * mode is compared with the FMI 3 state machine written down here. */
#include "fmi3h.h"

enum { INST = 1, CONF = 2, INIT = 4, EVENT = 8, CT = 16, STEPM = 32, CLKA = 64, RECONF = 128, TERM = 256, ANY = 511 };
enum { ME, CS, SE };
#ifndef VP_KIND
#define VP_KIND CS
#endif
#ifndef VP_EVENTMODE
#define VP_EVENTMODE 0
#endif
#ifndef VP_K
#define VP_K 2
#endif

#define GETM (INST | INIT | CONF | RECONF | EVENT | CT | STEPM | CLKA | TERM)
#define SETM (GETM & ~CT)
#define EVALM (INIT | EVENT | CT | TERM)
#define DERM (INIT | STEPM | EVENT | CT | TERM)

static fmi3Instance c;
static unsigned mode;
static double now;

#if VP_KIND == 2
static void clk(fmi3InstanceEnvironment e) { (void)e; }
static void lk(void) {}
#endif

static fmi3Instance make(void) {
#if VP_KIND == 0
    return new_me();
#elif VP_KIND == 1
    return new_cs(VP_EVENTMODE, false);
#else
    return fmi3InstantiateScheduledExecution("m", INSTANTIATION_TOKEN, NULL, false, false, NULL, NULL, clk, lk, lk);
#endif
}

/* status of function f, legal modes and successor mode (0: unchanged) */
static void call(unsigned f, bool null) {
    fmi3Instance i = null ? NULL : c;
    fmi3Status s = fmi3OK;
    unsigned legal = ANY, next = 0;
    double d[8] = {0}; fmi3FMUState st = NULL; size_t n = 0; bool b[4] = {0};
    switch (f) {
    case 0: legal = INST; next = INIT; s = fmi3EnterInitializationMode(i, false, 0, 0, false, 0); if (!null) now = 0; break;
    case 1: legal = INIT; next = VP_KIND == 0 ? EVENT : VP_KIND == 1 ? (VP_EVENTMODE ? EVENT : STEPM) : CLKA; s = fmi3ExitInitializationMode(i); break;
    case 2: legal = CT | STEPM; next = EVENT; s = fmi3EnterEventMode(i); break;
    case 3: legal = CT | STEPM | EVENT | CLKA | RECONF; next = TERM; s = fmi3Terminate(i); break;
    case 4: next = INST; s = fmi3Reset(i); break;
    case 5: s = fmi3SetDebugLogging(i, false, 0, NULL); break;
    case 6: legal = GETM; s = fmi3GetFloat32(i, NULL, 0, NULL, 0); break;
    case 7: legal = GETM; s = fmi3GetFloat64(i, NULL, 0, NULL, 0); break;
    case 8: legal = GETM; s = fmi3GetInt8(i, NULL, 0, NULL, 0); break;
    case 9: legal = GETM; s = fmi3GetUInt8(i, NULL, 0, NULL, 0); break;
    case 10: legal = GETM; s = fmi3GetInt16(i, NULL, 0, NULL, 0); break;
    case 11: legal = GETM; s = fmi3GetUInt16(i, NULL, 0, NULL, 0); break;
    case 12: legal = GETM; s = fmi3GetInt32(i, NULL, 0, NULL, 0); break;
    case 13: legal = GETM; s = fmi3GetUInt32(i, NULL, 0, NULL, 0); break;
    case 14: legal = GETM; s = fmi3GetInt64(i, NULL, 0, NULL, 0); break;
    case 15: legal = GETM; s = fmi3GetUInt64(i, NULL, 0, NULL, 0); break;
    case 16: legal = GETM; s = fmi3GetBoolean(i, NULL, 0, NULL, 0); break;
    case 17: legal = GETM; s = fmi3GetString(i, NULL, 0, NULL, 0); break;
    case 18: legal = GETM; s = fmi3GetBinary(i, NULL, 0, NULL, NULL, 0); break;
    case 19: legal = GETM; s = fmi3SetFloat32(i, NULL, 0, NULL, 0); break;
    case 20: legal = GETM; s = fmi3SetFloat64(i, NULL, 0, NULL, 0); break;
    case 21: legal = SETM; s = fmi3SetInt8(i, NULL, 0, NULL, 0); break;
    case 22: legal = SETM; s = fmi3SetUInt8(i, NULL, 0, NULL, 0); break;
    case 23: legal = SETM; s = fmi3SetInt16(i, NULL, 0, NULL, 0); break;
    case 24: legal = SETM; s = fmi3SetUInt16(i, NULL, 0, NULL, 0); break;
    case 25: legal = SETM; s = fmi3SetInt32(i, NULL, 0, NULL, 0); break;
    case 26: legal = SETM; s = fmi3SetUInt32(i, NULL, 0, NULL, 0); break;
    case 27: legal = SETM; s = fmi3SetInt64(i, NULL, 0, NULL, 0); break;
    case 28: legal = SETM; s = fmi3SetUInt64(i, NULL, 0, NULL, 0); break;
    case 29: legal = SETM; s = fmi3SetBoolean(i, NULL, 0, NULL, 0); break;
    case 30: legal = SETM; s = fmi3SetString(i, NULL, 0, NULL, 0); break;
    case 31: legal = SETM; s = fmi3SetBinary(i, NULL, 0, NULL, NULL, 0); break;
    case 32: s = fmi3GetClock(i, NULL, 0, NULL); break;
    case 33: s = fmi3SetClock(i, NULL, 0, NULL); break;
    case 34: s = fmi3GetFMUState(i, &st); if (st) free(st); break;
    case 35: s = fmi3SerializedFMUStateSize(i, NULL, &n); break;
    case 36: legal = DERM; s = fmi3GetDirectionalDerivative(i, NULL, 0, NULL, 0, NULL, 0, NULL, 0); break;
    case 37: legal = DERM; s = fmi3GetAdjointDerivative(i, NULL, 0, NULL, 0, NULL, 0, NULL, 0); break;
    case 38: legal = INST | STEPM | EVENT | CLKA; next = mode == INST ? CONF : RECONF; s = fmi3EnterConfigurationMode(i); break;
    case 39: legal = CONF | RECONF; next = mode == CONF ? INST : VP_KIND == 0 ? EVENT : VP_KIND == 1 ? STEPM : CLKA; s = fmi3ExitConfigurationMode(i); break;
    case 40: s = fmi3GetIntervalDecimal(i, NULL, 0, NULL, NULL); break;
    case 41: s = fmi3GetNumberOfContinuousStates(i, &n); break;
    case 42: s = fmi3GetNumberOfEventIndicators(i, &n); break;
#if VP_KIND == 0
    case 43: legal = EVENT; next = CT; s = fmi3EnterContinuousTimeMode(i); break;
    case 44: legal = CT; s = fmi3CompletedIntegratorStep(i, true, &b[0], &b[1]); break;
    case 45: legal = EVENT | CT; s = fmi3SetTime(i, 0.5); break;
    case 46: legal = CT; d[0] = 1; d[1] = 2; s = fmi3SetContinuousStates(i, d, NX); break;
    case 47: legal = EVALM; s = fmi3GetContinuousStateDerivatives(i, d, NX); break;
    case 48: legal = EVALM; s = fmi3GetEventIndicators(i, d, NZ); break;
    case 49: legal = EVALM; s = fmi3GetContinuousStates(i, d, NX); break;
    case 50: legal = EVALM; s = fmi3GetNominalsOfContinuousStates(i, d, NX); break;
#endif
#if VP_KIND == 1
    case 51: legal = INIT | EVENT; next = STEPM; s = fmi3EnterStepMode(i); break;
    case 52: legal = STEPM; s = fmi3DoStep(i, now, STEP, true, &b[0], &b[1], &b[2], &d[0]);
             if (s == fmi3OK) { CHECK(b[3] || d[0] > now, "DoStep advances"); now = d[0]; } break;
#ifdef VP_MODEL_BouncingBall
    case 53: legal = STEPM | TERM; s = fmi3GetOutputDerivatives(i, NULL, 0, NULL, NULL, 0); break;
#endif
#endif
#if VP_KIND == 2
    case 54: legal = CLKA; s = fmi3ActivateModelPartition(i, 1001, 0); break;
#endif
#if HAS_EVENTS && VP_KIND != 2
    case 55: ASSUME(mode == EVENT); s = fmi3UpdateDiscreteStates(i, &b[0], &b[1], &b[2], &b[3], &b[0], &d[0]); break;
#endif
    default: ASSUME(0);
    }
    if (null) {
        CHECK(s == fmi3Error, "a missing instance is reported as an error");
        return;
    }
    if (mode & legal) {
        CHECK(s == fmi3OK, "call in an allowed mode succeeds");
        if (next) mode = next;
    } else {
        CHECK(s == fmi3Error, "call in a mode that does not allow it is refused");
        mode = TERM;
    }
}

static void to_mode(unsigned m) {
    switch (m) {
    case INST: break;
    case CONF: CHECK_OK(fmi3EnterConfigurationMode(c)); break;
    case INIT: CHECK_OK(init3(c, 0)); break;
#if VP_KIND == 0
    case EVENT: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); break;
    case CT: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); CHECK_OK(fmi3EnterContinuousTimeMode(c)); break;
    case RECONF: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); CHECK_OK(fmi3EnterConfigurationMode(c)); break;
    case TERM: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); CHECK_OK(fmi3Terminate(c)); break;
#elif VP_KIND == 1
#if VP_EVENTMODE
    case EVENT: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); break;
    case STEPM: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); CHECK_OK(fmi3EnterStepMode(c)); break;
#else
    case STEPM: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); break;
    case EVENT: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); CHECK_OK(fmi3EnterEventMode(c)); break;
#endif
    case RECONF: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); CHECK_OK(fmi3EnterConfigurationMode(c)); break;
    case TERM: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); CHECK_OK(fmi3Terminate(c)); break;
#else
    case CLKA: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); break;
    case RECONF: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); CHECK_OK(fmi3EnterConfigurationMode(c)); break;
    case TERM: CHECK_OK(init3(c, 0)); CHECK_OK(fmi3ExitInitializationMode(c)); CHECK_OK(fmi3Terminate(c)); break;
#endif
    default: ASSUME(0);
    }
    mode = m;
}

int main(void) {
    c = make();
    CHECK(c != NULL, "instantiation with valid arguments succeeds");
#ifdef VP_NULLCALLS
    call(in_range(0, 55), true);
    REACH("null call");
#else
#ifdef VP_MODE
    to_mode(VP_MODE);
#else
    to_mode(in_u32());
#endif
    for (int k = 0; k < VP_K; k++) {
        call(in_range(0, 55), false);
    }
    REACH("all calls made");
#endif
    return 0;
}
