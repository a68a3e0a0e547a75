/* Version-neutral view of an FMU: the same harness source checks FMI 2 and FMI 3 builds.
 * Only public FMI functions, value references and constants of the model description are used. */
#ifndef API_H
#define API_H
#include "vp.h"
#include "config.h"
#if FMI_VERSION == 3
#include "fmi3Functions.h"
typedef fmi3Instance inst;
typedef fmi3FMUState fstate;
typedef fmi3ValueReference VR;
#else
#include "fmi2Functions.h"
typedef fmi2Component inst;
typedef fmi2FMUstate fstate;
typedef fmi2ValueReference VR;
#endif

enum { S_OK = 0, S_WARNING = 1, S_DISCARD = 2, S_ERROR = 3 };
enum { ME = 0, CS = 1, CSE = 2, SE = 3 };   /* CSE: co-simulation with event mode */

#ifdef VP_MODEL_Resource
#include "io_stub.h"
#if FMI_VERSION == 3
#define RESOURCES "r/"
#else
#define RESOURCES "file:///r"
#endif
#else
#define RESOURCES NULL
#endif

#define STEP FIXED_SOLVER_STEP

#if defined(VP_MODEL_BouncingBall)
#define NX 2
#define NZ 1
#elif defined(VP_MODEL_Dahlquist)
#define NX 1
#define NZ 0
#elif defined(VP_MODEL_VanDerPol)
#define NX 2
#define NZ 0
#elif defined(VP_MODEL_Roberts)
#define NX 2
#define NZ 2
#elif defined(VP_MODEL_StateSpace)
#define NX 3
#define NZ 0
#else
#define NX 0
#define NZ 0
#endif

#if defined(VP_MODEL_BouncingBall) || defined(VP_MODEL_Feedthrough) || defined(VP_MODEL_Stair) || defined(VP_MODEL_StateSpace) || defined(VP_MODEL_Clocks)
#define HAS_EVENTS 1
#else
#define HAS_EVENTS 0
#endif

struct einfo { bool need, term, nominals, values, nextDefined; double next; };

#if FMI_VERSION == 3
static void api_clk(fmi3InstanceEnvironment e) { (void)e; }
static void api_lock(void) {}
static inst mk(int kind) {
    if (kind == ME) return fmi3InstantiateModelExchange("m", INSTANTIATION_TOKEN, RESOURCES, false, false, NULL, NULL);
    if (kind == SE) return fmi3InstantiateScheduledExecution("m", INSTANTIATION_TOKEN, RESOURCES, false, false, NULL, NULL, api_clk, api_lock, api_lock);
    return fmi3InstantiateCoSimulation("m", INSTANTIATION_TOKEN, RESOURCES, false, false, kind == CSE, false, NULL, 0, NULL, NULL, NULL);
}
static void a_free(inst c) { fmi3FreeInstance(c); }
static int a_enter_init(inst c, double t0) { return fmi3EnterInitializationMode(c, false, 0, t0, false, 0); }
static int a_enter_init_stop(inst c, double t0, bool def, double t1) { return fmi3EnterInitializationMode(c, false, 0, t0, def, t1); }
static int a_exit_init(inst c) { return fmi3ExitInitializationMode(c); }
static int a_term(inst c) { return fmi3Terminate(c); }
static int a_reset(inst c) { return fmi3Reset(c); }
static int a_dostep(inst c, double t, double h) { bool e, te, er; double l; return fmi3DoStep(c, t, h, true, &e, &te, &er, &l); }
static int a_getr(inst c, const VR *vr, size_t n, double *v, size_t nv) { return fmi3GetFloat64(c, vr, n, v, nv); }
static int a_setr(inst c, const VR *vr, size_t n, const double *v, size_t nv) { return fmi3SetFloat64(c, vr, n, v, nv); }
static int a_geti(inst c, const VR *vr, size_t n, int32_t *v, size_t nv) { return fmi3GetInt32(c, vr, n, v, nv); }
static int a_seti(inst c, const VR *vr, size_t n, const int32_t *v, size_t nv) { return fmi3SetInt32(c, vr, n, v, nv); }
static int a_getb1(inst c, VR vr, bool *v) { return fmi3GetBoolean(c, &vr, 1, v, 1); }
static int a_setb1(inst c, VR vr, bool v) { return fmi3SetBoolean(c, &vr, 1, &v, 1); }
static int a_gets1(inst c, VR vr, const char **v) { return fmi3GetString(c, &vr, 1, v, 1); }
static int a_sets1(inst c, VR vr, const char *v) { return fmi3SetString(c, &vr, 1, &v, 1); }
static int a_event(inst c, struct einfo *e) { return fmi3UpdateDiscreteStates(c, &e->need, &e->term, &e->nominals, &e->values, &e->nextDefined, &e->next); }
static int a_enter_event(inst c) { return fmi3EnterEventMode(c); }
static int a_enter_ct(inst c) { return fmi3EnterContinuousTimeMode(c); }
static int a_completed(inst c, bool *ev, bool *te) { return fmi3CompletedIntegratorStep(c, true, ev, te); }
static int a_settime(inst c, double t) { return fmi3SetTime(c, t); }
static int a_getx(inst c, double *x, size_t n) { return fmi3GetContinuousStates(c, x, n); }
static int a_setx(inst c, const double *x, size_t n) { return fmi3SetContinuousStates(c, x, n); }
static int a_getdx(inst c, double *x, size_t n) { return fmi3GetContinuousStateDerivatives(c, x, n); }
static int a_getz(inst c, double *x, size_t n) { return fmi3GetEventIndicators(c, x, n); }
static int a_getnom(inst c, double *x, size_t n) { return fmi3GetNominalsOfContinuousStates(c, x, n); }
static int a_save(inst c, fstate *s) { return fmi3GetFMUState(c, s); }
static int a_restore(inst c, fstate s) { return fmi3SetFMUState(c, s); }
static int a_freestate(inst c, fstate *s) { return fmi3FreeFMUState(c, s); }
static int a_size(inst c, fstate s, size_t *n) { return fmi3SerializedFMUStateSize(c, s, n); }
static int a_ser(inst c, fstate s, unsigned char *b, size_t n) { return fmi3SerializeFMUState(c, s, b, n); }
static int a_deser(inst c, const unsigned char *b, size_t n, fstate *s) { return fmi3DeserializeFMUState(c, b, n, s); }
static int a_dirder(inst c, const VR *u, size_t nu, const VR *k, size_t nk, const double *seed, double *sens) { return fmi3GetDirectionalDerivative(c, u, nu, k, nk, seed, nk, sens, nu); }
#else
static void api_log(fmi2ComponentEnvironment e, fmi2String i, fmi2Status s, fmi2String c, fmi2String m, ...) { (void)e; (void)i; (void)s; (void)c; (void)m; }
static const fmi2CallbackFunctions api_cb = { api_log, NULL, NULL, NULL, NULL };
static inst mk(int kind) { return fmi2Instantiate("m", kind == ME ? fmi2ModelExchange : fmi2CoSimulation, INSTANTIATION_TOKEN, RESOURCES, &api_cb, false, false); }
static void a_free(inst c) { fmi2FreeInstance(c); }
static int a_enter_init_stop(inst c, double t0, bool def, double t1) {
    int s = fmi2SetupExperiment(c, false, 0, t0, def, t1);
    return s ? s : (int)fmi2EnterInitializationMode(c);
}
static int a_enter_init(inst c, double t0) { return a_enter_init_stop(c, t0, false, 0); }
static int a_exit_init(inst c) { return fmi2ExitInitializationMode(c); }
static int a_term(inst c) { return fmi2Terminate(c); }
static int a_reset(inst c) { return fmi2Reset(c); }
static int a_dostep(inst c, double t, double h) { return fmi2DoStep(c, t, h, true); }
static int a_getr(inst c, const VR *vr, size_t n, double *v, size_t nv) { (void)nv; return fmi2GetReal(c, vr, n, v); }
static int a_setr(inst c, const VR *vr, size_t n, const double *v, size_t nv) { (void)nv; return fmi2SetReal(c, vr, n, v); }
static int a_geti(inst c, const VR *vr, size_t n, int32_t *v, size_t nv) { (void)nv; return fmi2GetInteger(c, vr, n, v); }
static int a_seti(inst c, const VR *vr, size_t n, const int32_t *v, size_t nv) { (void)nv; return fmi2SetInteger(c, vr, n, v); }
static int a_getb1(inst c, VR vr, bool *v) { fmi2Boolean b = *v; int s = fmi2GetBoolean(c, &vr, 1, &b); *v = b; return s; }
static int a_setb1(inst c, VR vr, bool v) { fmi2Boolean b = v; return fmi2SetBoolean(c, &vr, 1, &b); }
static int a_gets1(inst c, VR vr, const char **v) { return fmi2GetString(c, &vr, 1, v); }
static int a_sets1(inst c, VR vr, const char *v) { return fmi2SetString(c, &vr, 1, &v); }
static int a_event(inst c, struct einfo *e) {
    fmi2EventInfo i;
    int s = fmi2NewDiscreteStates(c, &i);
    if (s == 0) {
        e->need = i.newDiscreteStatesNeeded; e->term = i.terminateSimulation; e->nominals = i.nominalsOfContinuousStatesChanged;
        e->values = i.valuesOfContinuousStatesChanged; e->nextDefined = i.nextEventTimeDefined; e->next = i.nextEventTime;
    }
    return s;
}
static int a_enter_event(inst c) { return fmi2EnterEventMode(c); }
static int a_enter_ct(inst c) { return fmi2EnterContinuousTimeMode(c); }
static int a_completed(inst c, bool *ev, bool *te) { fmi2Boolean a, b; int s = fmi2CompletedIntegratorStep(c, true, &a, &b); *ev = a; *te = b; return s; }
static int a_settime(inst c, double t) { return fmi2SetTime(c, t); }
static int a_getx(inst c, double *x, size_t n) { return fmi2GetContinuousStates(c, x, n); }
static int a_setx(inst c, const double *x, size_t n) { return fmi2SetContinuousStates(c, x, n); }
static int a_getdx(inst c, double *x, size_t n) { return fmi2GetDerivatives(c, x, n); }
static int a_getz(inst c, double *x, size_t n) { return fmi2GetEventIndicators(c, x, n); }
static int a_getnom(inst c, double *x, size_t n) { return fmi2GetNominalsOfContinuousStates(c, x, n); }
static int a_save(inst c, fstate *s) { return fmi2GetFMUstate(c, s); }
static int a_restore(inst c, fstate s) { return fmi2SetFMUstate(c, s); }
static int a_freestate(inst c, fstate *s) { return fmi2FreeFMUstate(c, s); }
static int a_size(inst c, fstate s, size_t *n) { return fmi2SerializedFMUstateSize(c, s, n); }
static int a_ser(inst c, fstate s, unsigned char *b, size_t n) { return fmi2SerializeFMUstate(c, s, (fmi2Byte *)b, n); }
static int a_deser(inst c, const unsigned char *b, size_t n, fstate *s) { return fmi2DeSerializeFMUstate(c, (const fmi2Byte *)b, n, s); }
static int a_dirder(inst c, const VR *u, size_t nu, const VR *k, size_t nk, const double *seed, double *sens) { return fmi2GetDirectionalDerivative(c, u, nu, k, nk, seed, sens); }
#endif

static int get1(inst c, VR vr, double *v) { return a_getr(c, &vr, 1, v, 1); }
static int set1(inst c, VR vr, double v) { return a_setr(c, &vr, 1, &v, 1); }
static int geti1(inst c, VR vr, int32_t *v) { return a_geti(c, &vr, 1, v, 1); }
static int seti1(inst c, VR vr, int32_t v) { return a_seti(c, &vr, 1, &v, 1); }

/* instantiated -> initialized with start time t0 (ME: event mode, CS: step mode, CSE: event mode) */
static void to_running(inst c, double t0) {
    CHECK_OK(a_enter_init(c, t0));
    CHECK_OK(a_exit_init(c));
}
#endif
