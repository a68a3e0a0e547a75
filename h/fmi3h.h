/* shared by all FMI 3 FMU harnesses */
#ifndef FMI3H_H
#define FMI3H_H
#include "vp.h"
#include "config.h"
#include "fmi3Functions.h"

typedef fmi3ValueReference VR;

#if defined(VP_MODEL_BouncingBall)
#define NX 2
#define NZ 1
#elif defined(VP_MODEL_Dahlquist)
#define NX 1
#define NZ 0
#elif defined(VP_MODEL_VanDerPol)
#define NX 2
#define NZ 0
#elif defined(VP_MODEL_Roberts)
#define NX 2
#define NZ 2
#elif defined(VP_MODEL_StateSpace)
#define NX 3
#define NZ 0
#else
#define NX 0
#define NZ 0
#endif

#if defined(VP_MODEL_BouncingBall) || defined(VP_MODEL_Feedthrough) || defined(VP_MODEL_Stair) || defined(VP_MODEL_StateSpace) || defined(VP_MODEL_Clocks)
#define HAS_EVENTS 1
#else
#define HAS_EVENTS 0
#endif

#define STEP FIXED_SOLVER_STEP

#ifdef VP_MODEL_Resource
#include "io_stub.h"
#define RESOURCES "r/"
#else
#define RESOURCES NULL
#endif

static fmi3Instance new_me(void) {
    return fmi3InstantiateModelExchange("m", INSTANTIATION_TOKEN, RESOURCES, false, false, NULL, NULL);
}
static fmi3Instance new_cs(bool eventMode, bool early) {
    return fmi3InstantiateCoSimulation("m", INSTANTIATION_TOKEN, RESOURCES, false, false, eventMode, early, NULL, 0, NULL, NULL, NULL);
}
static fmi3Status get1(fmi3Instance c, VR vr, double *v) { return fmi3GetFloat64(c, &vr, 1, v, 1); }
static fmi3Status set1(fmi3Instance c, VR vr, double v) { return fmi3SetFloat64(c, &vr, 1, &v, 1); }
static fmi3Status init3(fmi3Instance c, double t0) { return fmi3EnterInitializationMode(c, false, 0, t0, false, 0); }
static fmi3Status step3(fmi3Instance c, double t, double h) {
    bool e, te, er; double last;
    return fmi3DoStep(c, t, h, true, &e, &te, &er, &last);
}
#endif
