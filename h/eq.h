/* Documented equations of the models (readme.md of each model), independent of the implementation.
 * IND lists the independent variables an importer can set after instantiation. */
#ifndef EQ_H
#define EQ_H
#include "vars.h"

/* any double; with VP_DYADIC one of a few multiples of 1/2, on which a handful of operations is exact in any order */
static double value(void) {
#ifdef VP_DYADIC
    return in_dyadic(VP_DYADIC, 1);
#else
    return in_f64();
#endif
}

/* equal up to rounding */
static bool near(double a, double b) {
    double d = a - b, m = (a < 0 ? -a : a) + (b < 0 ? -b : b);
    return same_f64(a, b) || (d <= 1e-9 * m && d >= -1e-9 * m);
}

#if defined(VP_MODEL_BouncingBall)
#define NI 4
static const VR IND[NI] = { 1, 3, 5, 6 };           /* h, v, g, e */
#define NXS 2
static void deriv(const double *i, const double *x, double *dx) { dx[0] = x[1]; dx[1] = i[2]; }
#elif defined(VP_MODEL_Dahlquist)
#define NI 2
static const VR IND[NI] = { 1, 3 };                 /* x, k */
#define NXS 1
static void deriv(const double *i, const double *x, double *dx) { dx[0] = -i[1] * x[0]; }
#elif defined(VP_MODEL_VanDerPol)
#define NI 3
static const VR IND[NI] = { 1, 3, 5 };              /* x0, x1, mu */
#define NXS 2
static void deriv(const double *i, const double *x, double *dx) { dx[0] = x[1]; dx[1] = i[2] * ((1.0 - x[0] * x[0]) * x[1]) - x[0]; }
#elif defined(VP_MODEL_Roberts)
#ifdef VP_DAE
#define NI 3
static const VR IND[NI] = { 2, 4, 6 };              /* y1, y2, y3 */
#define Y3 i[2]
#else
#define NI 2
static const VR IND[NI] = { 2, 4 };
#define Y3 (1.0 - x[0] - x[1])
#endif
#define NXS 2
static void deriv(const double *i, const double *x, double *dx) {
    double y3 = Y3; (void)i;
    dx[0] = (-0.04) * x[0] + 1e4 * x[1] * y3;
    dx[1] = (0.04) * x[0] - 1e4 * x[1] * y3 - 3e7 * x[1] * x[1];
}
#endif

#ifdef NXS
/* VRs of states and derivatives in the order of the state vector */
#if defined(VP_MODEL_Roberts)
static const VR XVR[2] = { 2, 4 }, DVR[2] = { 3, 5 };
#else
static const VR XVR[2] = { 1, 3 }, DVR[2] = { 2, 4 };
#endif
static void set_independent(inst c, const double *v) { for (int i = 0; i < NI; i++) CHECK_OK(set1(c, IND[i], v[i])); }
#endif
#endif
