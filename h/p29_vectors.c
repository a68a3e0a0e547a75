/* P29: vectors of the Model Exchange interface. VP_WHAT: 0 round trip, 1 wrong sizes */
#include "vars.h"
#if defined(VP_MODEL_Roberts)
static const VR XVR[] = { 2, 4 }, DVR[] = { 3, 5 };
static const double NOM[] = { 1e-4, 1e-2 };
#else
static const VR XVR[] = { 1, 3 }, DVR[] = { 2, 4 };
static const double NOM[] = { 1, 1, 1 };
#endif
int main(void) {
    inst c = mk(ME);
    CHECK(c != NULL, "instantiated");
    CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_exit_init(c)); 
    unsigned op = in_range(0, 4);
    (void)XVR; (void)DVR; (void)NOM;
#if FMI_VERSION == 3
    size_t nx = 99, nz = 99;
    CHECK_OK(fmi3GetNumberOfContinuousStates(c, &nx)); CHECK(nx == NX, "number of states");
    CHECK_OK(fmi3GetNumberOfEventIndicators(c, &nz)); CHECK(nz == NZ, "number of event indicators");
#endif
    CHECK_OK(a_enter_ct(c));
#if VP_WHAT == 0
    (void)op;
    double *x = malloc((NX + 1) * sizeof(double)), *y = malloc((NX + 1) * sizeof(double));
    ASSUME(x && y);
    for (int i = 0; i < NX; i++) x[i] = in_f64();
    CHECK_OK(a_setx(c, x, NX));
    CHECK_OK(a_getx(c, y, NX));
    for (int i = 0; i < NX; i++) CHECK(same_f64(x[i], y[i]), "states are read back");
#ifdef VP_MODEL_StateSpace
    VR vx = 11, vd = 12; double v[3], d[3];
    CHECK_OK(fmi3GetFloat64(c, &vx, 1, v, 3)); CHECK_OK(fmi3GetFloat64(c, &vd, 1, d, 3));
    CHECK_OK(a_getdx(c, y, NX));
    for (int i = 0; i < NX; i++) { CHECK(same_f64(x[i], v[i]), "states are the variables"); CHECK(same_f64(y[i], d[i]), "derivatives are the variables"); }
#else
    for (int i = 0; i < NX; i++) { double v; CHECK_OK(get1(c, XVR[i], &v)); CHECK(same_f64(x[i], v), "states are the variables"); }
    CHECK_OK(a_getdx(c, y, NX));
    for (int i = 0; i < NX; i++) { double v; CHECK_OK(get1(c, DVR[i], &v)); CHECK(same_f64(y[i], v), "derivatives correspond to states"); }
    for (int i = 0; i < NX; i++) {
        double w = in_f64(), v; x[i] = w;
        CHECK_OK(set1(c, XVR[i], w));
        CHECK_OK(a_getx(c, y, NX));
        for (int j = 0; j < NX; j++) CHECK(same_f64(x[j], y[j]), "variables are the states");
        (void)v;
    }
#endif
    CHECK_OK(a_getnom(c, y, NX));
    for (int i = 0; i < NX; i++) CHECK(y[i] == NOM[i], "nominal values");
    free(x); free(y);
    REACH("round trip");
#else
    unsigned n = in_range(0, 6);
    double *x = malloc(n * sizeof(double));
    ASSUME(x || !n);
    for (unsigned i = 0; i < n; i++) x[i] = in_f64();
    ASSUME(n != (op == 3 ? NZ : NX));
    int st = 0;
    switch (op) {
    case 0: st = a_getx(c, x, n); break;
    case 1: st = a_setx(c, x, n); break;
    case 2: st = a_getdx(c, x, n); break;
    case 3: st = a_getz(c, x, n); break;
    case 4: st = a_getnom(c, x, n); break;
    }
    CHECK(st == S_ERROR, "a vector of another size is refused");
    free(x);
    REACH("refused");
#endif
    return 0;
}
