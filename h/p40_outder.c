/* P40: derivatives of outputs in co-simulation. VP_N: number of value references of one call (0: the two outputs) */
#include "eq.h"

#if FMI_VERSION == 2
typedef fmi2ValueReference vref;
typedef fmi2Integer order_t;
#define OUTDER(c, r, n, o, v) fmi2GetRealOutputDerivatives(c, r, n, o, v)
#else
typedef fmi3ValueReference vref;
typedef fmi3Int32 order_t;
#define OUTDER(c, r, n, o, v) fmi3GetOutputDerivatives(c, r, n, o, v, n)
#endif

int main(void) {
    inst c = mk(1);
    CHECK(c != NULL, "instantiated");
    double v[NI];
    for (int i = 0; i < NI; i++) v[i] = value();
    set_independent(c, v);
    CHECK_OK(a_enter_init(c, 0));
    CHECK_OK(a_exit_init(c));
#if VP_STEP
    {
        ASSUME(v[0] > 1 && v[0] < 4 && v[1] > -1 && v[1] < 1 && v[2] > -2 && v[2] < 2);
        CHECK_OK(a_dostep(c, 0, FIXED_SOLVER_STEP));
        CHECK_OK(get1(c, IND[0], &v[0]));
        CHECK_OK(get1(c, IND[1], &v[1]));
    }
#endif
    vref r[2];
    order_t o[2];
    double got[3] = {7.5, 7.5, 7.5};
#if VP_N == 0
    unsigned first = in_bool();
    r[0] = XVR[first]; r[1] = XVR[!first];
    o[0] = o[1] = 1;
    CHECK_OK(OUTDER(c, r, 2, o, got));
    double dx[2];
    deriv(v, v, dx);
    CHECK(near(got[0], dx[first]) && near(got[1], dx[!first]), "the first derivative of each output is that of the model");
    REACH("both");
#else
    r[0] = in_u32();
    o[0] = in_i32();
    int s = OUTDER(c, r, 1, o, got);
#ifdef VP_MODEL_BouncingBall
    if ((r[0] == XVR[0] || r[0] == XVR[1]) && o[0] == 1) {
        double dx[2];
        deriv(v, v, dx);
        CHECK(s == 0, "the first derivative of an output is available");
        CHECK(near(got[0], dx[r[0] == XVR[1]]), "the first derivative of the output is that of the model");
        REACH("output");
    } else
#endif
    {
        CHECK(s != 0 && s != 1, "any other derivative is refused");
        REACH("refused");
    }
#endif
    CHECK(got[2] == 7.5 && (VP_N == 0 || got[1] == 7.5), "nothing else is written");
    return 0;
}
