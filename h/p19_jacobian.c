/* P19: directional and adjoint derivatives against the analytic Jacobian of the documented equations */
#include "eq.h"

#define M_INIT 0
#define M_EVENT 1
#define M_CONT 2
#define M_STEP 3
#define M_TERM 4

#ifdef VP_MODEL_VanDerPol
static const VR U[] = { 2, 4 };
#define NU 2
#if VP_MODE == M_INIT
static const VR K[] = { 1, 3, 5 };                  /* mu is a known in initialization mode only */
#define NK 3
#else
static const VR K[] = { 1, 3 };
#define NK 2
#endif
static double jac(const double *v, int u, int k) {
    if (u == 0) return k == 1 ? 1 : 0;
    return k == 0 ? -2 * v[0] * v[1] * v[2] - 1 : k == 1 ? v[2] * (1 - v[0] * v[0]) : (1 - v[0] * v[0]) * v[1];
}
#else
static const VR U[] = { 3, 5, 8 };
#define NU 3
#ifdef VP_DAE
static const VR K[] = { 2, 4, 6 };
#define NK 3
static double jac(const double *v, int u, int k) {
    if (u == 0) return k == 0 ? -0.04 : k == 1 ? 1e4 * v[2] : 1e4 * v[1];
    if (u == 1) return k == 0 ? 0.04 : k == 1 ? -1e4 * v[2] - 6e7 * v[1] : -1e4 * v[1];
    return 1;
}
#else
/* y3 = 1 - y1 - y2 is substituted */
static const VR K[] = { 2, 4 };
#define NK 2
static double jac(const double *v, int u, int k) {
    double y3 = 1.0 - v[0] - v[1];
    if (u == 0) return k == 0 ? -0.04 - 1e4 * v[1] : 1e4 * y3 - 1e4 * v[1];
    if (u == 1) return k == 0 ? 0.04 - -1e4 * v[1] : -1e4 * y3 - 6e7 * v[1] - -1e4 * v[1];
    return 0;
}
#endif
#endif

/* selections: indices into U and K */
typedef struct { int nu, u[3], nk, k[3]; } sel_t;
static const sel_t S[] = {
    { NU, { 0, 1, 2 }, NK, { 0, 1, 2 } },
    { NU, { NU - 1, NU - 2, 0 }, NK, { NK - 1, NK - 2, 0 } },
    { 1, { 1 }, NK, { 0, 1, 2 } },
    { NU, { 0, 1, 2 }, 1, { 1 } },
    { 1, { NU - 1 }, 1, { 0 } },
    { 2, { 1, 0 }, 1, { 0 } },
    { 1, { 0 }, 2, { 1, 1 } },
    { 2, { 1, 0 }, 0, { 0 } },
};

int main(void) {
    inst c = mk(VP_MODE == M_STEP ? CS : ME);
    CHECK(c != NULL, "instantiated");
    double v[NI], seed[4], out[5];
#ifdef VP_DAE
    CHECK_OK(a_setb1(c, 1, true));
#endif
    for (int i = 0; i < NI; i++) v[i] = value();
    set_independent(c, v);
    CHECK_OK(a_enter_init(c, 0));
#if VP_MODE != M_INIT
    CHECK_OK(a_exit_init(c));
#endif
#if VP_MODE == M_CONT
    CHECK_OK(a_enter_ct(c));
    for (int i = 0; i < NXS; i++) v[i] = value();
    CHECK_OK(a_setx(c, v, NXS));
#elif VP_MODE == M_TERM
    CHECK_OK(a_term(c));
#endif
    for (int q = VP_LO; q < VP_HI; q++) {
    const sel_t *s = &S[q];
    VR u[3], k[3];
    for (int i = 0; i < s->nu; i++) u[i] = U[s->u[i]];
    for (int i = 0; i < s->nk; i++) k[i] = K[s->k[i]];
#ifndef VP_ADJ
    for (int i = 0; i < s->nk; i++) seed[i] = value();
    for (int i = 0; i < 5; i++) out[i] = 77;
    CHECK_OK(a_dirder(c, u, s->nu, k, s->nk, seed, out));
    for (int i = 0; i < s->nu; i++) {
        double want = 0;
        for (int j = 0; j < s->nk; j++) want += jac(v, s->u[i], s->k[j]) * seed[j];
        CHECK(near(out[i], want), "the directional derivative is the Jacobian times the seed");
    }
    for (int i = s->nu; i < 5; i++) CHECK(out[i] == 77, "nothing else is written");
#else
    for (int i = 0; i < s->nu; i++) seed[i] = value();
    for (int i = 0; i < 5; i++) out[i] = 77;
    CHECK_OK(fmi3GetAdjointDerivative(c, u, s->nu, k, s->nk, seed, s->nu, out, s->nk));
    for (int i = 0; i < s->nk; i++) {
        double want = 0;
        for (int j = 0; j < s->nu; j++) want += jac(v, s->u[j], s->k[i]) * seed[j];
        CHECK(near(out[i], want), "the adjoint derivative is the transposed Jacobian times the seed");
    }
    for (int i = s->nk; i < 5; i++) CHECK(out[i] == 77, "nothing else is written");
#endif
    }
    /* the values themselves are not changed by the call */
    for (int i = 0; i < NI; i++) {
        double got;
        CHECK_OK(get1(c, IND[i], &got));
        CHECK(same_f64(got, v[i]), "variables are unchanged");
    }
    REACH("derivative");
    return 0;
}
