/* P23: state space equations for dimensions VP_M inputs, VP_N states, VP_R outputs.
 * VP_WHAT: 0 matrices and start values, 1 equations after initialization, 2 Model Exchange states, 3 co-simulation step */
#include "vars.h"
#define M_ VP_M
#define N_ VP_N
#define R_ VP_R
static double A[N_ * N_ + 1], B[N_ * M_ + 1], C[R_ * N_ + 1], D[R_ * M_ + 1], U[M_ + 1], X0[N_ + 1], X[N_ + 1];
static void set(inst c, VR vr, const double *v, size_t n) { CHECK(fmi3SetFloat64(c, &vr, 1, v, n) == fmi3OK, "array can be set"); }
static void get(inst c, VR vr, double *v, size_t n) { CHECK(fmi3GetFloat64(c, &vr, 1, v, n) == fmi3OK, "array can be read"); }
static void same(const double *a, const double *b, size_t n) { for (size_t i = 0; i < n; i++) CHECK(same_f64(a[i], b[i]), "element by element in row-major order"); }
static bool near(double a, double b) {
    double d = a - b, m = (a < 0 ? -a : a) + (b < 0 ? -b : b);
    return same_f64(a, b) || (d <= 1e-9 * m && d >= -1e-9 * m);
}
static double value(void) {
#ifdef VP_SMALL
    return (double)in_range(0, VP_SMALL);
#else
    return in_f64();
#endif
}
static void rhs(double *dx) {
    for (int i = 0; i < N_; i++) {
        dx[i] = 0;
        for (int j = 0; j < N_; j++) dx[i] += A[i * N_ + j] * X[j];
        for (int j = 0; j < M_; j++) dx[i] += B[i * M_ + j] * U[j];
    }
}
static void output(double *y) {
    for (int i = 0; i < R_; i++) {
        y[i] = 0;
        for (int j = 0; j < N_; j++) y[i] += C[i * N_ + j] * X[j];
        for (int j = 0; j < M_; j++) y[i] += D[i * M_ + j] * U[j];
    }
}
static void equations(inst c) {
    double dx[N_ + 1], y[R_ + 1], v[8];
    rhs(dx); output(y);
    get(c, 12, v, N_);
    for (int i = 0; i < N_; i++) CHECK(near(v[i], dx[i]), "der(x) = Ax + Bu");
    get(c, 10, v, R_);
    for (int i = 0; i < R_; i++) CHECK(near(v[i], y[i]), "y = Cx + Du");
    get(c, 11, v, N_);
    same(v, X, N_);
}
int main(void) {
    inst c = mk(VP_WHAT == 3 ? CS : ME);
    CHECK(c != NULL, "instantiated");
    VR s[3] = { 1, 2, 3 }; uint64_t d[3] = { M_, N_, R_ };
    CHECK_OK(fmi3EnterConfigurationMode(c));
    CHECK_OK(fmi3SetUInt64(c, s, 3, d, 3));
    CHECK_OK(fmi3ExitConfigurationMode(c));
    for (int i = 0; i < N_ * N_; i++) A[i] = value();
    for (int i = 0; i < N_ * M_; i++) B[i] = value();
    for (int i = 0; i < R_ * N_; i++) C[i] = value();
    for (int i = 0; i < R_ * M_; i++) D[i] = value();
    for (int i = 0; i < M_; i++) U[i] = value();
    for (int i = 0; i < N_; i++) X[i] = X0[i] = value();
#if VP_WHAT == 3 && defined(VP_INITSET)
    CHECK_OK(a_enter_init(c, 0));
#endif
    set(c, 4, A, N_ * N_); set(c, 5, B, N_ * M_); set(c, 6, C, R_ * N_); set(c, 7, D, R_ * M_); set(c, 9, U, M_); set(c, 8, X0, N_);
#if VP_WHAT == 0
    double v[26];
    get(c, 4, v, N_ * N_); same(v, A, N_ * N_);
    get(c, 5, v, N_ * M_); same(v, B, N_ * M_);
    get(c, 6, v, R_ * N_); same(v, C, R_ * N_);
    get(c, 7, v, R_ * M_); same(v, D, R_ * M_);
    get(c, 9, v, M_); same(v, U, M_);
    get(c, 8, v, N_); same(v, X0, N_);
    CHECK_OK(a_enter_init(c, 0));
    get(c, 11, v, N_);
    same(v, X0, N_);
    CHECK_OK(a_exit_init(c));
    get(c, 11, v, N_);
    same(v, X0, N_);
    REACH("matrices");
#else
#if !(VP_WHAT == 3 && defined(VP_INITSET))
    CHECK_OK(a_enter_init(c, 0));
#endif
    CHECK_OK(a_exit_init(c));
#if VP_WHAT == 1
    equations(c);
    REACH("equations");
#elif VP_WHAT == 2
    double v[N_ + 1], dx[N_ + 1];
    CHECK_OK(a_enter_ct(c));
    CHECK_OK(a_getx(c, v, N_));
    same(v, X0, N_);
    for (int i = 0; i < N_; i++) X[i] = value();
    for (int i = 0; i < M_; i++) U[i] = value();
    CHECK_OK(a_setx(c, X, N_));
    set(c, 9, U, M_);
    rhs(dx);
    CHECK_OK(a_getdx(c, v, N_));
    for (int i = 0; i < N_; i++) CHECK(near(v[i], dx[i]), "der(x) = Ax + Bu");
    equations(c);
    REACH("states");
#else
    double dx[N_ + 1];
    CHECK_OK(a_dostep(c, 0, STEP));
    rhs(dx);
    for (int i = 0; i < N_; i++) X[i] += STEP * dx[i];
    equations(c);
    REACH("stepped");
#endif
#endif
    return 0;
}
