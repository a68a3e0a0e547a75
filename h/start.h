/* start values as the model descriptions document them */
#ifndef START_H
#define START_H
#include "vars.h"
static void start_values(inst c) {
    double d = -1; int32_t i = -1; bool b = true; (void)d; (void)i; (void)b;
#define R(vr, x) CHECK(get1(c, vr, &d) == S_OK && d == (x), "variable " #vr " has its documented start value")
#define I(vr, x) CHECK(geti1(c, vr, &i) == S_OK && i == (x), "variable " #vr " has its documented start value")
#if defined(VP_MODEL_BouncingBall)
    R(1, 1); R(2, 0); R(3, 0); R(4, -9.81); R(5, -9.81); R(6, 0.7); R(7, 0.1);
#elif defined(VP_MODEL_Dahlquist)
    R(1, 1); R(2, -1); R(3, 1);
#elif defined(VP_MODEL_VanDerPol)
    R(1, 2); R(2, 0); R(3, 0); R(4, -2); R(5, 1);
#elif defined(VP_MODEL_Stair)
    I(1, 1);
#elif defined(VP_MODEL_Resource)
    I(1, 'a');
#elif defined(VP_MODEL_Clocks)
    I(2001, 0); I(2002, 0); I(2003, 0); I(2004, 0); I(2005, 0); I(2006, 0); I(2007, 0);
#elif defined(VP_MODEL_Roberts)
    CHECK(a_getb1(c, 1, &b) == S_OK && !b, "variable 1 has its documented start value");
    R(2, 1); R(4, 0); R(6, 0); R(7, 1e-2);
#elif defined(VP_MODEL_StateSpace)
    uint64_t u; VR vr;
    for (vr = 1; vr <= 3; vr++) CHECK(fmi3GetUInt64(c, &vr, 1, &u, 1) == fmi3OK && u == 3, "the dimensions start at 3");
    double m[9];
    for (vr = 4; vr <= 7; vr++) {
        CHECK_OK(fmi3GetFloat64(c, &vr, 1, m, 9));
        for (int k = 0; k < 9; k++) CHECK(m[k] == (k % 4 == 0), "the matrices start as the identity");
    }
    vr = 8;
    CHECK_OK(fmi3GetFloat64(c, &vr, 1, m, 3));
    for (int k = 0; k < 3; k++) CHECK(m[k] == 0, "x0 starts at 0");
    vr = 9;
    CHECK_OK(fmi3GetFloat64(c, &vr, 1, m, 3));
    for (int k = 0; k < 3; k++) CHECK(m[k] == k + 1, "u starts at 1 2 3");
    vr = 11;
    CHECK_OK(fmi3GetFloat64(c, &vr, 1, m, 3));
    for (int k = 0; k < 3; k++) CHECK(m[k] == 0, "x starts at x0");
    vr = 12;
    CHECK_OK(fmi3GetFloat64(c, &vr, 1, m, 3));
    for (int k = 0; k < 3; k++) CHECK(m[k] == k + 1, "der(x) starts at B u");
    vr = 10;
    CHECK_OK(fmi3GetFloat64(c, &vr, 1, m, 3));
    for (int k = 0; k < 3; k++) CHECK(m[k] == k + 1, "y starts at D u");
#elif defined(VP_MODEL_Feedthrough)
    R(5, 0); R(6, 0); R(7, 0); R(8, 0); R(9, 0); R(10, 0); I(19, 0); I(20, 0);
    CHECK(a_getb1(c, 27, &b) == S_OK && !b, "variable 27 has its documented start value"); b = true;
    CHECK(a_getb1(c, 28, &b) == S_OK && !b, "variable 28 has its documented start value");
    const char *s = NULL;
    CHECK(a_gets1(c, 29, &s) == S_OK && strcmp(s, "Set me!") == 0, "variable 29 has its documented start value"); s = NULL;
    CHECK(a_gets1(c, 30, &s) == S_OK && strcmp(s, "Set me!") == 0, "variable 30 has its documented start value");
#if FMI_VERSION == 3
#define N(F, T, vr, x) { T v = (T)99; VR r = vr; CHECK(fmi3Get##F(c, &r, 1, &v, 1) == fmi3OK && v == x, "variable " #vr " has its documented start value"); }
    N(Float32, float, 1, 0) N(Float32, float, 2, 0) N(Float32, float, 3, 0) N(Float32, float, 4, 0)
    N(Int8, int8_t, 11, 0) N(Int8, int8_t, 12, 0) N(UInt8, uint8_t, 13, 0) N(UInt8, uint8_t, 14, 0) N(Int16, int16_t, 15, 0) N(Int16, int16_t, 16, 0)
    N(UInt16, uint16_t, 17, 0) N(UInt16, uint16_t, 18, 0) N(UInt32, uint32_t, 21, 0) N(UInt32, uint32_t, 22, 0) N(Int64, int64_t, 23, 0) N(Int64, int64_t, 24, 0)
    N(UInt64, uint64_t, 25, 0) N(UInt64, uint64_t, 26, 0) N(Int64, int64_t, 33, 1) N(Int64, int64_t, 34, 1)
    for (VR r = 31; r <= 32; r++) {
        const fmi3Byte *p = NULL; size_t z = 0;
        CHECK(fmi3GetBinary(c, &r, 1, &z, &p, 1) == fmi3OK && z == 3 && p[0] == 'f' && p[1] == 'o' && p[2] == 'o', "the binary has its documented start value");
    }
#else
    I(33, 1); I(34, 1);
#endif
#endif
#undef R
#undef I
    CHECK(get1(c, 0, &d) == S_OK && d == 0, "the time starts at 0");
}
#endif
