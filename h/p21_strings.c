/* P21: string and binary variables of Feedthrough: complete independent copies within the limits */
#include "api.h"
#include <string.h>

#define SIN 29
#define SOUT 30
#define BIN 31
#define BOUT 32
#define SMAX 128            /* a string has to be shorter */
#define BMAX 32             /* a binary may not be longer */

/* string of the job's length with any bytes other than zero */
static char a[VP_N + 1], b[VP_N2 + 1];
static void any_string(char *s, size_t n) {
    for (size_t i = 0; i < n; i++) {
        s[i] = (char)in_u8();
#ifndef VP_BINARY
        ASSUME(s[i] != 0);
#endif
    }
    s[n] = 0;
}

static void expect_string(inst c, VR vr, const char *w, size_t n) {
    const char *v = NULL;
    CHECK_OK(a_gets1(c, vr, &v));
    CHECK(v != NULL, "a string is handed out");
    CHECK(v != w, "the string is a copy");
    for (size_t i = 0; i < n; i++) CHECK(v[i] == w[i], "the string is read back as it was set");
    CHECK(v[n] == 0, "the string is terminated after its last character");
}
#if FMI_VERSION == 3
static int set_bin(inst c, const void *p, size_t n) { VR vr = BIN; const fmi3Binary q = p; return fmi3SetBinary(c, &vr, 1, &n, &q, 1); }
static void expect_bin(inst c, VR vr, const char *w, size_t n) {
    fmi3Binary v = NULL; size_t s = 99;
    CHECK_OK(fmi3GetBinary(c, &vr, 1, &s, &v, 1));
    CHECK(s == n, "the binary has the size that was set");
    CHECK(v != NULL || n == 0, "a binary is handed out");
    for (size_t i = 0; i < n; i++) CHECK(v[i] == (fmi3Byte)w[i], "the binary is read back as it was set");
}
#endif

int main(void) {
    inst c = mk(VP_KIND);
    CHECK(c != NULL, "instantiated");
    any_string(a, VP_N);
    any_string(b, VP_N2);
#if VP_MODE >= 1
    CHECK_OK(a_enter_init(c, 0));
#endif
#if VP_MODE >= 2
    CHECK_OK(a_exit_init(c));
#endif
    char keep[VP_N + 1];
    for (size_t i = 0; i <= VP_N; i++) keep[i] = a[i];
#ifdef VP_BINARY
#define SET(p, n) set_bin(c, p, n)
#define EXPECT(vr, w, n) expect_bin(c, vr, w, n)
#define VIN BIN
#define VOUT BOUT
#else
#define SET(p, n) a_sets1(c, SIN, p)
#define EXPECT(vr, w, n) expect_string(c, vr, w, n)
#define VIN SIN
#define VOUT SOUT
#endif
    CHECK_OK(SET(a, VP_N));
    for (size_t i = 0; i <= VP_N; i++) a[i] = 'x';      /* the caller reuses its buffer */
    EXPECT(VIN, keep, VP_N);
    EXPECT(VOUT, keep, VP_N);
    EXPECT(VIN, keep, VP_N);
    /* a second value: shorter, longer or too long */
#ifdef VP_TOOLONG
    CHECK(SET(b, VP_N2) >= 3, "a value beyond the limit is refused");
    CHECK_OK(a_reset(c));
    CHECK_OK(a_enter_init(c, 0));
    CHECK_OK(SET(keep, VP_N));
    EXPECT(VIN, keep, VP_N);
    EXPECT(VOUT, keep, VP_N);
    REACH("refused");
#else
    CHECK_OK(SET(b, VP_N2));
    EXPECT(VOUT, b, VP_N2);
    EXPECT(VIN, b, VP_N2);
    REACH("replaced");
#endif
#if VP_MODE >= 2 && VP_KIND == 1 && !defined(VP_TOOLONG)
    CHECK_OK(a_dostep(c, 0, VP_STEP));
    EXPECT(VOUT, b, VP_N2);
#endif
    a_free(c);
    return 0;
}
