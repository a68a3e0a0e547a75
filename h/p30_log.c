/* P30: log message buffer of the importer. VP_WHAT: 0 strings, 1 arrays of VP_TYPE, 2 the buffer as created. */
#include "vp.h"
#include "FMI.h"
#ifndef VP_S
#define VP_S 4
#endif
#ifndef VP_DIGITS
#define VP_DIGITS 1
#define VP_NEG 0
#endif
#include "fmt.h"
static char want[2200];
static size_t nwant;
static void w(const char *s) { for (size_t i = 0; s[i]; i++) want[nwant++] = s[i]; want[nwant] = '\0'; }
static void wc(char c) { want[nwant++] = c; want[nwant] = '\0'; }
static void is_complete(FMIInstance *m, size_t from) {
    const char *b = m->logMessageBuffer;
    for (size_t i = from; i < nwant; i++) CHECK(b[i] == want[i], "text is stored completely");
    CHECK(b[nwant] == '\0', "text is terminated at its end");
}
/* any string of length l */
static void str(char *s, unsigned l) {
    for (unsigned i = 0; i < l; i++) { s[i] = (char)in_u8(); ASSUME(s[i] != 0); }
    s[l] = 0;
#ifndef VP_REPLAY
    fmt_str[fmt_n] = s; fmt_len[fmt_n++] = l;
#endif
}
static void ws(const char *s, unsigned l) { for (unsigned i = 0; i < l; i++) wc(s[i]); }
#if VP_WHAT == 1
#define N 2
#if VP_TYPE == 0
typedef float T;
#define FT FMIFloat32Type
#define VAL (T)in_range(0, 9)
#elif VP_TYPE == 1
typedef double T;
#define FT FMIFloat64Type
#define VAL (T)in_range(0, 9)
#elif VP_TYPE == 2
typedef int8_t T;
#define FT FMIInt8Type
#define VAL in_i8()
#elif VP_TYPE == 3
typedef uint8_t T;
#define FT FMIUInt8Type
#define VAL in_u8()
#elif VP_TYPE == 4
typedef int16_t T;
#define FT FMIInt16Type
#define VAL in_i16()
#elif VP_TYPE == 5
typedef uint16_t T;
#define FT FMIUInt16Type
#define VAL in_u16()
#elif VP_TYPE == 6
typedef int32_t T;
#define FT FMIInt32Type
#define VAL in_i32()
#elif VP_TYPE == 7
typedef uint32_t T;
#define FT FMIUInt32Type
#define VAL in_u32()
#elif VP_TYPE == 8
typedef int64_t T;
#define FT FMIInt64Type
#define VAL in_i64()
#elif VP_TYPE == 9
typedef uint64_t T;
#define FT FMIUInt64Type
#define VAL in_u64()
#elif VP_TYPE == 10
#if VP_MAJOR == 1
typedef char T;
#elif VP_MAJOR == 2
typedef int T;
#else
typedef bool T;
#endif
#define FT FMIBooleanType
#define VAL in_range(0, 1)
#elif VP_TYPE == 11
typedef const char *T;
#define FT FMIStringType
#define STRINGS 1
#elif VP_TYPE == 12
typedef const unsigned char *T;
#define FT FMIBinaryType
#define BINARIES 1
#elif VP_TYPE == 13
typedef bool T;
#define FT FMIClockType
#define VAL in_range(0, 1)
#elif VP_TYPE == 14
typedef FMIValueReference T;
#define FT FMIValueReferenceType
#define VAL in_u32()
#else
typedef size_t T;
#define FT FMISizeTType
#define VAL in_u64()
#endif
static void number(long long v) {
    ASSUME((v < 0) == VP_NEG);
    if (VP_NEG) { wc('-'); v = -v; }
    ASSUME(v < (VP_DIGITS == 1 ? 10 : 1000) && v >= (VP_DIGITS == 1 ? 0 : 100));
    if (VP_DIGITS == 3) { wc('0' + v / 100 % 10); wc('0' + v / 10 % 10); }
    wc('0' + v % 10);
}
#endif
int main(void) {
    FMIInstance *m;
#if VP_WHAT == 2
    m = FMICreateInstance("m", NULL, NULL);
    CHECK(m != NULL, "created");
#else
    FMIInstance in = { 0 };
    m = &in;
    m->logMessageBufferSize = VP_S;
    m->logMessageBuffer = malloc(VP_S);
    ASSUME(m->logMessageBuffer);
    m->logMessageBuffer[0] = 'x';
#ifdef VP_MAJOR
    m->fmiMajorVersion = VP_MAJOR;
#endif
#endif
    FMIClearLogMessageBuffer(m);
    CHECK(m->logMessageBuffer[0] == '\0', "a cleared buffer is empty");
#if VP_WHAT == 0
    char a[VP_LA + 1], b[VP_LB + 1];
    str(a, VP_LA); str(b, VP_LB);
    FMIAppendToLogMessageBuffer(m, "%s", a);
    ws(a, VP_LA);
    is_complete(m, 0);
    FMIAppendToLogMessageBuffer(m, "<%s>", b);
    wc('<'); ws(b, VP_LB); wc('>');
    is_complete(m, 0);
    FMIAppendToLogMessageBuffer(m, "%d,%zu", 7, (size_t)8);
    w("7,8");
    is_complete(m, 0);
    FMIClearLogMessageBuffer(m);
    CHECK(m->logMessageBuffer[0] == '\0', "a cleared buffer is empty");
    FMIAppendToLogMessageBuffer(m, "z");
    nwant = 0; wc('z');
    is_complete(m, 0);
    REACH("strings");
#elif VP_WHAT == 1
    static const char *fill[] = { "", "1", "12", "123", "1234", "12345", "123456", "1234567", "12345678", "123456789" };
    FMIAppendToLogMessageBuffer(m, "%s", fill[VP_FILL]);
    w(fill[VP_FILL]);
    T v[N];
    size_t sizes[N] = { 0 }, n = VP_N;
#ifdef STRINGS
    char s0[4], s1[4];
    str(s0, VP_LA); str(s1, VP_LA);
    v[0] = s0; v[1] = s1;
    for (size_t i = 0; i < n; i++) { if (i) w(", "); wc('"'); ws(i ? s1 : s0, VP_LA); wc('"'); }
#elif defined(BINARIES)
    unsigned char s[N][2];
    for (int i = 0; i < N; i++) { sizes[i] = VP_LA; s[i][0] = in_u8(); s[i][1] = in_u8(); v[i] = s[i]; }
    for (size_t i = 0; i < n; i++) { if (i) w(", "); w("0x"); for (int j = 0; j < 2; j++) if (j < sizes[i]) { wc("0123456789abcdef"[s[i][j] / 16]); wc("0123456789abcdef"[s[i][j] % 16]); } }
#else
    for (size_t i = 0; i < N; i++) v[i] = VAL;
    for (size_t i = 0; i < n; i++) { if (i) w(", "); number((long long)v[i]); }
#endif
    FMIAppendArrayToLogMessageBuffer(m, v, n, sizes, FT);
    is_complete(m, 0);
    FMIAppendToLogMessageBuffer(m, ")");
    wc(')');
    is_complete(m, 0);
    REACH("array");
#else
    /* as after VP_L characters of earlier text */
    memset(m->logMessageBuffer, 'f', VP_L);
    m->logMessageBuffer[VP_L] = '\0';
    m->logMessageBufferPosition = VP_L;
    nwant = VP_L;
    for (int i = VP_L > 3 ? VP_L - 3 : 0; i < VP_L; i++) want[i] = 'f';
    double v[2] = { in_range(0, 9), in_range(0, 9) };
    FMIAppendArrayToLogMessageBuffer(m, v, 2, NULL, FMIFloat64Type);
    wc('0' + (int)v[0]); w(", "); wc('0' + (int)v[1]);
    is_complete(m, VP_L > 3 ? VP_L - 3 : 0);
    FMIAppendToLogMessageBuffer(m, "ab");
    w("ab");
    is_complete(m, VP_L > 3 ? VP_L - 3 : 0);
    FMIFreeInstance(m);
    REACH("created");
#endif
    return 0;
}
