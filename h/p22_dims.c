/* P22: structural parameters. VP_WHAT: 0 any 64-bit value for any of them, 1 sizes determined by dimensions VP_M, VP_N, VP_R, 2 outside of the configuration modes */
#include "vars.h"
static const VR S[3] = { 1, 2, 3 };
static void dims(inst c, uint64_t *d) { CHECK_OK(fmi3GetUInt64(c, S, 3, d, 3)); }
int main(void) {
    inst c = mk(VP_KIND);
    CHECK(c != NULL, "instantiated");
#if VP_WHAT == 1
#if VP_MODE == 2
    CHECK_OK(fmi3EnterConfigurationMode(c));
#else
    to_mode(c, VP_KIND, VP_MODE);
#endif
    /* in several calls, in any order, each on its own */
    uint64_t d[3] = { VP_M, VP_N, VP_R }, e[3];
#if VP_ONEBYONE
    for (int i = 2; i >= 0; i--) CHECK_OK(fmi3SetUInt64(c, &S[i], 1, &d[i], 1));
#else
    CHECK_OK(fmi3SetUInt64(c, S, 3, d, 3));
#endif
    CHECK_OK(fmi3ExitConfigurationMode(c));
    dims(c, e);
    for (int i = 0; i < 3; i++) CHECK(d[i] == e[i], "dimensions as set");
#if VP_MODE == 2
    CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_exit_init(c));
#endif
    size_t nx = 99, nz = 99;
    if (VP_KIND == ME) {
        CHECK_OK(fmi3GetNumberOfContinuousStates(c, &nx)); CHECK(nx == VP_N, "number of states");
        CHECK_OK(fmi3GetNumberOfEventIndicators(c, &nz)); CHECK(nz == 0, "no event indicators");
    }
    static const size_t size[] = { VP_N * VP_N, VP_N * VP_M, VP_R * VP_N, VP_R * VP_M, VP_N, VP_M, VP_R, VP_N, VP_N };
    unsigned v = in_range(4, 12), k = in_range(0, 26);
    VR vr = v;
    double buf[26];
    for (int i = 0; i < 26; i++) buf[i] = 1;
    bool fits = k == size[v - 4];
    bool write = in_bool();
    bool settable = v <= 9 || (v == 11 && VP_KIND == ME);
    int st = write ? fmi3SetFloat64(c, &vr, 1, buf, k) : fmi3GetFloat64(c, &vr, 1, buf, k);
    CHECK((st == S_OK) == (fits && (!write || settable)), "exactly the number of elements the dimensions determine is accepted");
    REACH("sizes");
#elif VP_WHAT == 0
    to_mode(c, VP_KIND, VP_MODE);
    uint64_t before[3], after[3], v = in_u64();
    unsigned i = in_range(0, 2);
    dims(c, before);
    int st = fmi3SetUInt64(c, &S[i], 1, &v, 1);
    CHECK((st == S_OK) == (v <= 5), "exactly the documented range is accepted");
    dims(c, after);
    for (unsigned j = 0; j < 3; j++) CHECK(after[j] == (j == i && v <= 5 ? v : before[j]), "only the given dimension changes, and only if accepted");
    REACH("set");
#else
    to_mode(c, VP_KIND, VP_MODE);
    uint64_t before[3], after[3], v = in_u64();
    unsigned i = in_range(0, 2);
    dims(c, before);
    CHECK(fmi3SetUInt64(c, &S[i], 1, &v, 1) == fmi3Error, "refused outside of the configuration modes");
    dims(c, after);
    for (unsigned j = 0; j < 3; j++) CHECK(after[j] == before[j], "nothing changes");
    REACH("refused");
#endif
    return 0;
}
