/* P08: sizes of serialized states; P07 (-DVP_NOSTATE): restoring without a state */
#include "api.h"
int main(void) {
    inst c = mk(VP_KIND);
    CHECK(c != NULL, "instantiated");
#ifdef VP_NOSTATE
    CHECK(a_restore(c, NULL) == S_ERROR, "restoring without a state is an error");
#else
    fstate s = NULL, t = NULL;
    size_t n = 0, m = in_u64();
    CHECK_OK(a_save(c, &s));
    CHECK_OK(a_size(c, s, &n));
    ASSUME(m != n);
    unsigned char buf[4] = {1, 2, 3, 4};
    switch (in_range(0, 2)) {
    case 0:
        CHECK(a_ser(c, s, buf, m) == S_ERROR, "serializing into a buffer of another size is refused");
        for (int i = 0; i < 4; i++) CHECK(buf[i] == i + 1, "the buffer is untouched");
        break;
    case 1:
        CHECK(a_deser(c, buf, m, &t) == S_ERROR, "deserializing a buffer of another size is refused");
        CHECK(t == NULL, "no state is created");
        break;
    case 2:
        CHECK(a_ser(c, NULL, buf, n) == S_ERROR, "serializing without a state is refused");
        break;
    }
#endif
    REACH("refused");
    return 0;
}
