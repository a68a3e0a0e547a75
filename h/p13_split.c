/* P13: an interval covered in one step and in several; VP_PARTS lists the parts in internal steps, VP_TOTAL their sum */
#include "vars.h"
int main(void) {
    inst c = mk(CS), d = mk(CS);
    CHECK(c && d, "instantiated");
    symbolic_values(c, d);
    CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_exit_init(c));
    CHECK_OK(a_enter_init(d, 0)); CHECK_OK(a_exit_init(d));
    static const int parts[] = { VP_PARTS };
    int s1 = a_dostep(d, 0, VP_TOTAL * STEP), k = 0, s2 = S_OK;
    for (unsigned i = 0; i < sizeof(parts) / sizeof(parts[0]); i++) {
        if (s2 == S_OK) s2 = a_dostep(c, k * STEP, parts[i] * STEP);
        k += parts[i];
    }
    CHECK(s1 == s2, "the steps succeed alike");
    struct view o1, o2;
    observe(c, &o1); observe(d, &o2);
    views_agree(&o1, &o2, NONE);
    REACH("compared");
    return 0;
}
