/* P36: importer instance and its log buffer with memory that may be refused */
#include "vp.h"
#include "FMI.h"
#include "fmt.h"
#include "alloc.h"
int main(void) {
#ifdef VP_GROW
    /* a small buffer; enlarging it may be refused, any number of times */
    FMIInstance in = { 0 }, *m = &in;
    m->logMessageBufferSize = 8;
    m->logMessageBuffer = malloc(8);
    ASSUME(m->logMessageBuffer);
    live = 1;
    FMIClearLogMessageBuffer(m);
    for (int i = 0; i < 3; i++) FMIAppendToLogMessageBuffer(m, "%s", "abcde");
    const double v[2] = { 1, 2 };
    FMIAppendArrayToLogMessageBuffer(m, v, 2, NULL, FMIFloat64Type);
    size_t n = 0;
    while (n < 40 && m->logMessageBuffer[n]) n++;
    CHECK(n < m->logMessageBufferSize, "the text stays terminated inside the buffer");
    REACH("appended");
    vpa_free(m->logMessageBuffer);
    CHECK(live == 0, "everything is released");
    return 0;
#else
    FMIInstance *m = FMICreateInstance("m", NULL, NULL);
    if (refused) CHECK(m == NULL, "an instance without memory is refused");
    else CHECK(m != NULL, "created");
    if (!m) {
        CHECK(live == 0, "a refused instance leaves nothing behind");
        REACH("refused");
        return 0;
    }
    FMIFreeInstance(m);
    CHECK(live == 0, "everything is released");
    return 0;
#endif
}
