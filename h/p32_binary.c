/* P32: FMIPlatformBinaryPath. VP_D, VP_M: lengths of directory and model name; VP_LAST: kind of the directory's last character */
#include "vp.h"
#include "FMI.h"
#include "fmt.h"
#define CAP (VP_D + VP_M + 40)
static char want[CAP];
static unsigned n;
static void w(const char *s) { while (*s) want[n++] = *s++; }
static char *name(unsigned l) {
    char *s = malloc(l + 1);
    ASSUME(s);
    for (unsigned i = 0; i < l; i++) { s[i] = (char)in_u8(); ASSUME(s[i] != 0); }
    s[l] = 0;
#ifndef VP_REPLAY
    fmt_str[fmt_n] = s; fmt_len[fmt_n++] = l;
#endif
    return s;
}
int main(void) {
    char *d = name(VP_D), *m = name(VP_M), out[CAP];
    bool sep = VP_LAST == 2;
#if VP_D > 0
#if VP_LAST == 0
    d[VP_D - 1] = '/';
#elif VP_LAST == 1
    d[VP_D - 1] = '\\';
#else
    ASSUME(d[VP_D - 1] != '/' && d[VP_D - 1] != '\\');
#endif
#else
    sep = false;
#endif
    for (int i = 0; i < VP_D; i++) want[n++] = d[i];
    if (sep) w("/");
    w("binaries/");
    w(VP_VER < 3 ? (sizeof(void *) == 8 ? "linux64" : "linux32") : (sizeof(void *) == 8 ? "x86_64-linux" : "x86-linux"));
    w("/");
    for (int i = 0; i < VP_M; i++) want[n++] = m[i];
    w(".so");
    unsigned size = in_range(0, CAP - 4);
    for (int i = 0; i < CAP; i++) out[i] = '\x7f';
    FMIStatus s = FMIPlatformBinaryPath(d, m, (FMIMajorVersion)VP_VER, out, size);
    for (unsigned i = 0; i < CAP; i++) if (i >= size) CHECK(out[i] == '\x7f', "nothing is written beyond the buffer");
    if (size < n + 1) {
        CHECK(s == FMIError, "a buffer that is too small is reported");
        REACH("refused");
    } else {
        CHECK(s == FMIOK, "a buffer that is large enough is accepted");
        for (unsigned i = 0; i < n; i++) CHECK(out[i] == want[i], "path is composed of directory, platform, name and extension");
        CHECK(out[n] == 0, "path is terminated");
        REACH("composed");
    }
    free(d); free(m);
    return 0;
}
