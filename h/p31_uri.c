/* P31: FMIPathToURI for every path of VP_N bytes and every buffer size */
#include "vp.h"
#include "FMI.h"
#include "fmt.h"
#define CAP (7 + 3 * VP_N + 12)
static bool legal(unsigned char c) {
    if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9')) return true;
    const char *o = "-._~:/?#[]@!$&'()*+,;=";
    for (int i = 0; o[i]; i++) if (c == (unsigned char)o[i]) return true;
    return false;
}
static int digit(char c) {
    return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
}
int main(void) {
    char path[VP_N + 1], uri[CAP];
    for (int i = 0; i < VP_N; i++) { path[i] = (char)in_u8(); ASSUME(path[i] != 0); }
    path[VP_N] = 0;
#ifndef VP_REPLAY
    fmt_str[0] = path; fmt_len[0] = VP_N; fmt_n = 1;
#endif
    unsigned size = in_range(0, CAP - 4), need = 7;
    for (int i = 0; i < CAP; i++) uri[i] = '\x7f';
    for (int i = 0; i < VP_N; i++) need += legal((unsigned char)path[i]) ? 1 : 3;
    need++;
    FMIStatus s = FMIPathToURI(path, uri, size);
    for (unsigned i = 0; i < CAP; i++) if (i >= size) CHECK(uri[i] == '\x7f', "nothing is written beyond the buffer");
    CHECK(s == FMIOK || s == FMIError, "documented status");
    if (size < need) CHECK(s == FMIError, "a buffer that is too small is reported");
    if (size >= need + 2) CHECK(s == FMIOK, "a buffer that is large enough is accepted");
    if (s == FMIOK) {
        const char *scheme = "file://";
        for (int i = 0; i < 7; i++) CHECK(uri[i] == scheme[i], "starts with the file scheme");
        unsigned p = 7;
        for (int i = 0; i < VP_N; i++) {
            unsigned char c = (unsigned char)path[i];
            if (legal(c)) {
                CHECK(uri[p] == path[i], "legal characters are kept");
                p++;
            } else {
                CHECK(uri[p] == '%', "other characters are percent encoded");
                CHECK(digit(uri[p + 1]) == c >> 4 && digit(uri[p + 2]) == (c & 15), "encoded by two hexadecimal digits of the byte value");
                p += 3;
            }
        }
        CHECK(uri[p] == 0, "ends after the path");
        REACH("converted");
    } else {
        REACH("refused");
    }
    return 0;
}
