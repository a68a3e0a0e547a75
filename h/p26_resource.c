/* P26: the resource file is looked up at the given location */
#include "api.h"
#include <stdlib.h>
#include <string.h>

/* VP_PAT: c = any character other than '%' and zero, H = percent-encoded character, a = 'a' */
static const char pat[] = VP_PAT;
#define NP (sizeof(pat) - 1)

static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

static char loc[8 + 3 * NP + 2], want[3 * NP + 16];

/* initialize and read; the initialization may already report the error */
static int init_and_read(inst c, int32_t *y) {
    CHECK_OK(a_enter_init(c, 0));
#if VP_MODE == 1
    int s = a_exit_init(c);
    if (s) return s;
#endif
    return geti1(c, 1, y);
}

static inst mk_at(const char *l) {
#if FMI_VERSION == 3
    return VP_KIND == ME ? fmi3InstantiateModelExchange("m", INSTANTIATION_TOKEN, l, false, false, NULL, NULL)
                         : fmi3InstantiateCoSimulation("m", INSTANTIATION_TOKEN, l, false, false, false, false, NULL, 0, NULL, NULL, NULL);
#else
    return fmi2Instantiate("m", VP_KIND == ME ? fmi2ModelExchange : fmi2CoSimulation, INSTANTIATION_TOKEN, l, &api_cb, false, false);
#endif
}

int main(void) {
    size_t n = 0, k = 0;
    int32_t y = -77;
#if FMI_VERSION == 2 && !defined(VP_BAD)
    const char *s = VP_SCHEME == 1 ? "file:///" : "file:/";
    for (; s[n]; n++) loc[n] = s[n];
    want[k++] = '/';
#endif
    for (size_t i = 0; i < NP; i++) {
        char c = 'a';
        if (pat[i] == 'c') {
            c = (char)in_u8();
            ASSUME(c != 0 && c != '%');
#if FMI_VERSION == 2
            if (i == 0) ASSUME(c != '/');
#endif
            loc[n++] = want[k++] = c;
        } else if (pat[i] == 'H') {
            char h = (char)in_u8(), l = (char)in_u8();
            ASSUME(hex(h) >= 0 && hex(l) >= 0 && hex(h) + hex(l) > 0);
            loc[n++] = '%'; loc[n++] = h; loc[n++] = l;
#if FMI_VERSION == 2
            want[k++] = (char)(hex(h) * 16 + hex(l));
#else
            want[k++] = '%'; want[k++] = h; want[k++] = l;         /* a path, not a URI */
#endif
        } else {
            loc[n++] = want[k++] = c;
        }
    }
    loc[n] = 0;
#if FMI_VERSION == 2
    want[k++] = '/';
#endif
    const char *y_txt = "y.txt";
    for (int i = 0; i < 6; i++) want[k++] = y_txt[i];

#ifdef VP_BAD
    /* not a file URI, or none at all */
#if VP_BAD == 1
    ASSUME(!(loc[0] == 'f' && loc[1] == 'i' && loc[2] == 'l' && loc[3] == 'e' && loc[4] == ':' && loc[5] == '/'));
    inst c = mk_at(loc);
#else
    inst c = mk_at(NULL);
#endif
    if (c) {
        CHECK(init_and_read(c, &y) >= 3, "a missing or malformed location is an error");
        a_free(c);
    }
    CHECK(io_tries == 0, "no file is opened");
    REACH("refused");
#else
    inst c = mk_at(loc);
    CHECK(c != NULL, "instantiated");
    for (size_t i = 0; i <= n; i++) loc[i] = 'x';           /* the importer reuses its buffer */
    io_char = in_u8();
    io_fail = in_bool();
    int s1 = init_and_read(c, &y);
    int first = io_tries;
    CHECK(first > 0, "the file is looked up");
    for (size_t i = 0; i < k; i++) CHECK(io_path[i] == want[i], "the documented file inside the resource location is opened");
    CHECK(io_opens == io_closes, "every opened file is closed");
    if (io_fail) {
        CHECK(s1 >= 3, "a file that cannot be opened is an error");
        REACH("unreadable");
    } else {
        CHECK(s1 == 0, "a readable file is not an error");
        CHECK((y & 0xff) == io_char, "the value is the first character of the file");
        REACH("read");
#ifdef VP_AGAIN
        /* read again, with the file gone or not */
        io_fail = in_bool();
        y = -77;
        int s2 = geti1(c, 1, &y), t = io_tries;
        CHECK(io_opens == io_closes, "every opened file is closed");
        if (s2 == 0) CHECK((y & 0xff) == io_char, "the value is the first character of the file");
        else CHECK(io_fail, "a readable file is not an error");
        if (io_fail && t > first) CHECK(s2 >= 3, "a file that cannot be opened is an error");
        if (s2) return 0;
        io_fail = false;
#endif
#if defined(VP_AGAIN) && VP_KIND == 1 && VP_MODE == 1
        CHECK_OK(a_dostep(c, 0, 0.1));
        CHECK_OK(geti1(c, 1, &y));
        CHECK((y & 0xff) == io_char, "the value is the first character of the file");
#endif
    }
    a_free(c);
    CHECK(io_opens == io_closes, "every opened file is closed");
#endif
    return 0;
}
