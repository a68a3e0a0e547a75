/* P27: messages reach the logger as configured and unaltered */
#include <stdarg.h>
#include "api.h"
#include "model.h"
#include <stdlib.h>
#include "fmt.h"

static int env;
static char name[] = "abc";
static struct { int n; bool envOK, nameOK; int status; char cat, text[160]; size_t len; } rec;

static void record(void *e, const char *nm, int status, const char *cat, const char *text) {
    rec.n++;
    rec.envOK = e == (void *)&env;
    rec.nameOK = nm == NULL || (nm[0] == 'a' && nm[1] == 'b' && nm[2] == 'c' && nm[3] == 0);
    rec.status = status;
    const char *E = "logEvents", *S = "logStatusError";
    size_t i = 0, j = 0;
    while (E[i] && cat[i] == E[i]) i++;
    while (S[j] && cat[j] == S[j]) j++;
    rec.cat = i == 9 && !cat[9] ? 'E' : j == 14 && !cat[14] ? 'S' : '?';
    rec.len = 0;
#ifdef VP_TEXT
    for (; rec.len < VP_TEXT + 2; rec.len++) {
        rec.text[rec.len] = text[rec.len];
        if (!text[rec.len]) break;
    }
#else
    CHECK(text[0] != 0, "the message has a text");
#endif
}
#if FMI_VERSION == 3
static void on_log(fmi3InstanceEnvironment e, fmi3Status s, fmi3String c, fmi3String m) { record(e, NULL, s, c, m); }
static inst mk_log(bool on, bool logger) {
    return fmi3InstantiateModelExchange(name, INSTANTIATION_TOKEN, RESOURCES, false, on, &env, logger ? on_log : NULL);
}
#else
static void on_log(fmi2ComponentEnvironment e, fmi2String nm, fmi2Status s, fmi2String c, fmi2String m, ...) {
    if (m[0] == '%' && m[1] == 's' && m[2] == 0) {
        va_list a;
        va_start(a, m);
        record(e, nm, s, c, va_arg(a, const char *));
        va_end(a);
        return;
    }
    /* the message is a format */
#ifdef VP_TEXT
    for (size_t i = 0; i < VP_TEXT; i++) CHECK(m[i] != '%', "the text is not taken for a format");
#endif
    record(e, nm, s, c, m);
}
static fmi2CallbackFunctions cb = { on_log, calloc, free, NULL, &env };
static inst mk_log(bool on, bool logger) { (void)logger; return fmi2Instantiate(name, fmi2ModelExchange, INSTANTIATION_TOKEN, RESOURCES, &cb, false, on); }
#endif

static int set_log(inst c, bool on, size_t n, const char *const cats[]) {
#if FMI_VERSION == 3
    return fmi3SetDebugLogging(c, on, n, cats);
#else
    return fmi2SetDebugLogging(c, on, n, cats);
#endif
}

/* an error or an event happens */
static void happen(inst c, bool error, bool enabled) {
    rec.n = 0;
    if (error) logError((ModelInstance *)c, "x"); else logEvent((ModelInstance *)c, "x");
    CHECK(rec.n == (enabled ? 1 : 0), "a message is passed on exactly if its category is enabled");
    if (enabled) {
        CHECK(rec.envOK && rec.nameOK, "the logger gets the environment and the instance name");
        CHECK(rec.cat == (error ? 'S' : 'E'), "the logger gets the category of the message");
        CHECK(error ? rec.status == 3 : rec.status == 0, "the logger gets the status of the message");
    }
}

int main(void) {
#ifdef VP_TEXT
    /* any text reaches the logger unchanged */
    static char t[VP_TEXT + 1];
    for (int i = 0; i < VP_TEXT; i++) { t[i] = (char)in_u8(); ASSUME(t[i] != 0); }
#ifndef VP_REPLAY
    fmt_str[fmt_n] = t; fmt_len[fmt_n++] = VP_TEXT;
#endif
    inst c = mk_log(true, true);
    CHECK(c != NULL, "instantiated");
    rec.n = 0;
    if (VP_ERR) logError((ModelInstance *)c, "a%sb", t); else logEvent((ModelInstance *)c, "a%sb", t);
    CHECK(rec.n == 1, "the message is passed on");
    CHECK(rec.envOK && rec.nameOK && rec.cat == (VP_ERR ? 'S' : 'E'), "with its environment, name and category");
    CHECK(rec.text[0] == 'a' && rec.text[VP_TEXT + 1] == 'b', "the text is complete");
    for (int i = 0; i < VP_TEXT; i++) CHECK(rec.text[i + 1] == t[i], "the text is unaltered");
    REACH("text");
#elif defined(VP_NOLOGGER)
    inst c = mk_log(in_bool(), false);
    CHECK(c != NULL, "instantiated");
    logError((ModelInstance *)c, "x");
    logEvent((ModelInstance *)c, "x");
    double d;
    VR vr = 77777;
    CHECK(a_getr(c, &vr, 1, &d, 1) != 0, "refused");
    CHECK(rec.n == 0, "a missing logger is not called");
    REACH("nologger");
#else
    /* a history of switching categories on and off */
    bool on = in_bool(), ev = on, er = true;
    inst c = mk_log(on, true);
    CHECK(c != NULL, "instantiated");
    happen(c, true, er);
    happen(c, false, ev);
    bool bad = false;
    static char other[4];
#ifndef VP_REPLAY
    fmt_str[fmt_n] = other; fmt_len[fmt_n++] = 3;
#endif
    for (int k = 0; k < VP_CALLS; k++) {
        const char *cats[2] = { "logEvents", "logEvents" };
        bool sw = (VP_SW >> k) & 1;
        size_t n = VP_NCAT;
        for (size_t i = 0; i < n; i++) {
            unsigned w = (VP_WHICH >> (2 * i)) & 3;
            if (w == 1) cats[i] = "logStatusError";
            if (w == 2) { for (int j = 0; j < 3; j++) { other[j] = (char)in_u8(); ASSUME(other[j] != 0); } cats[i] = other; }
            if (w == 3) cats[i] = NULL;
        }
        rec.n = 0;
        int s = set_log(c, sw, n, n == 0 && in_bool() ? NULL : cats);
        bool before = er;
        if (n == 0) { ev = er = sw; }
        for (size_t i = 0; i < n && !bad; i++) {
            unsigned w = (VP_WHICH >> (2 * i)) & 3;
            if (w == 0) ev = sw;
            else if (w == 1) er = sw;
            else bad = true;
        }
        CHECK(bad ? s >= 3 : s == 0, "an unknown or missing category is an error");
        if (bad) {
            CHECK(rec.n == (er ? 1 : 0), "the error is logged if errors are");
            (void)before;
            break;
        }
        CHECK(rec.n == 0, "switching is not logged");
        happen(c, true, er);
        happen(c, false, ev);
    }
    happen(c, true, er);
    happen(c, false, ev);
    /* an error of the interface itself */
    rec.n = 0;
    double d;
    VR vr = 777;
    if (!bad) {
        CHECK_OK(a_enter_init(c, 0));
        CHECK(a_getr(c, &vr, 1, &d, 1) != 0, "refused");
        CHECK(er ? rec.n >= 1 && rec.cat == 'S' && rec.status == 3 : rec.n == 0, "an error of a call is logged if errors are");
    }
    REACH("switched");
#endif
    return 0;
}
