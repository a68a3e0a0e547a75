/* P07 (state save and restore), P08 (-DVP_SERIAL), P09 (-DVP_RESET), P10 (-DVP_ISO): an instance whose history
 * contains calls that must leave no trace is compared with one that never saw them. */
#include "hist.h"
#if !defined(VP_REPLAY)
void *vp_buffer(size_t n);   /* malloc, see wrap.c */
#endif

#if FMI_VERSION == 3
#define READABLE(m) true
#else
#define READABLE(m) ((m) != M_INST)
#endif

static void compare(inst c, inst d, int kind, unsigned mode) {
#if defined(VP_PROBE)
    unsigned k = in_range(0, 9);
#if FMI_VERSION == 2
    ASSUME(k != 3 && k != 4 && k != 5 && k != 8);
#endif
    CHECK(probe(c, k) == probe(d, k), "the instance is in the same mode");
#elif defined(VP_SYMVALS)
    struct view o1, o2;
#if FMI_VERSION == 2
    if (mode == M_INST) { CHECK_OK(a_enter_init(c, 0)); CHECK_OK(a_enter_init(d, 0)); }
#endif
    observe(c, &o1); observe(d, &o2);
    views_agree(&o1, &o2, NONE);
#else
    static struct record r1, r2;
    resume(c, kind, mode, &r1); resume(d, kind, mode, &r2);
    records_agree(&r1, &r2);
#endif
    (void)kind; (void)mode;
    REACH("compared");
}

#ifdef VP_SERIAL
/* a copy of the state by way of its serialized bytes; the original is freed */
static fstate old;   /* VP_EXISTING: a state from before that is overwritten */
static fstate through_bytes(inst c, fstate s) {
    size_t n = 0;
    CHECK_OK(a_size(c, s, &n));
    unsigned char *buf;
#ifdef VP_REPLAY
    buf = malloc(n);
#else
    buf = vp_buffer(n);
    ASSUME(buf);
#endif
    CHECK_OK(a_ser(c, s, buf, n));
    CHECK_OK(a_freestate(c, &s));
    fstate t = old;
    CHECK_OK(a_deser(c, buf, n, &t));
    CHECK(t != NULL, "a state is returned");
    free(buf);
    return t;
}
#endif

int main(void) {
    const int kind = VP_KIND;
    const unsigned mode = VP_MODE;
#ifdef VP_ISO
    /* the reference run is over before the two interfering instances exist */
    inst d = mk(kind);
    CHECK(d != NULL, "instantiated");
    near_event(d);
    prefix(d, kind, mode);
    static struct record r1, r2;
    resume(d, kind, mode, &r2);
    a_free(d);
    inst e = mk(kind), c = mk(kind);
    CHECK(c && e, "instantiated");
    near_event(c);
    scramble(e, kind, M_INST);
#if VP_DIST == 0
    prefix(c, kind, mode);
    prefix(e, kind, mode);
#else
    prefix(e, kind, mode);
    prefix(c, kind, mode);
#endif
    disturb(e, kind, mode, VP_DIST);
#if VP_DIST == 2
    a_free(e);
#endif
    resume(c, kind, mode, &r1);
    records_agree(&r1, &r2);
    REACH("compared");
#else
    inst c = mk(kind), d = mk(kind);
    CHECK(c && d, "instantiated");
#ifdef VP_RESET
    near_event(c);
#ifdef VP_EARLIER
    scramble(c, kind, M_INST);
    prefix(c, kind, mode);
#else
    prefix(c, kind, mode);
    disturb(c, kind, mode, VP_DIST);
#endif
    CHECK_OK(a_reset(c));
    compare(c, d, kind, M_INST);
#else
#ifdef VP_SYMVALS
    symbolic_values(c, d);
    to_mode(c, kind, mode); to_mode(d, kind, mode);
#else
    near_event(c); near_event(d);
    fstate s = NULL;
    CHECK_OK(a_save(c, &s));
#ifdef VP_EXISTING
    CHECK_OK(a_save(c, &old));
#endif
    prefix(c, kind, mode); prefix(d, kind, mode);
#endif
#ifdef VP_SYMVALS
    fstate s = NULL;
#endif
    CHECK_OK(a_save(c, &s));
    CHECK(s != NULL, "a state is returned");
#ifdef VP_SERIAL
    s = through_bytes(c, s);
#endif
    disturb(c, kind, mode, VP_DIST);
    CHECK_OK(a_restore(c, s));
#ifndef VP_SERIAL
    disturb(c, kind, mode, 2);
    CHECK_OK(a_restore(c, s));
#endif
    CHECK_OK(a_freestate(c, &s));
    CHECK(s == NULL, "a freed state is gone");
    compare(c, d, kind, mode);
#endif
#endif
    return 0;
}
