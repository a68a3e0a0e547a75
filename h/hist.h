/* Call histories shared by the properties that compare an instance with a reference instance:
 * a prefix that brings an instance into a mode, disturbances, and a continuation whose every result is recorded. */
#ifndef HIST_H
#define HIST_H
#include "vars.h"

#ifndef VP_T0
#define VP_T0 0
#endif
/* internal steps of the prefix and continuation */
#if defined(VP_MODEL_Stair)
#define PRE 4
#define SUF 2
#else
#define PRE 1
#define SUF 2
#endif

static double now_of(inst c) { double t = 0; CHECK_OK(get1(c, 0, &t)); return t; }

/* concrete values in the neighbourhood of an event, in instantiated mode */
static void near_event(inst c) {
#if defined(VP_MODEL_BouncingBall)
    CHECK_OK(set1(c, 1, 0.0025)); CHECK_OK(set1(c, 3, -1)); CHECK_OK(set1(c, 6, 0.5));
#elif defined(VP_MODEL_Stair)
    CHECK_OK(seti1(c, 1, VP_COUNTER));
#elif defined(VP_MODEL_Dahlquist)
    CHECK_OK(set1(c, 1, 3)); CHECK_OK(set1(c, 3, 0.5));
#elif defined(VP_MODEL_VanDerPol)
    CHECK_OK(set1(c, 1, 3)); CHECK_OK(set1(c, 3, 0.5)); CHECK_OK(set1(c, 5, 2));
#elif defined(VP_MODEL_Roberts)
    CHECK_OK(set1(c, 2, 0.5)); CHECK_OK(set1(c, 4, 0.25));
#elif defined(VP_MODEL_Clocks)
    CHECK_OK(seti1(c, 2006, 7));
#elif defined(VP_MODEL_StateSpace)
    VR vr = 4; double a[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9};
    CHECK_OK(fmi3SetFloat64(c, &vr, 1, a, 9));
#endif
    (void)c;
}

/* to a mode of the list in vars.h, in CS step mode after PRE internal steps */
static void prefix(inst c, int kind, unsigned mode) {
    if (mode == M_INST) return;
#if FMI_VERSION == 3
    if (mode == M_CONF) { CHECK_OK(fmi3EnterConfigurationMode(c)); return; }
#endif
    CHECK_OK(a_enter_init_stop(c, VP_T0, true, VP_T0 + 100 * STEP));
    if (mode == M_INIT) return;
    CHECK_OK(a_exit_init(c));
#if FMI_VERSION == 3
    if (kind == CSE && (mode & (M_STEP | M_TERM))) CHECK_OK(fmi3EnterStepMode(c));
    if (kind == SE && (mode & (M_CLK | M_TERM))) CHECK_OK(fmi3ActivateModelPartition(c, 1001, 1));
#endif
    if (kind == CS || (kind == CSE && (mode & (M_STEP | M_TERM)))) CHECK_OK(a_dostep(c, VP_T0, PRE * STEP));
    if (mode == M_TERM) { CHECK_OK(a_term(c)); return; }
    if (kind == ME) {
        CHECK_OK(a_settime(c, VP_T0 + PRE * STEP));
        struct einfo e;
        CHECK_OK(a_event(c, &e));
        if (mode == M_CT) CHECK_OK(a_enter_ct(c));
    }
#if FMI_VERSION == 3
    if (mode == M_RECONF) CHECK_OK(fmi3EnterConfigurationMode(c));
#endif
}

/* set every variable that may be set now to a symbolic value */
static void scramble(inst c, int kind, unsigned mode) {
#define V(T, vr, n, acc) if (mode_ok(A_##acc, T_##T, kind, mode) && A_##acc != A_STRUCT) { \
        struct val x; if (limited(T_##T, vr)) concrete(&x); else sym(&x, T_##T, n); CHECK_OK(set_##T(c, vr, &x, n)); }
    VARS(V)
#undef V
#ifdef VP_MODEL_StateSpace
    if (mode & (M_CONF | M_RECONF)) { VR s[3] = {1, 2, 3}; uint64_t d[3] = {1, 2, 1}; CHECK_OK(fmi3SetUInt64(c, s, 3, d, 3)); }
#endif
}

/* calls that must be undone by restoring, resetting, or that go to another instance */
static void disturb(inst c, int kind, unsigned mode, int op) {
    double bad; VR none = 0xfffff0;
    switch (op) {
    case 0: scramble(c, kind, mode); break;
    case 1:   /* advance */
        if (kind == ME && (mode & (M_EVENT | M_CT))) {
            struct einfo e; double x[NX + 1];
            scramble(c, kind, mode);
            CHECK_OK(a_settime(c, in_f64()));
            if (mode == M_CT) {
                for (int i = 0; i < NX; i++) x[i] = in_f64();
                CHECK_OK(a_setx(c, x, NX));
                CHECK_OK(a_enter_event(c));
            }
#ifndef VP_MODEL_Stair
            CHECK_OK(a_event(c, &e));
#endif
        } else if (mode == M_STEP) {
            double t = now_of(c);
            scramble(c, kind, mode);
#ifdef VP_MODEL_Stair
            /* may request termination */
            int st = a_dostep(c, t, STEP);
            CHECK(st == S_OK || st == S_DISCARD, "a legal step is done");
            if (st == S_OK) a_dostep(c, t + STEP, STEP);
#else
            CHECK_OK(a_dostep(c, t, STEP));
#endif
#if FMI_VERSION == 3
        } else if (mode == M_CLK) {
            scramble(c, kind, mode);
            CHECK_OK(fmi3ActivateModelPartition(c, 1001, in_f64()));
            CHECK_OK(fmi3ActivateModelPartition(c, 1002, in_f64()));
        } else if (mode & (M_CONF | M_RECONF)) {
            scramble(c, kind, mode);
            CHECK_OK(fmi3ExitConfigurationMode(c));
#endif
        } else if (mode == M_INST) {
            CHECK_OK(a_enter_init_stop(c, in_f64(), in_bool(), in_f64()));
        } else if (mode == M_INIT) {
            CHECK_OK(a_exit_init(c));
        }
        break;
    case 4: { const char *z = "zz"; (void)z;   /* strings as well */
        scramble(c, kind, mode);
#ifdef VP_MODEL_Feedthrough
        if (mode != M_CT) { CHECK_OK(a_sets1(c, 29, z));
#if FMI_VERSION == 3
            VR b = 31; size_t nz = 2; const fmi3Byte *pz = (const fmi3Byte *)z; CHECK_OK(fmi3SetBinary(c, &b, 1, &nz, &pz, 1));
#endif
        }
#endif
        break; }
    case 2: a_getr(c, &none, 1, &bad, 1); break;      /* an error terminates the instance */
    case 3:   /* another simulation */
        CHECK_OK(a_reset(c));
        scramble(c, kind, M_INST);
        CHECK_OK(a_enter_init_stop(c, in_f64(), true, in_f64()));
        CHECK_OK(a_exit_init(c));
        CHECK_OK(a_term(c));
        break;
    }
}

struct record { int st[12]; bool b[12]; double d[12]; double v[12]; unsigned n; struct view view; };

/* the same calls on any instance that ought to be in this mode, recording what an importer sees */
static void resume(inst c, int kind, unsigned mode, struct record *r) {
    struct einfo e = {0};
    unsigned s = 0, b = 0, d = 0;
    (void)e; (void)b; (void)d;
    if (mode & (M_INST | M_CONF)) {
#if FMI_VERSION == 3
        if (mode == M_CONF) r->st[s++] = fmi3ExitConfigurationMode(c);
#endif
        r->st[s++] = a_enter_init(c, 0);
        mode = M_INIT;
    }
    if (mode == M_INIT) { r->st[s++] = a_exit_init(c); mode = kind == CS ? M_STEP : kind == SE ? M_CLK : M_EVENT; }
#if FMI_VERSION == 3
    if (mode == M_RECONF) { r->st[s++] = fmi3ExitConfigurationMode(c); mode = kind == ME ? M_EVENT : kind == SE ? M_CLK : M_STEP; }
#endif
    if (mode == M_CT) { r->st[s++] = a_enter_event(c); mode = M_EVENT; }
    if (mode == M_EVENT) {
        r->st[s++] = a_event(c, &e);
        r->b[b++] = e.need; r->b[b++] = e.term; r->b[b++] = e.nominals; r->b[b++] = e.values; r->b[b++] = e.nextDefined;
        if (e.nextDefined) r->d[d++] = e.next;
        if (kind == ME) {
            r->st[s++] = a_getx(c, r->v, NX); r->st[s++] = a_getdx(c, r->v + 4, NX); r->st[s++] = a_getz(c, r->v + 8, NZ);
        }
#if FMI_VERSION == 3
        else { r->st[s++] = fmi3EnterStepMode(c); mode = M_STEP; }
#endif
    }
    if (mode == M_STEP) {
        double t = now_of(c);
        for (int i = 0; i < SUF; i++) {
#if FMI_VERSION == 3
            bool ev = false, te = false, er = false; double last = 0;
            r->st[s++] = fmi3DoStep(c, t, STEP, true, &ev, &te, &er, &last);
            r->b[b++] = ev; r->b[b++] = te; r->b[b++] = er; r->d[d++] = last;
#else
            fmi2Real last = 0; fmi2Boolean te = 0;
            r->st[s++] = fmi2DoStep(c, t, STEP, true);
            r->st[s++] = fmi2GetRealStatus(c, fmi2LastSuccessfulTime, &last);
            r->st[s++] = fmi2GetBooleanStatus(c, fmi2Terminated, &te);
            r->b[b++] = te; r->d[d++] = last;
#endif
            t += STEP;
        }
    }
#if FMI_VERSION == 3
#ifdef VP_MODEL_Clocks
    if (mode == M_CLK) {
        VR cl = 1005, iv = 1002; bool tick = false; double interval = 0; fmi3IntervalQualifier q = 0;
        r->st[s++] = fmi3GetClock(c, &cl, 1, &tick); r->b[b++] = tick;
        r->st[s++] = fmi3GetIntervalDecimal(c, &iv, 1, &interval, &q); r->d[d++] = interval; r->b[b++] = q == fmi3IntervalChanged;
        r->st[s++] = fmi3ActivateModelPartition(c, 1001, 4);
        r->st[s++] = fmi3ActivateModelPartition(c, 1002, 5);
        r->st[s++] = fmi3GetClock(c, &cl, 1, &tick); r->b[b++] = tick;
        r->st[s++] = fmi3GetIntervalDecimal(c, &iv, 1, &interval, &q); r->d[d++] = interval; r->b[b++] = q == fmi3IntervalChanged;
    }
#endif
#endif
    observe(c, &r->view);
    r->n = s;
}
static void records_agree(const struct record *a, const struct record *b) {
    CHECK(a->n == b->n, "the same calls were made");
    for (int i = 0; i < 12; i++) CHECK(a->st[i] == b->st[i], "the continuation returns the same statuses");
    for (int i = 0; i < 12; i++) CHECK(a->b[i] == b->b[i], "the continuation returns the same flags");
    for (int i = 0; i < 12; i++) CHECK(same_f64(a->d[i], b->d[i]), "the continuation returns the same times");
    for (int i = 0; i < 12; i++) CHECK(same_f64(a->v[i], b->v[i]), "the continuation returns the same vectors");
    views_agree(&a->view, &b->view, NONE);
}

/* status of a call that is only legal in some modes, used last */
static int probe(inst c, unsigned k) {
    switch (k) {
    case 0: return a_enter_init(c, 0);
    case 1: return a_exit_init(c);
    case 2: return a_term(c);
#if FMI_VERSION == 3
    case 3: return fmi3EnterConfigurationMode(c);
    case 4: return fmi3ExitConfigurationMode(c);
    case 5: return fmi3EnterStepMode(c);
    case 6: return fmi3EnterContinuousTimeMode(c);
    case 7: return fmi3EnterEventMode(c);
    case 8: return fmi3ActivateModelPartition(c, 1001, 0);
    case 9: { bool b; double x; return fmi3DoStep(c, now_of(c), STEP, true, &b, &b, &b, &x); }
#else
    case 6: return fmi2EnterContinuousTimeMode(c);
    case 7: return fmi2EnterEventMode(c);
    case 9: { fmi2Boolean b = 0; return fmi2GetBooleanStatus(c, fmi2Terminated, &b); }
#endif
    }
    ASSUME(0);
    return 0;
}
#endif
