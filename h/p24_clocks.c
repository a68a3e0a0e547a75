/* P24, P25: activations of the model partitions of Clocks */
#include "api.h"
#include "model.h"

enum { IN1 = 1001, IN2 = 1002, IN3 = 1003, OUT = 1005 };
static const VR TICKS[4] = { 2001, 2002, 2003, 2004 };

static inst c;
static int env;
static struct { int n[4], result2, input2, output3; bool out; int qual; } m;       /* the expected instance */
static int updates, want_updates;
static bool envOK = true;
static void on_clock(fmi3InstanceEnvironment e) { updates++; envOK = envOK && e == (void *)&env; }

static void get(VR vr, int32_t *v) { CHECK_OK(geti1(c, vr, v)); }

/* the documented effect of an activation */
static void expect(VR p, int t) {
    m.n[p - IN1]++;
    m.n[3]++;
    if (p == IN1 && t == 4) m.qual = 2;
    if (p == IN2) { m.result2 += m.input2; m.input2 = 0; }
    if (p == IN3) m.output3 = 1000;
    m.out = m.n[3] % 5 == 0;
    if (m.out || (p == IN1 && m.qual == 2)) want_updates++;
}

static void compare(void) {
    int32_t v;
    for (int i = 0; i < 4; i++) {
        get(TICKS[i], &v);
        CHECK(v == m.n[i], "the tick counters count the activations");
    }
    get(2005, &v); CHECK(v == m.result2, "the second partition sums its input");
    get(2006, &v); CHECK(v == m.input2, "the input is consumed by the second partition only");
    get(2007, &v); CHECK(v == m.output3, "the output is set by the third partition");
    CHECK(updates == want_updates, "the clock update callback is called exactly when there is something to announce");
    CHECK(envOK, "the clock update callback gets the environment of the instance");
}

#ifdef VP_LOCKS
/* preemption: locked or not, and the shared data at the last point it was allowed to change */
static bool locked, orderOK = true, sharedOK = true, nested, preempted;
static int nlock, nunlock, depth;
static int32_t total;
static bool out;
static ModelInstance *raw(void) { return (ModelInstance *)c; }
static bool shared_same(void) {
    return raw()->modelData.totalInClockTicks == total && raw()->modelData.outClock == out;
}
static void remember(void) { total = raw()->modelData.totalInClockTicks; out = raw()->modelData.outClock; }
static void preempt(void) {
    /* a partition of higher priority may run wherever preemption is not locked */
    if (depth == 0 && in_bool()) {
        depth++;
        VR p = VP_P == IN3 && in_bool() ? IN2 : IN1;
        CHECK_OK(fmi3ActivateModelPartition(c, p, 0));
        expect(p, 0);
        preempted = true;
        depth--;
    }
}
static void on_lock(void) {
    if (locked) orderOK = false;
    if (depth == 0) { if (!shared_same()) sharedOK = false; preempt(); }
    locked = true;
    nlock++;
}
static void on_unlock(void) {
    if (!locked) orderOK = false;
    locked = false;
    nunlock++;
    if (depth == 0) {
        preempt();
        remember();
    }
}
#endif

int main(void) {
#ifdef VP_LOCKS
    c = fmi3InstantiateScheduledExecution("m", INSTANTIATION_TOKEN, NULL, false, false, &env, NULL, on_clock, on_lock, on_unlock);
#else
    c = fmi3InstantiateScheduledExecution("m", INSTANTIATION_TOKEN, NULL, false, false, &env, NULL, on_clock, VP_NOLOCK ? NULL : api_lock, VP_NOLOCK ? NULL : api_lock);
#endif
    CHECK(c != NULL, "instantiated");
    to_running(c, 0);

#ifdef VP_LOCKS
    /* some activations first, so that the counters are anywhere in the cycle of the output clock */
    for (int i = 0; i < VP_PRE; i++) { CHECK_OK(fmi3ActivateModelPartition(c, IN1, 0)); expect(IN1, 0); }
    int32_t in = in_i32();
    ASSUME(in > -1000000 && in < 1000000);
    CHECK_OK(seti1(c, 2006, in));
    m.input2 = in;
    remember();
    int t = in_range(0, 9);
    depth = VP_P == IN1;                            /* the first partition is not preempted */
    CHECK_OK(fmi3ActivateModelPartition(c, VP_P, t));
    CHECK(orderOK && !locked && nlock == nunlock, "lock and unlock alternate and every lock is released");
    if (VP_P != IN1) {
        CHECK(nlock > 0, "the shared data is changed under the lock");
        CHECK(sharedOK && shared_same(), "the shared data is changed under the lock only");
    }
    /* nothing is lost by preemption */
    int32_t v;
    m.n[VP_P - IN1]++; m.n[3]++;
    for (int i = 0; i < 4; i++) {
        get(TICKS[i], &v);
        CHECK(v == m.n[i], "no tick is lost by preemption");
    }
    REACH("activated");
#if VP_P != 1001
    if (preempted) REACH("preempted");
#endif
#elif defined(VP_UNKNOWN)
    VR p = in_u32();
    ASSUME(p != IN1 && p != IN2 && p != IN3);
    CHECK(fmi3ActivateModelPartition(c, p, in_range(0, 9)) == fmi3Error, "an unknown model partition is refused");
    compare();
    REACH("refused");
#else
    int ops = VP_K;
    for (int i = 0; i < ops; i++) {
        int op = in_range(0, 2);
        if (i >= VP_LATE) {
            /* the importer may set the input and read clock and interval between activations */
            if (in_bool()) {
                int32_t in = in_i32();
                ASSUME(in > -1000000 && in < 1000000);
                CHECK_OK(seti1(c, 2006, in));
                m.input2 = in;
            }
            if (in_bool()) {
                VR o = OUT; fmi3Clock a;
                CHECK_OK(fmi3GetClock(c, &o, 1, &a));
                CHECK(a == m.out, "the output clock is active exactly if it ticked since it was read");
                m.out = false;
            }
            if (in_bool()) {
                VR o = IN3; double iv = -1; fmi3IntervalQualifier q;
                CHECK_OK(fmi3GetIntervalDecimal(c, &o, 1, &iv, &q));
                CHECK((int)q == m.qual, "a changed interval is announced once");
                if (m.qual == 2) CHECK(iv == 0.0, "the interval of the countdown clock");
                else CHECK(iv == -1, "an unchanged interval is not written");
                if (m.qual == 2) m.qual = 1;
            }
        }
        int t = in_range(0, 9);
        VR p = IN1 + op;
#ifdef VP_NO3
        ASSUME(p != IN3);
#endif
        CHECK_OK(fmi3ActivateModelPartition(c, p, t));
        expect(p, t);
        compare();
    }
    REACH("activated");
#endif
    return 0;
}
