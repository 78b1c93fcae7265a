/*
 * C01 - event scheduler: exactly-once firing after exactly the requested delay.
 * MC-GROUPS: top
 *
 * Explores every sequence of schedule / cancel / clock operations up to a depth,
 * where every fired callback may itself schedule or cancel (bounded number of
 * reactions), against a reference that keeps a bag of (device, callback, due time).
 */
#include <stdlib.h>
#include <string.h>
#include "mc.h"
#include "device.h"
#include "event.h"

uint64_t step_count;
const char *mc_property = "C01";
const char *mc_bounds = "2 devices x 2 callbacks, delays 0..3 (and 1..40 in part 'delays'), all operation sequences of the stated depth; "
   "each fired callback may cancel or schedule (incl. its own device/callback) up to the reaction bound; then the clock runs until quiescent plus 4 ticks. "
   "seq: depth 4 (thorough 5) with 1 reaction; seq-noreact: depth 5 (thorough 6), none; react: depth 3 with 2 (thorough depth 4 with 3) reactions; delays: 4 events (thorough 5) with delays from 7 values and one cancellation at every position.";
const char *mc_assumptions[] = {"order among events due at the same tick is not part of the property",
   "cancelling with several matching pending events removes the one that would fire first", NULL};

static struct _device devs[2];
typedef struct { int d, f, left, live, id; } ref_t;
static ref_t ref[64];
static int   nref, now_, in_adv;
static int   reactions;

static void cb0(struct _device *d, void *a, int i);
static void cb1(struct _device *d, void *a, int i);
static _callback cbs[2] = {cb0, cb1};
static char args_[2][2];

static int pending(void) { int i, n = 0; for (i = 0; i < nref; i++) n += ref[i].live; return n; }
static int imm_d = -1, imm_f;     /* immediate firing expected */
static int allow_react;

static void do_add(int d, int f, int t) {
    mc_note(" add(%d,%d,%d)", d, f, t);
    if (t == 0) { imm_d = d; imm_f = f; }
    else {
        if (nref >= 64) mc_fail("harness", "too many events");
        ref[nref].d = d; ref[nref].f = f; ref[nref].left = t; ref[nref].live = 1; nref++;
    }
    mc_step();
    if (add_event(&devs[d], cbs[f], t, &args_[d][f], d * 10 + f) != 0)
        mc_fail("add-rejected", "scheduling (%d,%d) with delay %d was refused", d, f, t);
    if (t == 0 && imm_d >= 0) mc_fail("immediate-not-fired", "event with delay 0 was not delivered at once");
}
static void do_cancel(int d, int f) {
    int i, best = -1;
    mc_note(" cancel(%d,%d)", d, f);
    for (i = 0; i < nref; i++)
        if (ref[i].live && ref[i].d == d && ref[i].f == f && (best < 0 || ref[i].left < ref[best].left)) best = i;
    if (best >= 0) ref[best].live = 0;
    mc_step();
    cancel_event(&devs[d], cbs[f]);
}
static void react(void) {
    int c, save;
    if (!allow_react || reactions <= 0) return;
    c = mc_choose(1 + 4 + 8, "reaction");
    if (c == 0) return;
    reactions--;
    save = in_adv;
    mc_note(" [");
    if (c <= 4) do_cancel((c - 1) >> 1, (c - 1) & 1);
    else { c -= 5; do_add(c >> 2, (c >> 1) & 1, (c & 1) ? 2 : 1); }
    mc_note(" ]");
    in_adv = save;
}
static void fired(int f, struct _device *d, void *a, int iarg) {
    int dd = d == &devs[0] ? 0 : d == &devs[1] ? 1 : -1, i;
    mc_note(" fire(%d,%d)", dd, f);
    if (dd < 0) mc_fail("bad-device", "callback got a device that was never scheduled");
    if (a != &args_[dd][f] || iarg != dd * 10 + f) mc_fail("bad-args", "callback got wrong arguments");
    if (imm_d >= 0) {
        if (imm_d != dd || imm_f != f) mc_fail("wrong-immediate", "expected immediate (%d,%d), got (%d,%d)", imm_d, imm_f, dd, f);
        imm_d = -1;
        react();
        return;
    }
    if (!in_adv) mc_fail("fired-outside-clock", "(%d,%d) fired without a clock tick", dd, f);
    for (i = 0; i < nref; i++)
        if (ref[i].live && ref[i].d == dd && ref[i].f == f && ref[i].left == 0) break;
    if (i == nref) {
        for (i = 0; i < nref; i++)
            if (ref[i].live && ref[i].d == dd && ref[i].f == f)
                mc_fail("fired-early", "(%d,%d) fired %d ticks early at tick %d", dd, f, ref[i].left, now_);
        mc_fail("fired-unexpectedly", "(%d,%d) fired at tick %d but is not pending (cancelled or already fired)", dd, f, now_);
    }
    ref[i].live = 0;
    react();
}
static void cb0(struct _device *d, void *a, int i) { fired(0, d, a, i); }
static void cb1(struct _device *d, void *a, int i) { fired(1, d, a, i); }

static void tick(void) {
    int i, n0 = nref;
    mc_note(" tick");
    for (i = 0; i < n0; i++) if (ref[i].live) ref[i].left--;
    now_++; in_adv = 1;
    mc_step();
    advance();
    in_adv = 0;
    for (i = 0; i < nref; i++)
        if (ref[i].live && ref[i].left <= 0)
            mc_fail("missed", "(%d,%d) was due at tick %d and did not fire", ref[i].d, ref[i].f, now_);
}
static uint64_t refstate(void) {
    int i; uint64_t h = 0;      /* bag hash */
    for (i = 0; i < nref; i++) if (ref[i].live) h += mc_hash_u(MC_HASH0, ref[i].d * 1000 + ref[i].f * 100 + ref[i].left);
    return mc_hash_u(h, 77);
}
static void start(int r) {
    init_event();
    nref = now_ = in_adv = 0; imm_d = -1; reactions = r; allow_react = 1;
}
static void drain(void) {
    int n = 0;
    while (pending()) { tick(); if (++n > 400) mc_fail("never", "events never finish"); }
    allow_react = 0;
    for (n = 0; n < 4; n++) tick();
    mc_outcome("ticks=%d events=%d", now_, nref);
}
static void body_seq_n(int depth, int r) {
    int i;
    start(r);
    for (i = 0; i < depth; i++) {
        int c = mc_choose(1 + 4 + 16, "op");
        if (c == 0) tick();
        else if (c <= 4) do_cancel((c - 1) >> 1, (c - 1) & 1);
        else { c -= 5; do_add(c >> 3, (c >> 2) & 1, c & 3); }
        mc_state(refstate());
    }
    drain();
}
static void body_seq(void) { body_seq_n(mc_thorough ? 5 : 4, 1); }
static void body_seq2(void) { body_seq_n(mc_thorough ? 6 : 5, 0); }
static void body_react(void) { body_seq_n(mc_thorough ? 4 : 3, mc_thorough ? 3 : 2); }

/* longer lists: insertion in every order, one removal anywhere, at every time */
static void body_delays(void) {
    static const int del[7] = {1, 2, 3, 5, 8, 13, 40};
    int n = mc_thorough ? 5 : 4, i, when, who;
    start(0);
    for (i = 0; i < n; i++) {
        int c = mc_choose(7, "delay");
        if (i < 4) do_add(i >> 1, i & 1, del[c]); else do_add(0, 0, del[c]);
        if (mc_choose(2, "tick between")) tick();
    }
    who = mc_choose(5, "who");
    if (who < 4) {
        when = mc_choose(4, "when");
        for (i = 0; i < when; i++) tick();
        do_cancel(who >> 1, who & 1);
        if (mc_choose(2, "again")) do_cancel((who ^ 1) >> 1, (who ^ 1) & 1);
        mc_state(refstate());
        if (mc_choose(2, "readd")) do_add(who >> 1, who & 1, 4);
    }
    mc_state(refstate());
    drain();
}
mc_part mc_parts[] = {
    {"seq", body_seq}, {"seq-noreact", body_seq2}, {"react", body_react}, {"delays", body_delays}, {NULL}
};
