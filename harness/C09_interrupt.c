/*
 * C09: interruptions, timer, and stopping: an external event at any microcycle takes effect only between
 * instructions, exactly once, and leaves everything else as if it had not happened.
 *
 * MC-GROUPS: top device model2050 model2030
 * MC-EXTRA: s360.c cpu50.c cpu30.c
 * MC-SAN: none
 * MC-OPT: -O2
 */
#include "cputest.h"
uint64_t step_count;
extern int log_level;
const char *mc_property = "C09";
const char *mc_bounds = "10 programs (mixed formats, loop, decimal, EXECUTE/translate, mask switching by SSM and LPSW, SVC and program interruption, floating point, enabled and disabled wait, long storage operations) of up to 40 instructions. "
 "taken: one external signal at every microcycle, new PSW in wait state. resume: one signal at every microcycle, or two at every pair of a grid, handler counting and returning. timer: tick at every microcycle x 2 values of the timer. stop: stop at every microcycle, start after 4 delays, contents compared while stopped. step: instruction step for the whole program. both: timer made negative at 8 (thorough 24) points of 4 programs with a signal at every microcycle of the 150 (model 30: 300) around it.";
const char *mc_assumptions[] = { "the reference interpreter (harness/s360.c) states the Principles of Operation", "the time of an event is known to the accuracy of the instruction counter, which may be up to 12 bytes ahead",
 "the instruction length code of an external old PSW is unpredictable", NULL };

#include "progs.h"
static void go(void)
{
    long n = C->runev(BOOT, limit());
    mc_steps(nk);
    if (n < 0) bad("hang", "program does not end");
    D.m = dm; C->get(&D);
}
/* device must be in state k with an external interruption of code taken; returns 1 if it is */
static int is_taken(int k, int code, uint32_t tlo)
{
    uint8_t o[8], d[8]; s360 e = K[k]; char why[100]; int same, z = 0;
    oldpsw(o, &K[k], code); memcpy(d, dm + 0x18, 8); d[4] &= 0x3f;
    if (memcmp(o, d, 8)) return 0;
    if (tlo) { z = 4; }
    { uint8_t sav[8]; memcpy(sav, e.m + 0x18, 8); memcpy(e.m + 0x18, dm + 0x18, 8); same = !differs(&e, 0x50, 0x50 + z, why, sizeof why); memcpy(e.m + 0x18, sav, 8); }
    return same;
}
static const char *nearest(void)
{
    static char b[300]; char why[100]; int k; uint8_t o[8], d[8];
    snprintf(b, sizeof b, "external old psw %s", ct_hex(dm + 0x18, 8));
    memcpy(d, dm + 0x18, 8); d[4] &= 0x3f; d[2] = d[3] = 0;
    for (k = 0; k < nk; k++) { oldpsw(o, &K[k], 0); if (!memcmp(o, d, 8)) { memcpy(rm, K[k].m, sizeof km[0]); memcpy(rm + 0x18, dm + 0x18, 8); s360 e = K[k]; e.m = rm; if (differs(&e, 0, 0, why, sizeof why)) snprintf(b + strlen(b), sizeof b - strlen(b), ", after %d instructions (%s)", k, why); } }
    return b;
}
/* one external signal at any microcycle: the interruption is taken exactly once, between instructions */
static void taken(void)
{
    int pi = mc_choose(N(P), "program"), t, k, ok = -1, first; 
    load(pi, 0); if (p->fp && !C->fp) mc_prune();
    t = mc_choose(pathlen(), "microcycle");
    boot(); cpu_nev = 1; cpu_evs[0] = (cpu_ev){ t, EV_KEY, 0 };
    CTX("program %s, signal at microcycle %d", p->name, t);
    go();
    if (!memcmp(dm + 0x18, base_mem + 0x18, 8)) {                         /* not taken */
        char why[100];
        if (differs(&K[nk - 1], 0, 0, why, sizeof why)) bad("state", "no interruption; %s", why);
        if (endwait) bad("lost", "no interruption in enabled wait");
        /* must have come too late */
        for (k = nk - 1; k > 0 && !(K[k - 1].sysmask & 1); k--) ;         /* K[k-1] last enabled state */
        if (k == 0) { mc_outcome("%s masked", C->name); return; }
        if (p->straight && cpu_evs[0].ia >= CODE && cpu_evs[0].ia + 6 < K[k - 1].ia && cpu_evs[0].ia < CODE + 0x40) bad("lost", "no interruption; signal while at %04x", cpu_evs[0].ia);
        mc_outcome("%s too late", C->name);
        return;
    }
    if (dm[0x18 + 2] || dm[0x18 + 3] != 0x40) bad("code", "%s", nearest());
    for (k = 0; k < nk; k++) if ((K[k].sysmask & 1) && is_taken(k, 0x40, 0)) { ok = k; break; }
    if (ok < 0) bad("boundary", "state after interruption is no state of the program: %s", nearest());
    mc_outcome("%s taken", C->name);
    if (!p->straight) return;
    /* timely: not before it was signalled; at the next boundary with interruptions enabled */
    if (cpu_evs[0].ia >= CODE + 0x40) return;         /* in the subject of EXECUTE */
    if (cpu_evs[0].ia < CODE) first = 0;
    else for (first = 0; first < nk - 1 && K[first].ia < cpu_evs[0].ia; first++) ;
    if (C == &cpu30) first++;                          /* is in the instruction at this address */
    while (first < nk && !(K[first].sysmask & 1)) first++;
    for (k = first + 1; k < nk && !(K[k].sysmask & 1); k++) ;            /* one boundary may just have been passed */
    if (ok > k) bad("late", "signal while at %04x, taken at %04x", cpu_evs[0].ia, K[ok].ia);
    if (K[ok].ia + (C == &cpu30 ? 0 : 12) < cpu_evs[0].ia) bad("early", "signal while at %04x, taken at %04x", cpu_evs[0].ia, K[ok].ia);
}
/* pending while disabled: taken at the first boundary that enables it */
static void window(void)
{
    int t, k, pi = PICK(((int[]){ 4, 5 }), "program");
    load(pi, 0); if (pi == 5) T.sysmask = 0;
    t = mc_choose(8, "microcycle"); boot();
    cpu_nev = 1; cpu_evs[0] = (cpu_ev){ t, EV_KEY, 0 };
    CTX("program %s, signal at microcycle %d", p->name, t);
    go();
    for (k = 0; !(K[k].sysmask & 1); k++) ;
    if (!is_taken(k, 0x40, 0)) bad("window", "pending interruption must be taken when enabled at %04x: %s", K[k].ia, nearest());
}
/* handler that counts and returns: the program does not notice */
static void resume(void)
{
    int pi = mc_choose(N(P), "program"), two, t, t2 = 0, L, cnt; char why[100];
    load(pi, 1); if (p->fp && !C->fp) mc_prune();
    L = pathlen(); two = mc_choose(2, "signals");
    if (!two) t = mc_choose(L, "microcycle");
    else { int g = mc_thorough ? 60 : 30, s = L / g + 1; t = mc_choose(g, "microcycle") * s + mc_choose(mc_thorough ? 3 : 1, "offset"); t2 = t + 1 + mc_choose(40, "second") * (C == &cpu30 ? 23 : 9); }
    boot(); cpu_nev = 1 + two; cpu_evs[0] = (cpu_ev){ t, EV_KEY, 0 }; cpu_evs[1] = (cpu_ev){ t2, EV_KEY, 0 };
    CTX("program %s, signals at microcycle %d %d", p->name, t, t2);
    if (pi == 7) {                                    /* enabled wait: returns to wait */
        cpu_settle = 2000; }
    go(); cpu_settle = 100;
    cnt = s360_w(&D, 0x710);
    if (cnt == 0 && !memcmp(dm + 0x18, base_mem + 0x18, 8)) {
        if (differs(&K[nk - 1], 0, 0, why, sizeof why)) bad("state", "no interruption; %s", why);
        if (endwait) bad("lost", "no interruption in enabled wait");
        mc_outcome("%s none", C->name);
        return;
    }
    if (cnt < 1 || cnt > 1 + two) bad("count", "%d interruptions for %d signals", cnt, 1 + two);
    if (two && cpu_evs[1].ia >= 0x604 && cpu_evs[1].ia < 0x614 && cnt == 1 && (endwait || t2 < L / 2) && p->mask && pi != 5) bad("count", "second signal during the handler lost");
    mc_outcome("%s %d of %d", C->name, cnt, 1 + two);
    memcpy(rm, K[nk - 1].m, sizeof km[0]); memcpy(rm + 0x18, dm + 0x18, 8); memcpy(rm + 0x700, dm + 0x700, 0x20);
    s360 e = K[nk - 1]; e.m = rm;
    if (differs(&e, 0, 0, why, sizeof why)) bad("resume", "program disturbed by the interruption: %s; %s", why, nearest());
}
/* timer tick at any microcycle: storage word 80 stepped once, external interruption when it becomes negative */
static void timer(void)
{
    static const uint32_t V[] = { 0x00123400, 0x00000100, 0xffff0000, 0x00010200, 0x00000600, 0x7f000000, 0x80000000 };
    int pi = mc_choose(N(P), "program"), v = mc_choose(mc_thorough ? 7 : 3, "value"), t, k, ok = -1; char why[100]; uint32_t now, step, want;
    load(pi, 0); if (p->fp && !C->fp) mc_prune();
    s360_sw(&T, 0x50, V[v]);
    t = 1 + mc_choose(pathlen(), "microcycle");
    boot(); cpu_nev = 1; cpu_evs[0] = (cpu_ev){ t, EV_TIMER, 0 };
    CTX("program %s, timer %08x, tick at microcycle %d", p->name, V[v], t);
    go();
    now = s360_w(&D, 0x50); step = V[v] - now;
    want = 0x600;
    if (now == V[v]) {
        if (differs(&K[nk - 1], 0, 0, why, sizeof why)) bad("timer-state", "timer not stepped; %s", why);
        /* not stepped only at the very end */
        if (C == &cpu30) bad("timer-not-updated", "timer not stepped");
        if (endwait || (p->straight && cpu_evs[0].ia < K[nk - 3].ia && cpu_evs[0].ia >= CODE)) bad("timer-lost", "timer not stepped, tick while at %04x", cpu_evs[0].ia);
        mc_outcome("%s too late", C->name); return;
    }
    if (step != want && !(C == &cpu30 && step == 0x700)) bad("timer-step", "timer is %08x", now);
    if ((int32_t)V[v] >= 0 && (int32_t)now < 0) {                         /* became negative */
        if (!memcmp(dm + 0x18, base_mem + 0x18, 8)) {
            for (k = nk - 1; k > 0 && !(K[k - 1].sysmask & 1); k--) ;
            if (differs(&K[nk - 1], 0x50, 0x54, why, sizeof why)) bad("timer-state", "no interruption; %s", why);
            if (endwait || (k > 0 && p->straight && cpu_evs[0].ia >= CODE && cpu_evs[0].ia + 6 < K[k - 1].ia)) bad("timer-nointr", "no interruption, tick while at %04x", cpu_evs[0].ia);
            mc_outcome("%s timer pending", C->name); return;
        }
        if (dm[0x1a] || dm[0x1b] != 0x80) bad("timer-code", "%s", nearest());
        for (k = 0; k < nk; k++) if ((K[k].sysmask & 1) && is_taken(k, 0x80, 1)) { ok = k; break; }
        if (ok < 0) bad("timer-boundary", "state after interruption is no state of the program: %s", nearest());
        mc_outcome("%s timer interruption", C->name); return;
    }
    if (memcmp(dm + 0x18, base_mem + 0x18, 8)) bad("timer-spurious", "timer %08x; %s", now, nearest());
    if (differs(&K[nk - 1], 0x50, 0x54, why, sizeof why)) bad("timer-state", "program disturbed by timer: %s", why);
    mc_outcome("%s stepped", C->name);
}
/* amount a tick takes off: 300 per second, at 50 ticks a second */
static void tick(void)
{
    static const uint32_t V[] = { 0x00123400, 0x0000ff00, 0xffff0000, 0x00010700 };
    int v = mc_choose(4, "value"), n = 1 + mc_choose(3, "ticks"), i; uint32_t now;
    static const int GAP[] = { 120, 20, 7, 3, 2, 30, 50, 80 };
    int gap = n == 1 ? 0 : mc_choose(C == &cpu30 ? 8 : 1, "gap");
    load(2, 0); T.sysmask = 0;
    s360_sw(&T, 0x50, V[v]); boot();
    cpu_nev = n; for (i = 0; i < n; i++) cpu_evs[i] = (cpu_ev){ 100 + i * (C == &cpu30 && !gap ? 350 : GAP[gap]), EV_TIMER, 0 };
    CTX("timer %08x, ticks %d apart", V[v], C == &cpu30 && !gap ? 350 : GAP[gap]);
    go(); now = s360_w(&D, 0x50);
    for (i = 1; i <= n; i++) if (C == &cpu30 && now == V[v] - 0x600 * n - 0x100 * i)      /* one more for every update of the timer */
        bad("tick-7", "timer %08x is %08x after %d ticks, expected %08x", V[v], now, n, V[v] - 0x600 * n);
    if (now != V[v] - 0x600 * n) bad("tick", "timer %08x is %08x after %d ticks, expected %08x", V[v], now, n, V[v] - 0x600 * n);
}
/* timer interruption and signal at times close to each other: each of them reported, once, alone or together */
static void both(void)
{
    int pi = PICK(((int[]){ 0, 2, 7, 9 }), "program"), t, t2, i, n, key = 0, tim = 0, L, b30 = C == &cpu30; char why[100];
    load(pi, 0);
    ct_code(0x58, 8, 0,0,0,0, 0,0, 6,0);
    ct_code(0x600, 32, 0x90,0x12,0x07,0x00, 0x48,0x10,0x00,0x1a, 0x58,0x20,0x07,0x10, 0x40,0x12,0x07,0x20, 0x41,0x20,0x20,0x02, 0x50,0x20,0x07,0x10, 0x98,0x12,0x07,0x00, 0x82,0,0,0x18);
    memset(tm + 0x700, 0, 64); s360_sw(&T, 0x50, 0x100);
    L = pathlen() - (b30 ? 700 : 250); if (L < 60) L = 60;
    { int g = mc_thorough ? 24 : 8, fine = b30 ? 300 : 150; t = 1 + mc_choose(g, "tick") * L / g; t2 = t - fine / 3 + mc_choose(fine, "signal"); }
    if (t2 < 1) mc_prune();
    boot(); cpu_nev = 2; cpu_evs[t2 < t] = (cpu_ev){ t, EV_TIMER, 0 }; cpu_evs[t2 >= t] = (cpu_ev){ t2, EV_KEY, 0 };
    CTX("program %s, tick at microcycle %d, signal at %d", p->name, t, t2);
    if (pi == 7) cpu_settle = 3000;
    go(); cpu_settle = 100;
    n = s360_w(&D, 0x710);
    if (n & 1 || n > 6) bad("both-count", "%d bytes of interruption codes", n);
    for (i = 0; i < n; i += 2) { if (dm[0x720 + i] || dm[0x721 + i] & 0x3f || !(dm[0x721 + i] & 0xc0)) bad("both-code", "interruption code %02x%02x", dm[0x720 + i], dm[0x721 + i]); tim += dm[0x721 + i] >> 7; key += dm[0x721 + i] >> 6 & 1; }
    if (tim != 1) bad(tim ? "both-timer-twice" : "both-timer-lost", "%d interruptions for the timer, %d for the signal", tim, key);
    if (key != 1 && (key || t2 < L)) bad(key ? "both-key-twice" : "both-key-lost", "%d interruptions for the timer, %d for the signal", tim, key);
    mc_outcome("%s %s", C->name, n == 2 ? "together" : dm[0x721] & 0x80 ? "timer first" : "signal first");
    memcpy(rm, K[nk - 1].m, sizeof km[0]); memcpy(rm + 0x18, dm + 0x18, 8); memcpy(rm + 0x50, dm + 0x50, 4); memcpy(rm + 0x700, dm + 0x700, 0x40);
    s360 e = K[nk - 1]; e.m = rm;
    if (differs(&e, 0, 0, why, sizeof why)) bad("both-state", "program disturbed by the interruptions: %s; %s", why, nearest());
}
/*PARTS taken window resume timer tick both*/
static void taken_2050(void) { C = &cpu50; taken(); }
static void taken_2030(void) { C = &cpu30; taken(); }
static void window_2050(void) { C = &cpu50; window(); }
static void window_2030(void) { C = &cpu30; window(); }
static void resume_2050(void) { C = &cpu50; resume(); }
static void resume_2030(void) { C = &cpu30; resume(); }
static void timer_2050(void) { C = &cpu50; timer(); }
static void timer_2030(void) { C = &cpu30; timer(); }
static void tick_2050(void) { C = &cpu50; tick(); }
static void tick_2030(void) { C = &cpu30; tick(); }
static void both_2050(void) { C = &cpu50; both(); }
static void both_2030(void) { C = &cpu30; both(); }
mc_part mc_parts[] = {
    { "taken-2050", taken_2050 },
    { "taken-2030", taken_2030 },
    { "window-2050", window_2050 },
    { "window-2030", window_2030 },
    { "resume-2050", resume_2050 },
    { "resume-2030", resume_2030 },
    { "timer-2050", timer_2050 },
    { "timer-2030", timer_2030 },
    { "tick-2050", tick_2050 },
    { "tick-2030", tick_2030 },
    { "both-2050", both_2050 },
    { "both-2030", both_2030 },
    { NULL }
};
void mc_setup(void) { log_level = 0; ct_init_mem(); cpu50.setup(); cpu30.setup(); }
