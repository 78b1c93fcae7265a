/*
 * C10: operator controls: STOP at any microcycle stops between two instructions with nothing lost or done twice,
 * START goes on, instruction step executes one instruction, and the set, display and store keys do only that.
 *
 * MC-GROUPS: top device model2050 model2030
 * MC-EXTRA: s360.c cpu50.c cpu30.c
 * MC-SAN: none
 * MC-OPT: -O2
 */
#include "cputest.h"
#include "cpu.h"
#include "model2050.h"
#include "model2030.h"
#include "xlat.h"
uint64_t step_count;
extern int log_level;
const char *mc_property = "C10";
const char *mc_bounds = "10 programs of up to 40 instructions. stop: STOP at every microcycle, machine left stopped for 400 microcycles with nothing, a timer tick, or the interrupt key, then START. step: instruction step from any instruction on (STOP at every 16th microcycle) to the end. cycle: whole program by single cycle. setic: STOP at a grid of microcycles, SET IC to every instruction of the program. store: STOP at a grid of microcycles, each of a list of locations of main and register storage stored and displayed. reset: SYSTEM RESET at a grid of microcycles, then START (2030) or SET IC and START (2050).";
const char *mc_assumptions[] = { "the reference interpreter (harness/s360.c) states the Principles of Operation", "buttons are on for one microcycle; the 2050 display, store and set IC buttons for 60", NULL };
#include "progs.h"
static int is30(void) { return C == &cpu30; }
static long now;
static FILE *dbg;
static void cyc(void) { C->cycle(); now++; if (!is30()) START = 0; if (dbg) { static unsigned h[8]; static int k; unsigned m = C->microaddr(); int i; for (i = 0; i < 8; i++) if (h[i] == m) return; h[k++ & 7] = m; fprintf(dbg, "%ld:%03x%s%s ", now, m, C->stopped() ? "s" : "", C->waiting() ? "w" : ""); } }
static void run(long n) { while (n--) cyc(); }
static void begin(void)
{
    if (is30()) { tm[6] = BOOT >> 8; tm[7] = BOOT & 0xff; }
    tm[0x50] = 0x12;
    boot();
    E_SW = 0; START = STOP = SET_IC = DISPLAY = STORE = SYS_RST = LOAD = INTR = MATCH_SW = 0; now = 0;
    A_SW = B_SW = C_SW = D_SW = F_SW = G_SW = H_SW = J_SW = 0;
    if (is30()) {
        int i;
        for (i = 0; i < 400 && C->microaddr() != 0x3be; i++) cyc();
        run(20);
        if (!C->stopped()) bad("reset", "not stopped after system reset");
        START = 1; 
    } else
        C->start(BOOT);
    cyc(); now = 0; dbg = getenv("MC_X") ? fopen(getenv("MC_X"), "w") : NULL; if (dbg) setvbuf(dbg, NULL, _IONBF, 0);
}
/* the loop programs start: instruction 0 of reference is at T.ia, the boot program has one LPSW */
static int undisturbed(void)              /* microcycles of the program */
{
    static int len[2][N(P)]; int i = p - P, c = is30();
    if (!len[c][i]) { begin(); while (!C->waiting() && now < limit()) cyc(); len[c][i] = now; if (now >= limit()) bad("hang", "undisturbed program does not end"); }
    return len[c][i];
}
static uint32_t ia_at(int t)              /* instruction being executed at microcycle t of the undisturbed program */
{
    begin(); run(t); return C->ia();
}
/* press STOP and wait until the machine stopped */
static void halt(void)
{
    long a;
    STOP = 1; cyc();
    if (is30()) { for (a = now; !C->stopped() && now < a + 4000; ) cyc(); run(4); if (!C->stopped()) bad("nostop", "STOP has no effect"); }
    else {
        unsigned w[48], m; int i, n = 0, j;   /* stopped when it goes around in a few microinstructions */
        (void)a; run(1200);
        for (i = 0; i < 48; i++) { m = C->microaddr(); for (j = 0; j < n && w[j] != m; j++) ; if (j == n) w[n++] = m; cyc(); }
        if (n > 6) bad("nostop", "STOP has no effect");
    }
}
/* set of the states of the program that look like the current state; returns the first or -1 */
static uint8_t cand[MAXK];
static int which(int lo, int hi, uint32_t x, uint32_t y)
{
    char why[100]; int k, f = -1;
    D.m = dm; C->get(&D); memset(cand, 0, sizeof cand);
    for (k = lo; k <= hi && k < nk; k++) if (!differs(&K[k], x, y, why, sizeof why)) { cand[k] = 1; if (f < 0) f = k; }
    return f;
}
/* as which, but every state must follow one of the set */
static int follows(void)
{
    uint8_t o[MAXK]; int k, f = -1;
    memcpy(o, cand, sizeof o); which(0, nk - 1, 0, 0);
    for (k = 0; k < nk; k++) { if (cand[k] && !(k ? o[k - 1] : o[0])) cand[k] = 0;   /* 0: may be before or after the LPSW that begins the program */
        if (cand[k] && f < 0) f = k; }
    return f;
}
static void notstate(const char *kind, int first)
{
    char why[100]; int k, best = 0;
    differs(&K[first], 0, 0, why, sizeof why);
    (void)k; (void)best;
    bad(kind, "storage and registers are not those between two instructions of the program (after %d: %s)", first, why);
}
/* run to the wait state */
static void finish(void)
{
    long a = now;
    while (!C->waiting() && now < a + limit()) cyc();
    if (!C->waiting()) bad("hang", "program does not end after START");
    for (a = 0; a < 200; a++) { cyc(); if (!C->waiting()) a = 0; }
    D.m = dm; C->get(&D);
}
static void ends_as(int k, uint32_t x, uint32_t y, const char *what)
{
    char why[100];
    if (differs(&K[k], x, y, why, sizeof why)) bad(what, "program ends different: %s", why);
}
static void nofp(void) { if (p->fp && !C->fp) mc_prune(); }
static int first_at(uint32_t ia) { int k; if (ia < CODE) return 0; for (k = 0; k < nk - 1 && K[k].ia < ia; k++) ; return k; }

static void stop(void)
{
    int pi = mc_choose(N(P), "program"), t, k, k2, ev, w, ok, two; uint32_t ia; char why[100];
    load(pi, 0); nofp();
    { int g = mc_thorough ? 1 : is30() ? 3 : 1; t = mc_choose((undisturbed() + 12) / g, "microcycle") * g; } ev = mc_choose(3, "while stopped: nothing, timer, interrupt key");
    two = mc_choose(2, "stop again");
    CTX("program %s, STOP at microcycle %d", p->name, t);
    ia = ia_at(t);
    begin(); run(t); halt();
    w = C->waiting(); 
    k = which(0, nk - 1, 0, 0);
    if (k < 0) notstate("boundary", first_at(ia));
    if (p->straight && ia < CODE + 0x40 && !w && ia >= CODE) {         /* in time */
        int f = first_at(ia);
        if (k > f + 1 + is30()) { for (f++; f < k; f++) if (differs(&K[f], 0, 0, why, sizeof why)) bad("late", "stopped after %d instructions, pressed while at %04x", k, ia); }
    }
    if (!p->straight && t < undisturbed() / 2 && k >= nk - 3) bad("late", "stopped after %d of %d instructions", k, nk);
    s360 S = D; static uint8_t sm[0x3000]; memcpy(sm, dm, sizeof sm); S.m = sm;
    if (ev == 1) timer_event = 1; else if (ev == 2) INTR = 1;
    run(400);
    D.m = dm; C->get(&D);
    if (differs(&S, 0, 0, why, sizeof why)) bad("notstopped", "storage or registers changed while stopped: %s", why);
    START = 1; cyc();
    if (two) { run(mc_thorough || !is30() ? mc_choose(24, "cycles until stopped again") : 5 * mc_choose(6, "cycles until stopped again")); halt(); 
        if (ev != 2) { k2 = which(k, nk - 1, 0x50, 0x54); if (k2 < 0) notstate("boundary2", k); }
        run(50); START = 1; cyc(); }
    finish();
    if (ev == 2 && memcmp(dm + 0x18, base_mem + 0x18, 8)) {               /* interruption after START: at the place it stopped, or after one more instruction */
        for (ok = -1, k2 = k; k2 < nk && ok < 0; k2++) {
            uint8_t o[8], d[8]; s360 e = K[k2];
            if (!(K[k2].sysmask & 1)) continue;
            oldpsw(o, &K[k2], 0x40); memcpy(d, dm + 0x18, 8); d[4] &= 0x3f;
            if (memcmp(o, d, 8)) continue;
            memcpy(rm, e.m, sizeof km[0]); memcpy(rm + 0x18, dm + 0x18, 8); e.m = rm;
            if (!differs(&e, 0x50, 0x54, why, sizeof why)) ok = k2;
        }
        if (ok < 0) bad("keyboundary", "state after interruption is no state of the program");
        mc_outcome("%s interrupted", C->name); return;
    }
    if (ev == 2 && endwait) bad("keylost", "interrupt key pressed while stopped was lost");
    if (ev == 1 && is30()) ends_as(nk - 1, 0x50, 0x54, "resume"); else ends_as(nk - 1, 0, 0, "resume");
    mc_outcome("%s %s", C->name, w ? "stopped in wait" : "stopped");
}
static void istep(void)
{
    int pi = mc_choose(N(P), "program"), t, k, n; char why[100];
    load(pi, 0); nofp();
    t = mc_choose(undisturbed() / 16 + 1, "microcycle") * 16;
    CTX("program %s, stopped at microcycle %d", p->name, t);
    begin(); run(t); halt();
    k = which(0, nk - 1, 0, 0); if (k < 0) notstate("boundary", 0);
    if (C->waiting()) { mc_outcome("%s at end", C->name); return; }
    RATE_SW = 0; run(20);
    for (n = 0; k < nk - 1; n++) {
        long a; int kk;
        START = 1; cyc();
        if (is30()) { for (a = now; !C->stopped() && now < a + 4000; ) cyc(); run(4); if (!C->stopped() && !C->waiting()) bad("step", "does not stop after one instruction"); }
        else run(2500);
        if (C->waiting()) { D.m = dm; C->get(&D); if (!is30() && n == 0 && k < nk - 4) bad("nostep", "START executed more than one instruction"); break; }
        kk = follows();
        if (kk < 0) { D.m = dm; C->get(&D); differs(&K[k + 1], 0, 0, why, sizeof why); bad("step", "step %d: not the state after the next instruction %d: %s", n, k + 1, why); }
        k = kk;
    }
    if (n == 0) mc_prune();
    ends_as(nk - 1, 0, 0, "step");
    mc_outcome("%s stepped %d", C->name, n);
}
static void single(void)
{
    int pi = mc_choose(N(P), "program"), gap = 1 + 2 * mc_choose(3, "cycles between"); long a; int w = 0;
    load(pi, 0); nofp(); undisturbed();
    begin(); RATE_SW = 2;
    CTX("program %s", p->name);
    for (a = 0; a < limit(); a++) { START = 1; C->cycle(); START = 0; for (int i = 1; i < gap + is30() * 2; i++) C->cycle(); if (C->waiting() && ++w > 100) break; }
    if (!w) bad("cycle", "program does not end");
    RATE_SW = 1; D.m = dm; C->get(&D);
    ends_as(nk - 1, 0, 0, "cycle");
}
static void setic(void)
{
    int pi = PICK(((int[]){ 0, 1, 3, 8 }), "program"), t, k, to, n; char why[100]; uint32_t a;
    load(pi, 0); nofp();
    t = mc_choose(12, "microcycle") * undisturbed() / 12; 
    CTX("program %s, STOP at microcycle %d", p->name, t);
    begin(); run(t); halt();
    k = which(0, nk - 1, 0, 0); if (k < 0) notstate("boundary", 0);
    if (C->waiting() || k == 0) mc_prune();
    to = mc_choose(nk - 1, "instruction"); a = K[to].ia;
    if (a >= CODE + 0x40) mc_prune();
    CTX("program %s, STOP at microcycle %d, set IC to %04x", p->name, t, a);
    if (is30()) { F_SW = 0; F_SW = a >> 12; G_SW = a >> 8 & 15; H_SW = a >> 4 & 15; J_SW = a & 15; SET_IC = 1; run(100); }
    else { cpu_2050.AKEYS = a; SET_IC = 1; run(60); SET_IC = 0; run(100); }
    D.m = dm; C->get(&D);
    if (differs(&K[k], 0, 0, why, sizeof why)) bad("setic", "SET IC changed %s", why);
    START = 1; cyc(); finish();
    for (; k < nk; k++) if (cand[k]) {
        R = K[k]; R.m = rm; memcpy(rm, tm, sizeof rm); memcpy(rm, km[k], sizeof km[k]); R.ia = a;
        for (n = 0; !(R.amwp & 2) && n < 100; n++) { s360_step(&R); if (R.undef || R.un_cc || R.un_regs || R.un_fp || R.un_hi > R.un_lo) mc_prune(); }
        if (n == 100) mc_prune();
        if (!differs(&R, 0, 0, why, sizeof why)) { mc_outcome("%s", C->name); return; }
    }
    bad("setic", "program does not go on there: %s", why);
}
static void store(void)
{
    static const uint32_t A[] = { 0x2001, 0x2002, 0x2047, 0x2ff0, 0x1ffb, 0x0100, 0x0200, 0x2e00, 0x00a5, 0x1234 };
    static const uint8_t V[] = { 0x00, 0xff, 0x5a, 0x01 };
    int pi = PICK(((int[]){ 0, 2, 9 }), "program"), t, k, what, i; char why[100]; uint32_t a, v;
    load(pi, 0); nofp();
    t = mc_choose(6, "microcycle") * undisturbed() / 6; 
    begin(); run(t); halt();
    k = which(0, nk - 1, 0, 0); if (k < 0) notstate("boundary", 0);
    if (C->waiting() || k == 0) mc_prune();
    what = mc_choose(3, "display, store, store register");
    if (what < 2) a = PICK(A, "address"); else { a = mc_choose(16, "register"); if (a == 4 && pi == 2) mc_prune(); }
    CTX("program %s, STOP at microcycle %d, %s %04x", p->name, t, what ? "store" : "display", a);
    v = what ? PICK(V, "byte") : 0;
    static uint8_t em[sizeof km[0]]; s360 E = K[k]; memcpy(em, km[k], sizeof em); E.m = em;
    if (is30()) {
        uint32_t l = what < 2 ? a : 0;
        int b = what == 2 ? mc_choose(4, "byte of register") : 0;
        E_SW = what < 2 ? 0x20 : 0x21;
        if (what == 2) { l = 0x3800 | a << 4 | b; }     /* bits 2-4 of switches A and B select the block of local storage */
        A_SW = l >> 12 & 15; B_SW = l >> 8 & 15; C_SW = l >> 4 & 15; D_SW = l & 15;
        H_SW = v >> 4; J_SW = v & 15;
        if (what == 0) { DISPLAY = 1; run(30); if (cpu_2030.R_REG != (km[k][a] | odd_parity[km[k][a]])) bad("display", "shows %03x for %02x", cpu_2030.R_REG, km[k][a]); }
        else { STORE = 1; run(30);
            if (what == 1) em[a] = v; else { E.r[a] &= ~(0xffu << (24 - 8 * b)); E.r[a] |= v << (24 - 8 * b); }
            DISPLAY = 1; run(30); if (cpu_2030.R_REG != (v | odd_parity[v])) bad("display", "shows %03x for stored %02x", cpu_2030.R_REG, (unsigned)v); }
    } else {
        uint32_t w = v * 0x01010101u ^ 0x1200;
        if (what < 2) a &= ~3;
        E_SW = what < 2 ? 1 : 0; cpu_2050.AKEYS = what < 2 ? a : 0x30 + a; cpu_2050.DKEYS = w;
        if (what == 0) { DISPLAY = 1; run(60); if (cpu_2050.SDR_REG != s360_w(&K[k], a)) bad("display", "shows %08x for %08x", cpu_2050.SDR_REG, s360_w(&K[k], a)); DISPLAY = 0; run(60); }
        else { STORE = 1; run(60); STORE = 0; run(60); if (what == 1) s360_sw(&E, a, w); else E.r[a] = w; }
    }
    D.m = dm; C->get(&D);
    if (differs(&E, 0, 0, why, sizeof why)) bad(what == 2 ? "storereg" : what ? "store" : "display", "%s", why);
    START = 1; cyc();
    finish();
    for (; k < nk; k++) if (cand[k]) {
        s360 e = K[k]; e.m = E.m; memcpy(e.r, E.r, sizeof e.r);
        R = e; R.m = rm; memcpy(rm, tm, sizeof rm); memcpy(rm, em, sizeof em);
        for (i = 0; !(R.amwp & 2) && i < 100; i++) { s360_step(&R); if (R.undef || R.un_cc || R.un_regs || R.un_fp || R.un_hi > R.un_lo) mc_prune(); }
        if (i == 100) mc_prune();
        if (!differs(&R, 0, 0, why, sizeof why)) { mc_outcome("%s %d", C->name, what); return; }
    }
    bad("store-resume", "%s", why);
}
/* system reset, then start from the beginning */
static void reset(void)
{
    int pi = PICK(((int[]){ 0, 2, 7, 9 }), "program"), t, i; char why[100];
    load(pi, 0); nofp();
    t = mc_choose(40, "microcycle") * (undisturbed() + 40) / 40;
    CTX("program %s, SYSTEM RESET at microcycle %d", p->name, t);
    begin(); run(t);
    if (mc_choose(2, "stopped")) halt();
    SYS_RST = 1; run(1500);
    if (!C->stopped()) bad("reset", "not stopped after reset");
    D.m = dm; C->get(&D); static uint8_t sm[0x3000]; memcpy(sm, dm, sizeof sm);
    s360 S = D; S.m = sm;
    run(200); D.m = dm; C->get(&D);
    if (differs(&S, 0, 0, why, sizeof why)) bad("reset", "not stopped: %s", why);
    R = S; R.m = rm; memcpy(rm, tm, sizeof rm); memcpy(rm, sm, sizeof sm); R.ia = is30() ? BOOT : CODE; R.sysmask = 0; R.key = R.amwp = R.cc = R.pm = 0; R.fp = C->fp; R.fetchprot = C->fetchprot; R.laxmp = C->fp;
    for (i = 0; !(R.amwp & 2) && i < 100; i++) { s360_step(&R); if (R.undef || R.un_cc || R.un_regs || R.un_fp || R.un_hi > R.un_lo) mc_prune(); }
    if (i == 100) mc_prune();
    if (!is30()) { cpu_2050.AKEYS = CODE; SET_IC = 1; run(60); SET_IC = 0; run(100); }
    START = 1; cyc(); finish();
    if (differs(&R, 0, 0, why, sizeof why)) bad("restart", "%s", why);
    mc_outcome("%s", C->name);
}
/*PARTS stop istep single setic store reset*/
static void stop_2050(void) { C = &cpu50; stop(); }
static void stop_2030(void) { C = &cpu30; stop(); }
static void istep_2050(void) { C = &cpu50; istep(); }
static void istep_2030(void) { C = &cpu30; istep(); }
static void single_2050(void) { C = &cpu50; single(); }
static void single_2030(void) { C = &cpu30; single(); }
static void setic_2050(void) { C = &cpu50; setic(); }
static void setic_2030(void) { C = &cpu30; setic(); }
static void store_2050(void) { C = &cpu50; store(); }
static void store_2030(void) { C = &cpu30; store(); }
static void reset_2050(void) { C = &cpu50; reset(); }
static void reset_2030(void) { C = &cpu30; reset(); }
mc_part mc_parts[] = {
    { "stop-2050", stop_2050 },
    { "stop-2030", stop_2030 },
    { "istep-2050", istep_2050 },
    { "istep-2030", istep_2030 },
    { "single-2050", single_2050 },
    { "single-2030", single_2030 },
    { "setic-2050", setic_2050 },
    { "setic-2030", setic_2030 },
    { "store-2050", store_2050 },
    { "store-2030", store_2030 },
    { "reset-2050", reset_2050 },
    { "reset-2030", reset_2030 },
    { NULL }
};
void mc_setup(void) { log_level = 0; ct_init_mem(); cpu50.setup(); cpu30.setup(); }
