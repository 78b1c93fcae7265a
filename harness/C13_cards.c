/*
 * C13 - the 1442 card reader punch on the channel interface.
 * MC-GROUPS: top device model1442
 * MC-OPT: -O2
 */
#include <stdlib.h>
#include "dchan.h"
#include "card.h"
#include "model1442.h"

uint64_t step_count;
int SYS_RST;
const char *mc_property = "C13";
const char *mc_bounds = "1442 at address 00C driven by a reference channel, multiplexor (disconnecting) and selector (burst) operation; ops: every sequence of 3 (thorough 4) of {read, read to stacker 2, read of 2 columns, of 0, "
  "write of 3 columns, write+feed of 2, write+feed to stacker 2 of 5, write of 80, feed, feed to stacker 2, no-op, sense, test I/O, two invalid commands, add a card and start, end-of-file key} on decks of 0, 1 and 3 cards; "
  "bus: every command with every channel answer of the command late by 1, 2 or 5 steps (1 late answer, thorough 2), every status stacked once and held off, halt I/O in every phase, followed by another command; "
  "suppress: suppress out up while no unit is connected, from each of the first 6 events, for 0-2 bytes or until the end; rate: every data byte served 20..300 steps late; two units on one channel, the second addressed in every phase of an operation of the first; system reset in every phase";
const char *mc_assumptions[] = {"punch image of a column = code of the byte as in the card tables (C03)", NULL};

void model1442_draw(struct _device *u, void *r, int n) {}
void *model1442_control(struct _device *u, int n, int x, int y) { return NULL; }
void model1442_init_graphics(struct _device *u, void *r) {}
int model1442_create(struct _option *o) { return 1; }
void test_advance(void) {}

typedef uint16_t card_t[80];
static struct _device *rdr[2];
static struct _1442_context *cx;
void mc_setup(void) { rdr[0] = model1442_init(0x00c); rdr[1] = model1442_init(0x00d); }

static void mk_card(int n, card_t c) {
    for (int i = 0; i < 80; i++) c[i] = 0;
    for (int i = 0; i < 4; i++) c[i] = ebcdic_to_hol(0xf0 + (n + i * 3) % 10);
    for (int i = 0; i < 20; i++) c[20 + i] = ebcdic_to_hol(0xc1 + (n + i) % 9);
    c[79] = ebcdic_to_hol(0xf0 + n % 10); c[40] = ebcdic_to_hol((0x41 + 7 * n) & 0xff);
    if (n % 4 == 3) c[50] = 0x07f;                     /* more than one punch in rows 1-7: not a character */
}
/* reference machine */
static struct { card_t hop[64]; int h, n; card_t rd, pc, st[2][64]; int rf, pf, col, ns[2], rdy, eof, sel, sense, serial; } M;
static void reset_unit(struct _device *d) {
    struct _1442_context *c = d->dev, old = *c;
    empty_cards(c->feed); empty_cards(c->stack[0]); empty_cards(c->stack[1]);
    memset(c, 0, sizeof *c);
    c->feed = old.feed; c->stack[0] = old.stack[0]; c->stack[1] = old.stack[1]; c->addr = old.addr;
    c->state = STATE_IDLE;
    d->request = d->stacked = d->selected = 0;
}
static void add_cards(int k) {
    while (k--) { card_t c; mk_card(M.serial++, c); stack_card(cx->feed, &c); memcpy(M.hop[M.n++], c, sizeof c); }
}
static void m_feed(void) {
    if (M.h == M.n && !M.eof) { M.sense |= BIT1; M.rdy = 0; return; }
    if (M.pf) { memcpy(M.st[M.sel][M.ns[M.sel]++], M.pc, sizeof M.pc); M.pf = 0; M.col = 0; }
    if (M.rf) { memcpy(M.pc, M.rd, sizeof M.pc); M.pf = 1; M.rf = 0; }
    if (M.h < M.n) { memcpy(M.rd, M.hop[M.h++], sizeof M.rd); M.rf = 1; }
    M.rdy = M.rf && (M.h < M.n || M.eof);
    if (M.rdy) M.sense &= ~BIT1; else M.sense |= BIT1;
}
static void begin(int deck, int sel, int delays) {
    for (device_t *d = chan[0]; d; d = d->next) { }
    init_event();
    reset_unit(rdr[0]); reset_unit(rdr[1]);
    chan[0] = rdr[0]; rdr[0]->next = NULL; rdr[1]->next = NULL;
    cx = rdr[0]->dev;
    memset(&M, 0, sizeof M);
    dc_init(sel, delays);
    dc.trace = mc_replaying();
    add_cards(deck);
    if (deck) { model1442_feed(cx); m_feed(); cx->sense = 0; M.sense = 0; }
    dc_idle(3);
}
static void cmp_card(const char *what, const card_t a, const card_t b) {
    for (int i = 0; i < 80; i++) if (a[i] != b[i]) mc_fail("card:image", "%s: column %d is %03x, expected %03x", what, i + 1, a[i], b[i]);
}
static void compare(void) {
    if (hopper_size(cx->feed) != M.n - M.h) mc_fail("card:hopper", "%d cards in the hopper, expected %d", hopper_size(cx->feed), M.n - M.h);
    for (int s = 0; s < 2; s++) {
        if (stack_size(cx->stack[s]) != M.ns[s]) mc_fail("card:stacker", "%d cards in stacker %d, expected %d", stack_size(cx->stack[s]), s + 1, M.ns[s]);
        for (int i = 0; i < M.ns[s]; i++) { card_t c; memcpy(c, (*cx->stack[s]->images)[i], sizeof c); cmp_card("stacker", c, M.st[s][i]); }
    }
    if (!!cx->rdr_full != M.rf || !!cx->pch_full != M.pf) mc_fail("card:stations", "read station %d, punch station %d, expected %d %d", cx->rdr_full, cx->pch_full, M.rf, M.pf);
    if (M.rf) cmp_card("read station", cx->rdr_card, M.rd);
    if (M.pf) cmp_card("punch station", cx->pch_card, M.pc);
}
/* expected result of a command */
typedef struct { int init, ce, de, n, dir; uint8_t data[81]; int motion; } want_t;
typedef struct { int init, nst; uint8_t st[8]; int n; uint8_t data[90]; int halted; } got_t;
static const struct { const char *name; uint8_t cmd; int count; } CMD[] = {
    {"read", 0x02, 80}, {"read stacker 2", 0x22, 80}, {"read 2", 0x02, 2}, {"read 0", 0x02, 0}, {"write 3", 0x01, 3}, {"write feed 2", 0x81, 2},
    {"write feed stacker 2 of 5", 0xa1, 5}, {"write 80", 0x01, 80}, {"feed", 0x83, 0}, {"feed stacker 2", 0xa3, 0}, {"no-op", 0x03, 0}, {"sense", 0x04, 1},
    {"test I/O", 0x00, 0}, {"invalid 42", 0x42, 80}, {"invalid 17", 0x17, 1}, {"sense 0", 0x04, 0}, {"stacker 2", 0x23, 0} };
#define NCMD ((int)(sizeof CMD / sizeof CMD[0]))
static uint8_t wbyte(int i) { static const uint8_t t[] = { 0xc1, 0xf5, 0x40, 0xe9, 0x5b, 0x00, 0xff }; return t[i % 7]; }
enum { EV_NONE, EV_STACK, EV_HALT, EV_SUP };
/* run a command; ev at the k-th event; returns 0 when the device was busy */
static got_t run(uint8_t cmd, int count, int ev, int k, int late_byte, int late) {
    got_t g; memset(&g, 0, sizeof g);
    int r = dc_start(0x0c, cmd), evn = 0, de = 0;
    if (r != DC_STAT) mc_fail("select:refused", "command %02x: %s", cmd, r == DC_BUSY ? "the idle unit answers busy" : "the unit does not answer");
    g.init = dc.status & 0xff;
    int first = 1;
    for (;;) {
        if (!first) r = dc_next(dc.sup ? 300 : 12000); else r = DC_STAT;
        if (dc.sup && (r == DC_TIME || g.n >= late_byte)) {
            if (r == DC_TIME && g.n < (count < 80 ? count : 80)) mc_fail("suppress:data", "command %02x: byte %d is not asked for while suppress out holds back status", cmd, g.n + 1);
            if (r == DC_STAT && dc.out & CHAN_SUP_OUT) mc_fail("suppress:status", "command %02x: status %02x comes while suppress out is up", cmd, dc.bus_in & 0xff);
            if (r == DC_TIME) for (int i = 0; i < 3000; i++) { dc_step(); if (dc.tags & INS) mc_fail("suppress:late", "command %02x: the unit raises %04x while suppress out is up", cmd, dc.tags); }
            dc.sup = 0; dc.out &= ~CHAN_SUP_OUT; g.halted = 3;
            if (r == DC_TIME) continue;
        }
        if (ev == EV_SUP && evn++ == k) dc.sup = 1;
        if (ev == EV_HALT && evn++ == k && dc.tags & CHAN_OPR_IN && !(first)) {
            dc_halt(); g.halted = 1; continue;
        }
        if (r == DC_STAT) {
            uint8_t s = dc.bus_in;
            if (ev == EV_STACK && evn++ == k) {
                if (s == 0) mc_prune();
                dc_stack(); g.halted = 2;
                dc.out |= CHAN_SUP_OUT; dc_idle(3);
                for (int i = 0; i < 40; i++) { dc_step(); if (dc.tags & (CHAN_REQ_IN|INS)) mc_fail("stack:suppress", "stacked status is offered while suppress out is up (tags %04x)", dc.tags); }
                dc.out &= ~CHAN_SUP_OUT;
                r = dc_next(60);
                if (r != DC_STAT) mc_fail("stack:lost", "the stacked status %02x is not offered again (%d)", s, r);
                if ((dc.bus_in & s) != s) mc_fail("stack:changed", "status %02x was stacked, now %02x", s, dc.bus_in & 0xff);
                s = dc.bus_in;
                if (first) g.init = s;
            }
            if (g.nst < 8) g.st[g.nst++] = s; else mc_fail("status:many", "command %02x: more than 8 statuses", cmd);
            if (s & SNS_DEVEND) de = 1;
            dc_take(0);
            if (dc.sel && (s & SNS_CHNEND)) dc.out &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
            first = 0;
            if (de || (g.nst == 1 && (cmd & 0x0f) == 0) || (g.nst == 1 && s & (SNS_BSY|SNS_UNITCHK))) { dc_release("ending status"); break; }
            continue;
        }
        /* data */
        if (ev != EV_SUP && g.n == late_byte) { for (int i = 0; i < late; i++) dc_step(); if (!(dc.tags & CHAN_SRV_IN)) continue; }
        if (g.n >= count) { dc_stop(); continue; }
        if (cmd & 1) { dc_write(wbyte(g.n)); g.n++; } else { uint8_t b = dc_read(); if (g.n < 90) g.data[g.n++] = b; }
    }
    dc_idle(12);
    if (dc.tags & (INS|CHAN_REQ_IN)) mc_fail("status:extra", "command %02x is over, yet the device raises %04x", cmd, dc.tags);
    return g;
}
static uint8_t code_of(uint16_t hol, int *bad) { uint16_t e = hol_to_ebcdic(hol); if (e == 0x100) { *bad = 1; return 0; } return e; }
/* effect on the reference machine, and check of what the channel saw */
static void expect(int c, got_t *g, int lost) {
    uint8_t cmd = CMD[c].cmd; int count = CMD[c].count;
    int init, all = 0, want_n = 0, err = 0, sel = (cmd & 0x20) != 0;
    uint8_t data[80]; memset(data, 0, sizeof data);
    int end = SNS_CHNEND | SNS_DEVEND, motion = 0;
    switch (cmd & 7) {
    case 0: init = M.sense ? SNS_UNITCHK : 0; end = init; break;
    case 1:
        M.sense &= BIT1; M.sel = sel;
        if (!M.pf) { M.sense |= BIT1; init = end | SNS_UNITCHK; end = init; break; }
        init = 0; want_n = count;
        for (int i = 0; i < count; i++) if (M.col < 80) M.pc[M.col++] |= ebcdic_to_hol(wbyte(i));
        if (cmd & 0x80) motion = 1; 
        else if (M.sense) end |= SNS_UNITCHK;
        break;
    case 2:
        M.sense &= BIT1;
        if (cmd & 0xdc) { M.sense |= BIT0; init = end |= SNS_UNITCHK; break; }
        M.sel = sel;
        if (!M.rdy) { M.sense |= BIT1; init = end |= SNS_UNITCHK; break; }
        init = 0; motion = 1;
        want_n = count < 80 ? count : 80;
        for (int i = 0; i < 80 && i <= want_n; i++) { int bad = 0; uint8_t b = code_of(M.rd[i], &bad); if (i < want_n) data[i] = b; if (bad) M.sense |= BIT4; }
        if (g->n < want_n && !lost) mc_fail("read:short", "%d columns read, expected %d", g->n, want_n);
        break;
    case 3:
        M.sense &= BIT1;
        if (cmd & 0x5c) { M.sense |= BIT0; init = end |= SNS_UNITCHK; break; }
        M.sel = sel;
        if (!(cmd & 0x80)) { init = end; break; }
        if (!M.rdy) { M.sense |= BIT1; init = end |= SNS_UNITCHK; break; }
        init = SNS_CHNEND; motion = 1; break;
    case 4:
        init = 0; want_n = count; data[0] = M.sense; break;
    default: M.sense |= BIT0; init = end |= SNS_UNITCHK; break;
    }
    if (motion) {
        int ue = M.h == M.n && M.eof;
        if (ue) { M.eof = 0; end |= SNS_UNITEXP; }
        m_feed();
        if (M.sense && !ue) end |= SNS_UNITCHK;
    }
    for (int i = 0; i < g->nst; i++) {
        if (all & g->st[i] & (SNS_CHNEND|SNS_DEVEND) && (cmd & 7)) mc_fail("status:twice", "command %02x: channel end or device end twice (%02x after %02x)", cmd, g->st[i], all);
        all |= g->st[i];
        err |= g->st[i];
    }
    if (lost) return;
    if (g->init != init) mc_fail("status:initial", "command %02x (%s): initial status %02x, expected %02x", cmd, CMD[c].name, g->init, init);
    if (all != end) mc_fail("status:end", "command %02x (%s): statuses together %02x, expected %02x", cmd, CMD[c].name, all, end);
    if (g->n != want_n) mc_fail("data:count", "command %02x (%s): %d bytes, expected %d", cmd, CMD[c].name, g->n, want_n);
    if (!(cmd & 1)) for (int i = 0; i < g->n; i++) if (g->data[i] != data[i]) mc_fail("data:byte", "command %02x (%s): byte %d is %02x, expected %02x", cmd, CMD[c].name, i, g->data[i], data[i]);
}
static void ops(int sel) {
    static const int decks[] = { 0, 1, 3 };
    begin(decks[mc_choose(3, "cards")], sel, 0);
    int depth = mc_thorough ? 4 : 3;
    for (int i = 0; i < depth; i++) {
        int c = mc_choose(NCMD + 2, "command");
        if (c == NCMD) { add_cards(2); if (!cx->rdr_full) { model1442_feed(cx); m_feed(); } else { /* runs out of the operator's hands */ } M.sense = cx->sense; continue; }
        if (c == NCMD + 1) { cx->eof_flag = !cx->eof_flag; M.eof = !M.eof; continue; }
        mc_note("%s", CMD[c].name);
        got_t g = run(CMD[c].cmd, CMD[c].count, 0, 0, -1, 0);
        expect(c, &g, 0);
        compare();
        mc_state(mc_hash(MC_HASH0, &M, sizeof M));
    }
}
static void ops_mpx(void) { ops(0); }
static void ops_sel(void) { ops(1); }

static int short_cmd(void) {
    static const int t[] = { 2, 3, 4, 5, 8, 10, 11, 12, 13, 15 };
    return t[mc_choose(10, "command")];
}
static void follow(void) {
    static const int t[] = { 2, 4, 11, 8 };
    int c = t[mc_choose(4, "next command")];
    dc.delays = 0;
    got_t g = run(CMD[c].cmd, CMD[c].count, 0, 0, -1, 0);
    expect(c, &g, 0); compare();
}
static void start2(int sel, int delays) { begin(4, sel, delays); model1442_feed(cx); m_feed(); M.sense = cx->sense = 0; }
static void late(int sel) {
    mc_deviation_bound(mc_thorough ? 2 : 1);
    start2(sel, 1);
    int c = short_cmd();
    got_t g = run(CMD[c].cmd, CMD[c].count, 0, 0, -1, 0);
    expect(c, &g, 0); compare(); follow();
}
static void late_mpx(void) { late(0); }
static void late_sel(void) { late(1); }
static void stack(void) {
    mc_deviation_bound(1);
    start2(mc_choose(2, "burst"), 1);
    int c = short_cmd();
    got_t g = run(CMD[c].cmd, CMD[c].count, EV_STACK, mc_choose(3, "status stacked"), -1, 0);
    if (!g.halted) mc_prune();
    if ((CMD[c].cmd & 7) == 0) return;
    int init = g.init; (void)init;
    expect(c, &g, 0); compare(); follow();
}
static void halt(void) {
    mc_deviation_bound(1);
    start2(mc_choose(2, "burst"), 1);
    int c = short_cmd();
    got_t g = run(CMD[c].cmd, CMD[c].count, EV_HALT, mc_choose(6, "halt at event"), -1, 0);
    if (!g.halted) mc_prune();
    int all = 0; for (int i = 0; i < g.nst; i++) all |= g.st[i];
    if (!(all & SNS_CHNEND) || !(all & SNS_DEVEND)) mc_fail("halt:end", "halted command %02x: statuses %02x", CMD[c].cmd, all);
    if (all & (SNS_UNITCHK|SNS_UNITEXP|SNS_BSY)) mc_fail("halt:status", "halted command %02x: statuses %02x", CMD[c].cmd, all);
    /* the columns of a halted write depend on when it was halted; cards move as for the whole command */
    if ((CMD[c].cmd & 7) == 1) {
        if (M.pf && memcmp(cx->pch_card, M.pc, sizeof M.pc)) { }
        return;
    }
    expect(c, &g, 1);
    compare(); follow();
}
/* the channel keeps status for a while, suppress out up: data goes on, status waits */
static void suppress(void) {
    start2(0, 0);
    int c = short_cmd(), from = mc_choose(6, "suppress out from event"), n = mc_choose(4, "for bytes");
    if (n == 3) n = 90;
    got_t g = run(CMD[c].cmd, CMD[c].count, EV_SUP, from, from + n, 0);
    if (!g.halted) mc_prune();
    expect(c, &g, 0); compare(); follow();
}
static void rate(void) {
    static const int d[] = { 20, 60, 90, 98, 99, 100, 101, 102, 110, 150, 300 };
    start2(mc_choose(2, "burst"), 0);
    int c = mc_choose(2, "write") ? 5 : 2;
    int k = mc_choose(2, "byte"), l = d[mc_choose(11, "late")];
    got_t g = run(CMD[c].cmd, CMD[c].count, 0, 0, k, l);
    int all = 0; for (int i = 0; i < g.nst; i++) all |= g.st[i];
    if (all & SNS_UNITCHK) {
        if (l < 90) mc_fail("rate:early", "a byte served after %d steps gives status %02x", l, all);
        got_t s = run(0x04, 1, 0, 0, -1, 0);
        if (!(s.data[0] & BIT5)) mc_fail("rate:sense", "unit check without overrun in the sense byte (%02x)", s.data[0]);
        if (c == 5) return;
        M.sel = 0; m_feed(); M.sense |= BIT5;
    } else {
        if (l > 110) mc_fail("rate:silent", "a byte served %d steps late was not reported as overrun", l);
        expect(c, &g, 0); compare();
    }
    follow();
}
/* a second operation while the first one runs: on another unit, or on the same one (which is busy) */
static void job_to_got(const djob *j, got_t *g) { memset(g, 0, sizeof *g); g->init = j->init; g->nst = j->nst; memcpy(g->st, j->st, j->nst > 8 ? 8 : j->nst); g->n = j->n; memcpy(g->data, j->data, 90); }
static void two(void) {
    static uint8_t wb[80]; for (int i = 0; i < 80; i++) wb[i] = wbyte(i);
    start2(0, 0); dc.multi = 1;
    struct _1442_context *c2 = rdr[1]->dev;
    int same = mc_choose(2, "same unit"), n2 = M.serial;
    if (!same) {
        chan[0] = rdr[0]; rdr[0]->next = rdr[1]; dc.ndev = 2; dc.dev[1] = rdr[1];
        for (int i = 0; i < 4; i++) { card_t c; mk_card(100 + i, c); stack_card(c2->feed, &c); }
        model1442_feed(c2); model1442_feed(c2); c2->sense = 0;
        dc_idle(3);
    }
    (void)n2;
    static const int firsts[] = { 2, 4, 5, 8 };
    int c = firsts[mc_choose(4, "first command")];
    djob j[2]; memset(j, 0, sizeof j);
    j[0].addr = 0x0c; j[0].cmd = CMD[c].cmd; j[0].count = CMD[c].count; j[0].out = wb;
    static const struct { uint8_t cmd; int count; } SECOND[] = { {0x02, 5}, {0x81, 3}, {0x83, 0}, {0x03, 0}, {0x04, 1}, {0x00, 0} };
    int x = mc_choose(6, "second command");
    j[1].addr = same ? 0x0c : 0x0d; j[1].cmd = SECOND[x].cmd; j[1].count = SECOND[x].count; j[1].out = wb;
    int at = mc_choose(8, "after event"), gapn = mc_thorough ? 30 : 16, gap = 1 + 7 * mc_choose(gapn + 1, "steps later") , ev = 0;
    dj_start(&j[0]);
    while (!j[0].done || (j[1].started && !j[1].done)) {
        if (!j[1].started && ev >= at) {
            /* let time pass, serving the first device in between, then start as soon as the channel is free */
            uint64_t t0 = dc.t + (gap > 7 * gapn ? 1 : gap);
            while (dc.t < t0 && !j[0].done) { if (!dj_event(j, 2, (int)(t0 - dc.t), 0)) break; }
            while (dc.tags & INS && !j[0].done) dj_event(j, 2, 200, 0);
            if (gap > 7 * gapn) for (int i = 0; i < 12000 && !(dc.tags & (CHAN_REQ_IN|INS)); i++) dc_step();
            if (gap > 7 * gapn && dc.tags & INS) mc_prune();
            if (j[0].done) mc_prune();
            dj_start(&j[1]);
            if (same) {
                dj_pending(&j[0], &j[1]);
            } else if (j[1].busy) mc_fail("busy:other", "unit 0D is busy because 0C works");
            continue;
        }
        if (!dj_event(j, 2, 12000, 0)) mc_fail("hang:end", "no ending status: 0C %s, %02x %s", j[0].done ? "done" : "running", j[1].addr, j[1].done ? "done" : "running");
        ev++;
    }
    if (!j[1].started) mc_prune();
    got_t g; job_to_got(&j[0], &g);
    expect(c, &g, 0); compare();
    if (!same) {
        static const int ends[] = { 0x0c, 0x0c, 0x0c, 0x0c, 0x0c, 0 };
        int all = dj_or(&j[1]);
        if (all != ends[x]) mc_fail("two:status", "unit 0D, command %02x: statuses together %02x", j[1].cmd, all);
        card_t e; mk_card(101, e);
        if (x == 0) { if (j[1].n != 5) mc_fail("two:count", "unit 0D: %d columns read", j[1].n); for (int i = 0; i < 5; i++) { int bad = 0; if (j[1].data[i] != code_of(e[i], &bad)) mc_fail("two:data", "unit 0D: column %d reads %02x", i + 1, j[1].data[i]); } }
        if (x <= 2) {
            card_t f; mk_card(100, f);
            if (x == 1) for (int i = 0; i < 3; i++) f[i] |= ebcdic_to_hol(wb[i]);
            if (stack_size(c2->stack[0]) != 1) mc_fail("two:stacker", "unit 0D: %d cards stacked", stack_size(c2->stack[0]));
            card_t got; memcpy(got, (*c2->stack[0]->images)[0], sizeof got); cmp_card("unit 0D stacker", got, f);
        }
    }
    dc.multi = 0; dc.addr = 0x0c;
    if (same) follow();
}
/* system reset in any phase: the lines fall, no status comes later, the unit works as after an operator start */
static void reset(void) {
    begin(8, mc_choose(2, "burst"), 0); model1442_feed(cx); m_feed(); cx->sense = 0;
    int c = short_cmd();
    dc_wbyte = wbyte;
    int wait = mc_choose(2, "motion");
    dgot r = dc_run(0x0c, CMD[c].cmd, CMD[c].count, DV_RESET, 1 + mc_choose(8, "reset at event"), 0);
    if (r.halted != 3) mc_prune();
    for (int i = 0; i < (wait ? 12000 : 10); i++) { dc_step(); if (dc.tags & (INS|CHAN_REQ_IN)) mc_fail("reset:status", "after a reset the unit raises %04x", dc.tags); }
    /* cards are where the command had moved them */
    int total = hopper_size(cx->feed) + stack_size(cx->stack[0]) + stack_size(cx->stack[1]) + !!cx->rdr_full + !!cx->pch_full;
    if (total != 8) mc_fail("reset:cards", "%d cards after a reset, there were 8", total);
    dgot g = dc_run(0x0c, 0x83, 0, 0, 0, 0);
    int all = dg_or(&g);
    if (g.init != SNS_CHNEND || all != (SNS_CHNEND|SNS_DEVEND)) mc_fail("reset:feed", "feed after a reset: initial status %02x, together %02x", g.init, all);
    total = hopper_size(cx->feed) + stack_size(cx->stack[0]) + stack_size(cx->stack[1]) + !!cx->rdr_full + !!cx->pch_full;
    if (total != 8) mc_fail("reset:cards", "%d cards after a reset and feed, there were 8", total);
    g = dc_run(0x0c, 0x04, 1, 0, 0, 0);
    if (dg_or(&g) != (SNS_CHNEND|SNS_DEVEND) || g.n != 1) mc_fail("reset:sense", "sense after a reset: statuses %02x, %d bytes", dg_or(&g), g.n);
}
mc_part mc_parts[] = { {"ops-mpx", ops_mpx}, {"ops-sel", ops_sel}, {"late-mpx", late_mpx}, {"late-sel", late_sel}, {"stack", stack}, {"halt", halt}, {"suppress", suppress}, {"rate", rate}, {"two", two}, {"reset", reset}, {0} };
