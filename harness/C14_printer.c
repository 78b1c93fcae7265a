/*
 * C14 - the 1443 printer on the channel interface.
 * MC-GROUPS: top device model1443
 * MC-OPT: -O2
 */
#include <stdlib.h>
#include "dchan.h"
#include "model1443.h"

uint64_t step_count;
int SYS_RST;
const char *mc_property = "C14";
const char *mc_bounds = "1443 at address 00E driven by a reference channel, multiplexor and selector operation, two printers in part two; text: every byte value in every position class, lengths 0..130; "
  "carriage: from every line of the form every space and skip command, immediate and after printing, on three carriage tapes, and sequences of 2 (thorough 3) of 18 commands from 7 lines; "
  "bus: every command with channel answers late by 1, 2 or 5 steps (1, thorough 2), every status stacked once, halt I/O and system reset in every phase, a second operation at any time, each followed by another command";
const char *mc_assumptions[] = {"the form has 66 lines as the model sets it up", "spacing signals channel 9 and 12 for the lines left by the spacing, skipping signals none", NULL};

void model1443_draw(struct _device *u, void *r, int n) {}
void *model1443_control(struct _device *u, int n, int x, int y) { return NULL; }
void model1443_init(struct _device *u, void *r) {}
void test_advance(void) {}

static uint16_t tape[3][66];
static struct _device *prt[2]; static struct _1443_context *cx;
static char *obuf; static size_t olen; static FILE *out; static char *obuf2; static size_t olen2; static FILE *out2;
static struct _device *mk(int addr) {
    struct _device *d = calloc(1, sizeof *d); struct _1443_context *c = calloc(1, sizeof *c);
    d->bus_func = &model1443_dev; d->dev = c; d->type_name = "1443"; d->addr = addr; d->n_units = 1;
    return d;
}
void mc_setup(void) {
    prt[0] = mk(0x0e); prt[1] = mk(0x0f);
    static const int line[12] = { 0, 6, 12, 18, 24, 30, 36, 42, 62, 48, 54, 60 };      /* legacy */
    static const int std[12] = { 0, 6, 12, 18, 24, 30, 36, 42, 48, 54, 60, 62 };
    for (int c = 0; c < 12; c++) { tape[0][line[c]] |= 0x800 >> c; tape[1][std[c]] |= 0x800 >> c; }
    tape[2][0] = 0x800; tape[2][3] = 0x400; tape[2][30] = 0x400; tape[2][65] = 0x201; tape[2][1] = 0x008;       /* few channels, one twice, one on the last line */
    for (int i = 0; i < 12; i++) { }
}
/* the paper: what the output means */
typedef struct { int page, row; uint8_t t[140]; int n; } line_t;
static struct { line_t l[40]; int n, page, row, sense; } W;
static line_t R[40]; static int rn, rpage, rrow;
static void put(line_t *l, int *n, int page, int row, int col, uint8_t ch) {
    int i;
    for (i = 0; i < *n; i++) if (l[i].page == page && l[i].row == row) break;
    if (i == *n) { if (i == 40) mc_fail("text:lines", "more than 40 lines printed"); (*n)++; l[i].page = page; l[i].row = row; l[i].n = 0; memset(l[i].t, ' ', sizeof l[i].t); }
    if (col >= 140) mc_fail("text:wide", "a line is wider than 140 characters");
    l[i].t[col] = ch; if (col >= l[i].n) l[i].n = col + 1;
}
static void paper(const char *b, size_t n) {
    int page = 0, row = 0, col = 0; rn = 0;
    for (size_t i = 0; i < n; i++) {
        uint8_t c = b[i];
        if (c == '\r') col = 0; else if (c == '\n') { row++; col = 0; if (row > 66) mc_fail("form:long", "more than 66 lines on a form"); } else if (c == '\f') { page++; row = 0; col = 0; }
        else { if (row > 65) mc_fail("form:long", "a line is printed below the end of the form"); if (c != ' ') put(R, &rn, page, row, col, c); col++; }
    }
    rpage = page; rrow = row;
    if (rrow == 66) { rrow = 0; rpage++; }
}
static void compare_paper(const char *b, size_t n, const char *what) {
    paper(b, n);
    if (rn != W.n) mc_fail("text:lines", "%s: %d lines with text, expected %d", what, rn, W.n);
    for (int i = 0; i < rn; i++) {
        if (R[i].page != W.l[i].page || R[i].row != W.l[i].row) mc_fail("carriage:line", "%s: text on form %d line %d, expected form %d line %d", what, R[i].page + 1, R[i].row + 1, W.l[i].page + 1, W.l[i].row + 1);
        if (R[i].n != W.l[i].n || memcmp(R[i].t, W.l[i].t, R[i].n)) mc_fail("text:line", "%s: line %d prints '%.*s', expected '%.*s'", what, R[i].row + 1, R[i].n, R[i].t, W.l[i].n, W.l[i].t);
    }
    if (rpage != W.page || rrow != W.row) mc_fail("carriage:at", "%s: carriage on form %d line %d, expected form %d line %d", what, rpage + 1, rrow + 1, W.page + 1, W.row + 1);
}
static void compare(void) {
    fflush(out);
    compare_paper(obuf, olen, "00E");
    if (cx->row != W.row) mc_fail("carriage:row", "the unit thinks the carriage is at line %d, the paper is at %d", cx->row + 1, W.row + 1);
}
static const uint16_t *ftape;
static void space(int n, int *c9, int *c12) {
    while (n--) {
        if (ftape[W.row] & 0x008) *c9 = 1;
        if (ftape[W.row] & 0x001) *c12 = 1;
        if (++W.row == 66) { W.row = 0; W.page++; break; }
    }
}
static void skip(int ch) {
    int r = W.row, p = W.page;
    for (int i = 0; i < 66; i++) { if (++r == 66) { r = 0; p++; } if (ftape[r] & (0x1000 >> ch)) { W.row = r; W.page = p; return; } }
}
static void reset_unit(struct _device *d, int addr) {
    struct _1443_context *c = d->dev;
    memset(c, 0, sizeof *c); c->addr = addr & 0xff; c->lpp = 66; c->fcb = tape[0]; c->form = 0; c->ready = 1;
    d->next = NULL; d->addr = addr;
}
static void begin(int tp, int row, int sel, int delays) {
    init_event();
    if (out) { fclose(out); free(obuf); }
    if (out2) { fclose(out2); free(obuf2); }
    out = open_memstream(&obuf, &olen); out2 = open_memstream(&obuf2, &olen2);
    reset_unit(prt[0], 0x0e); reset_unit(prt[1], 0x0f);
    chan[0] = prt[0]; cx = prt[0]->dev; ftape = tape[tp]; cx->fcb = ftape; cx->file = out;
    ((struct _1443_context *)prt[1]->dev)->file = out2;
    memset(&W, 0, sizeof W);
    cx->row = W.row = row;
    for (int i = 0; i < row; i++) fprintf(out, "\r\n");
    dc_init(sel, delays); dc.trace = mc_replaying(); dc_time = 1500000;
    dc_idle(3);
}
static uint8_t base; static int bstep;
static uint8_t wbyte(int i) { return base + i * bstep; }
static uint8_t glyph(uint8_t b) { int c = ebcdic_to_ascii[b]; return c >= 32 && c < 127 ? c : '.'; }
static int valid(uint8_t cmd) {
    if ((cmd & 7) != 1 && (cmd & 7) != 3) return 0;
    if (cmd & 0x80) return (cmd & 0x78) != 0 && (cmd & 0x78) <= 0x60;
    return (cmd & 0x78) <= 0x18;
}
/* the effect of a command, and what the channel must have seen; text: number of bytes given to the printer */
static void expect(uint8_t cmd, int count, const dgot *g, int lost) {
    int init, end = SNS_CHNEND|SNS_DEVEND, all = dg_or(g), want = 0, c9 = 0, c12 = 0;
    if (g->busy) mc_fail("select:refused", "command %02x: the idle unit answers busy", cmd);
    if (valid(cmd)) {
        int n = (cmd & 7) == 1 ? lost == 1 ? g->n : count < 120 ? count : 120 : 0;
        want = n; W.sense = 0;
        for (int i = 0; i < n; i++) if (glyph(wbyte(i)) != ' ') put(W.l, &W.n, W.page, W.row, i, glyph(wbyte(i)));
        if (cmd & 0x80) skip((cmd >> 3) & 15); else space((cmd >> 3) & 3, &c9, &c12);
        init = (cmd & 7) == 3 ? SNS_CHNEND : 0;
        if ((cmd & 7) == 1) { if (c9) { W.sense |= BIT7; end |= SNS_UNITCHK; } if (c12) end |= SNS_UNITEXP; }
    } else if (cmd == 4) { init = 0; want = count ? 1 : 0; if (g->n && g->data[0] != W.sense) mc_fail("sense:byte", "sense byte %02x, expected %02x", g->data[0], W.sense); }
    else if ((cmd & 7) == 0) { init = end = 0; }
    else { W.sense = BIT0; init = end |= SNS_UNITCHK; }
    int ce = 0, de = 0;
    for (int i = 0; i < g->nst; i++) { ce += !!(g->st[i] & SNS_CHNEND); de += !!(g->st[i] & SNS_DEVEND); }
    if (ce > 1 || de > 1) mc_fail("status:twice", "command %02x: channel end %d times, device end %d times", cmd, ce, de);
    if (!lost && g->init != init) mc_fail("status:initial", "command %02x: initial status %02x, expected %02x", cmd, g->init, init);
    if ((all & ~SNS_CTLEND) != end) mc_fail("status:end", "command %02x: statuses together %02x, expected %02x", cmd, all, end);
    if (g->n != want) mc_fail("data:count", "command %02x: %d bytes, expected %d", cmd, g->n, want);
}
static void one(uint8_t cmd, int count, int chain) { dc_wbyte = wbyte; dgot g = dc_run(0x0e, cmd, count, 0, 0, chain); expect(cmd, count, &g, 0); }
static void text(void) {
    begin(0, 4, mc_choose(2, "burst"), 0);
    int x = mc_choose(256 + 131, "bytes or length");
    if (x < 256) { base = x; bstep = 1; one(0x09, 40, 0); }
    else { base = 0xc1; bstep = mc_choose(2, "pattern"); one(0x09, x - 256, 0); }
    compare();
    base = 0x81; bstep = 1; one(0x11, 3, 0); compare();        /* nothing of the first line is left */
}
static const uint8_t CMDS[] = { 0x09, 0x01, 0x11, 0x19, 0x0b, 0x13, 0x1b, 0x03, 0x89, 0xe1, 0x91, 0x8b, 0x93, 0xcb, 0xe3, 0x04, 0x00, 0x02, 0xe9, 0x21, 0x07, 0x14 };
static void carriage(void) {
    int tp = mc_choose(3, "tape"), row = mc_choose(66, "line"), c = mc_choose(32, "command");
    uint8_t cmd = (c < 16 ? 0x80 | c << 3 : (c & 15) << 3) | (mc_choose(2, "immediate") ? 3 : 1);
    begin(tp, row, 0, 0);
    base = 0xc1; bstep = 1;
    one(cmd, 5, 0); compare(); one(0x09, 3, 0); compare(); one(0x04, 1, 0);
}
static void ops(void) {
    static const int rows[] = { 0, 1, 29, 59, 63, 64, 65 };
    int tp = mc_choose(3, "tape"), row = rows[mc_choose(7, "line")], sel = mc_choose(2, "burst"), chain = mc_choose(2, "chained");
    begin(tp, row, sel, 0);
    for (int i = 0; i < (mc_thorough ? 3 : 2); i++) {
        base = 0xc1 + 16 * i; bstep = 1;
        one(CMDS[mc_choose(22, "command")], i ? 2 : 7, chain); compare();
        mc_state(mc_hash(mc_hash(MC_HASH0, &W.row, 8), &row, 4));
    }
}
static const uint8_t SH[] = { 0x09, 0x01, 0x0b, 0x8b, 0xe1, 0x04, 0x00, 0x02, 0x03 };
static void follow(void) {
    static const uint8_t f[] = { 0x09, 0x13, 0x04 };
    dc.delays = 0; base = 0xd1; one(f[mc_choose(3, "next command")], 3, 0); compare();
}
static void late(void) {
    mc_deviation_bound(mc_thorough ? 2 : 1);
    begin(0, 20, mc_choose(2, "burst"), 1); base = 0xc1; bstep = 1;
    uint8_t cmd = SH[mc_choose(9, "command")]; int n = 1 + 4 * mc_choose(3, "bytes");
    one(cmd, n, 0); compare(); follow();
}
static void stack(void) {
    mc_deviation_bound(1);
    begin(0, 20, mc_choose(2, "burst"), 1); base = 0xc1; bstep = 1;
    uint8_t cmd = SH[mc_choose(9, "command")]; int n = cmd == 4 ? 1 : 4;
    dc_wbyte = wbyte;
    dgot g = dc_run(0x0e, cmd, n, DV_STACK, mc_choose(3, "status stacked"), 0);
    if (!g.halted) mc_prune();
    expect(cmd, n, &g, 2); compare(); follow();
}
static void halt(void) {
    mc_deviation_bound(1);
    begin(0, 20, mc_choose(2, "burst"), 1); base = 0xc1; bstep = 1;
    uint8_t cmd = SH[mc_choose(9, "command")]; int n = cmd == 4 ? 1 : 5;
    dc_wbyte = wbyte;
    dgot g = dc_run(0x0e, cmd, n, DV_HALT, mc_choose(8, "halt at event"), 0);
    if (g.halted != 1) mc_prune();
    if (cmd == 4) { int all = dg_or(&g); if ((all & ~SNS_CTLEND) != (SNS_CHNEND|SNS_DEVEND)) mc_fail("halt:end", "halted sense: statuses %02x", all); }
    else expect(cmd, n, &g, 1);
    compare(); follow();
}
static void reset(void) {
    begin(0, 20, mc_choose(2, "burst"), 0); base = 0xc1; bstep = 1;
    uint8_t cmd = SH[mc_choose(9, "command")];
    dc_wbyte = wbyte;
    int wait = mc_choose(2, "motion");
    dgot g = dc_run(0x0e, cmd, 5, DV_RESET, 1 + mc_choose(8, "reset at event"), 0);
    if (g.halted != 3) mc_prune();
    for (int i = 0; i < (wait ? 100000 : 10); i++) { dc_step(); if (dc.tags & (INS|CHAN_REQ_IN)) mc_fail("reset:status", "after a reset the unit raises %04x", dc.tags); }
    /* what was printed before the reset stays; the carriage may have moved */
    fflush(out); paper(obuf, olen); memcpy(W.l, R, sizeof R); W.n = rn; W.row = rrow; W.page = rpage; W.sense = 0;
    uint64_t t0 = dc.t;
    dc_wbyte = wbyte; g = dc_run(0x0e, 0x0b, 0, 0, 0, 0); expect(0x0b, 0, &g, 0); compare();
    if (dc.t - t0 < 20000) mc_fail("reset:early", "device end %d steps after the command", (int)(dc.t - t0));
    follow();
}
static void two(void) {
    begin(0, 20, 0, 0); base = 0xc1; bstep = 1; dc.multi = 1;
    int same = mc_choose(2, "same unit");
    if (!same) { prt[0]->next = prt[1]; dc.ndev = 2; dc.dev[1] = prt[1]; dc_idle(2); }
    static uint8_t wb[300]; for (int i = 0; i < 300; i++) wb[i] = wbyte(i);
    static const uint8_t C1[] = { 0x09, 0x0b, 0xe1, 0x04 }, C2[] = { 0x11, 0x0b, 0x04, 0x00 };
    djob j[2]; memset(j, 0, sizeof j);
    j[0].addr = 0x0e; j[0].cmd = C1[mc_choose(4, "first")]; j[0].count = j[0].cmd == 4 ? 1 : 8; j[0].out = wb;
    j[1].addr = same ? 0x0e : 0x0f; j[1].cmd = C2[mc_choose(4, "second")]; j[1].count = j[1].cmd == 4 ? 1 : 7; j[1].out = wb;
    int at = mc_choose(10, "after event"), gap = mc_choose(15, "steps later"), ev = 0;
    dj_start(&j[0]);
    while (!j[0].done || (j[1].started && !j[1].done)) {
        if (!j[1].started && ev >= at) {
            int g = gap == 13 ? 25000 : gap == 12 ? 3000 : gap;
            uint64_t t0 = dc.t + g;
            while (dc.t < t0 && !j[0].done) { if (g > 100 || dc.tags & INS) { if (!dj_event(j, 2, (int)(t0 - dc.t), 0)) break; } else dc_step(); }
            while (dc.tags & INS && !j[0].done) dj_event(j, 2, 200, 0);
            if (gap == 14) for (int i = 0; i < dc_time && !(dc.tags & (CHAN_REQ_IN|INS)); i++) dc_step();
            if (gap == 14 && dc.tags & INS) mc_prune();
            if (j[0].done) mc_prune();
            dj_start(&j[1]);
            if (same) {
                dj_pending(&j[0], &j[1]);
            } else if (j[1].busy) mc_fail("busy:other", "unit 0F is busy because 0E works");
            continue;
        }
        if (!dj_event(j, 2, dc_time, 0)) mc_fail("hang:end", "no ending status: 0E %s, %02x %s", j[0].done ? "done" : "running", j[1].addr, j[1].done ? "done" : "running");
        ev++;
    }
    if (!j[1].started) mc_prune();
    dgot g; memset(&g, 0, sizeof g); g.init = j[0].init; g.nst = j[0].nst < 8 ? j[0].nst : 8; memcpy(g.st, j[0].st, g.nst); g.n = j[0].n; memcpy(g.data, j[0].data, 300);
    expect(j[0].cmd, j[0].count, &g, 0); compare();
    if (!same) {
        static const int e[] = { 0x0c, 0x0c, 0x0c, 0 };
        for (int i = 0; i < 4; i++) if (C2[i] == j[1].cmd && dj_or(&j[1]) != e[i]) mc_fail("two:status", "unit 0F, command %02x: statuses together %02x", j[1].cmd, dj_or(&j[1]));
        memset(&W, 0, sizeof W); fflush(out2);
        if (j[1].cmd == 0x11) { for (int i = 0; i < 7; i++) put(W.l, &W.n, 0, 0, i, glyph(wb[i])); W.row = 2; }
        if (j[1].cmd == 0x0b) W.row = 1;
        compare_paper(obuf2, olen2, "00F");
    } else { dc.multi = 0; dc.addr = 0x0e; follow(); }
}
mc_part mc_parts[] = { {"text", text}, {"carriage", carriage}, {"ops", ops}, {"late", late}, {"stack", stack}, {"halt", halt}, {"reset", reset}, {"two", two}, {0} };
