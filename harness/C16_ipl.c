/*
 * C16: initial program load from cards and programs that use the real reader and printer, on both processors.
 *
 * MC-GROUPS: top device model2050 model2030 model1442 model1443
 * MC-EXTRA: s360.c cpu50.c cpu30.c
 * MC-SAN: none
 * MC-OPT: -O2
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "mc.h"
#include "cpuif.h"
#include "cpu.h"
#include "device.h"
#include "event.h"
#include "xlat.h"
#include "card.h"
#include "model1442.h"
#include "model1443.h"
#include "model2030.h"
#include "model2050.h"

uint64_t step_count;
extern int log_level;
const char *mc_property = "C16";
const char *mc_bounds = "copy: programs of 12 shapes (polling, waiting for interruptions, reading ahead while printing; with and without punching; delay loop of 0 to 39, thorough 399, turns between operations), loaded from cards and copying 1 or 2 data cards from the 1442 to the 1443; "
    "load: 7 decks (one to four cards; command and data chaining, skip, transfer in channel, short records), reader on the multiplexer or the selector channel, 8 states of the machine before (reset, program in a loop, waiting, interval timer run out, printer at work or its interruption pending on either channel), "
    "6 PSWs, 4 kinds of failed attempts before (bad card, bad first card, hopper runs empty, reader not ready), loaded program printing on either channel, interruption key at 7 (thorough 39) times";
const char *mc_assumptions[] = { "commands with a length other than that of the record have the suppress length flag: a load that ends with incorrect length is not examined",
    "an interruption key pressed before the reader is started belongs to the reset and may be dropped", "the last card stays in the reader station", NULL };

void model1442_draw(struct _device *u, void *r, int n) {}
void *model1442_control(struct _device *u, int n, int x, int y) { return NULL; }
void model1442_init_graphics(struct _device *u, void *r) {}
int model1442_create(struct _option *o) { return 1; }
void model1443_draw(struct _device *u, void *r, int n) {}
void *model1443_control(struct _device *u, int n, int x, int y) { return NULL; }
void model1443_init(struct _device *u, void *r) {}
void test_advance(void) {}

static const cpu_if *C;
enum { RCCW = 0x520, PCCW = 0x528, WCCW = 0x530, CONT = 0x538, WAITP = 0x540, STOPP = 0x548, ERRP = 0x550, SER = 0x558, CAWS = 0x560, RET = 0x570, FLAG = 0x574, DONE = 0x576, LOG = 0xb00, BUFA = 0x800, BUFB = 0x880 };
enum { POLL, WAIT, OVERLAP };
static int style;
static int is30(void) { return C == &cpu30; }
static s360 T, D; static uint8_t tm[S360_MEM], dm[S360_MEM];
static struct _device *rdr, *prt, *prt2; static struct _1442_context *rc; static struct _1443_context *pc, *pc2;
static uint16_t ftape[66];
static char *obuf; static size_t olen; static FILE *out;
static char ctx[300];
static long now;
static void bad(const char *kind, const char *fmt, ...)
{
    char sig[80], b[500]; va_list ap;
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    snprintf(sig, sizeof sig, "%s:%s", C->name, kind);
    mc_fail(sig, "model %s, %s: %s", C->name, ctx, b);
}
void mc_setup(void)
{
    int i;
    log_level = 0; cpu50.setup(); cpu30.setup();
    rdr = model1442_init(0x00c);
    prt = calloc(1, sizeof *prt); pc = calloc(1, sizeof *pc);
    prt->bus_func = &model1443_dev; prt->dev = pc; prt->type_name = "1443"; prt->addr = 0x00e; prt->n_units = 1;
    prt2 = calloc(1, sizeof *prt2); pc2 = calloc(1, sizeof *pc2);
    *prt2 = *prt; prt2->dev = pc2; prt2->addr = 0x10e;
    for (i = 0; i < 12; i++) ftape[i * 5] |= 0x800 >> i;
}
/* ---- cards ---- */
static int ncards; static uint16_t deck[64][80];
static void punch(const uint8_t *b, int n)
{
    int i; uint16_t *c = deck[ncards++];
    for (i = 0; i < 80; i++) c[i] = i < n ? ebcdic_to_hol(b[i]) : 0;
    stack_card(rc->feed, (uint16_t (*)[80])c);
}
/* ---- assembler ---- */
static uint8_t as[600]; static int an, aorg, apass; static int LB[32];
static void label(int l) { LB[l] = aorg + an; }
static int lb(int l) { return apass ? LB[l] : 0; }
static void A(int n, ...) { va_list ap; va_start(ap, n); while (n--) as[an++] = va_arg(ap, int); va_end(ap); }
#define HI(x) ((x) >> 8 & 255)
#define LO(x) ((x) & 255)
static void MVC(int d, int n, int s) { A(6, 0xd2, n - 1, HI(d), LO(d), HI(s), LO(s)); }
static void MVI(int d, int v) { A(4, 0x92, v, HI(d), LO(d)); }
static void CLI(int d, int v) { A(4, 0x95, v, HI(d), LO(d)); }
static void TM(int d, int v) { A(4, 0x91, v, HI(d), LO(d)); }
static void BC(int m, int l) { A(4, 0x47, m << 4, HI(lb(l)), LO(lb(l))); }
static void BCT(int r, int l) { A(4, 0x46, r << 4, HI(lb(l)), LO(lb(l))); }
static void LA(int r, int v) { A(4, 0x41, r << 4, HI(v), LO(v)); }
static void INC(int r) { A(4, 0x41, r << 4 | r, 0, 1); }
static void SIO(int d) { int a = aorg + an; A(4, 0x9c, 0, HI(d), LO(d)); A(4, 0x47, 0x20, HI(a), LO(a)); }     /* again while the channel is busy */
static void TIO(int d) { A(4, 0x9d, 0, HI(d), LO(d)); }
static void LPSW(int d) { A(4, 0x82, 0, HI(d), LO(d)); }
static void CCW(int cmd, int a, int fl, int n) { A(8, cmd, 0, HI(a), LO(a), fl, 0, HI(n), LO(n)); }
static void ORG(int a) { while (aorg + an < a) A(1, 0); }

/* ---- machine ---- */
static void begin(void)
{
    int i;
    init_event();
    if (out) { fclose(out); free(obuf); }
    out = open_memstream(&obuf, &olen);
    rc = rdr->dev;
    { struct _1442_context old = *rc; empty_cards(rc->feed); empty_cards(rc->stack[0]); empty_cards(rc->stack[1]);
      memset(rc, 0, sizeof *rc); rc->feed = old.feed; rc->stack[0] = old.stack[0]; rc->stack[1] = old.stack[1]; rc->addr = old.addr; }
    rdr->request = rdr->stacked = rdr->selected = 0; prt->request = prt->stacked = prt->selected = 0;
    memset(pc, 0, sizeof *pc); pc->addr = 0x0e; pc->lpp = 66; pc->fcb = ftape; pc->ready = 1; pc->file = out; *pc2 = *pc; prt2->request = prt2->stacked = prt2->selected = 0;
    memset(chan, 0, sizeof(device_t *) * 6);
    chan[0] = rdr; rdr->next = prt; prt->next = NULL; chan[1] = prt2; prt2->next = NULL;
    memset(&T, 0, sizeof T); T.m = tm; memset(tm, 0, sizeof tm);
    for (i = 0; i < 16; i++) T.r[i] = 0x01010101u * (i + 3);
    ncards = 0; now = 0;
}
static void switches(int addr)
{
    if (is30()) { G_SW = addr >> 8; H_SW = addr >> 4 & 15; J_SW = addr & 15; }
    else { A_SW = addr >> 8; B_SW = addr >> 4 & 15; C_SW = addr & 15; }
}
static void step(void)
{
    C->cycle(); if (!is30()) C->cycle();
    START = 0;
    advance(); now++;
}
static void trace(void)
{
    if (getenv("MC_LOG")) { extern int log_level, log_enable; extern FILE *log_file; void log_init(char *); if (log_file) fclose(log_file); log_init(getenv("MC_LOG")); setvbuf(log_file, NULL, _IOLBF, 4096); log_level = 0xffff; log_enable = 1; }
}
static void run(long n) { while (n-- > 0) step(); }
/* run until the processor waits and nothing is going on */
static int idle(void) { return C->waiting(); }
static int done(void) { D.m = dm; C->get(&D); return dm[DONE] == 0xdd; }
static int until(long max)
{
    int q = 0;
    while (max-- > 0) { step(); q = idle() ? q + 1 : 0; if (q && q % 1000 == 0 && (done() || q == 100000)) { mc_steps(now); D.m = dm; C->get(&D); return 1; } }
    mc_steps(now); D.m = dm; C->get(&D); return 0;
}
static const char *hex(const uint8_t *p, int n) { static char b[4][80]; static int k; char *q = b[k = (k + 1) & 3]; for (int i = 0; i < n && i < 32; i++) sprintf(q + 2 * i, "%02x", p[i]); return q; }


/* ---- programs ---- */

enum { L_LOOP, L_T1, L_T2, L_ERR, L_END, L_H, L_H1, L_W, L_GO, L_T3, L_H2, L_NX, L_SUB, L_W2, L_SP, L_FIN };
static int sli, npunch, spin, ncopy, chainp;
static void op_poll(int dev, int ccw, int l, int err)
{
    MVC(0x48, 4, ccw - 8 >= 0 ? CAWS + 4 * ((ccw - RCCW) / 8) : 0);
    SIO(dev); BC(5, err);
    label(l); TIO(dev); BC(0xa, l); BC(1, err);
    TM(0x44, 0x10); BC(1, l);                                       /* working */
    A(6, 0xd2, 7, 0x80, 0, 0, 0x40); A(4, 0x41, 0x80, 0x80, 8);     /* log CSW */
    TM(0x44, 4); BC(8, l);
}
static void delay(void) { if (spin) { LA(3, spin); label(L_SP); BCT(3, L_SP); } }
/* wait until all bits of need are set in FLAG */
static void waitfor(int need, int l, int go)
{
    MVC(CONT + 6, 2, RET + 2 * (l == L_W2));
    label(l); TM(FLAG, need); BC(1, go); LPSW(WAITP);
    label(go);
}
static int prog_len;
static void program(void)
{
    for (apass = 0; apass < 2; apass++) {
        an = 0; aorg = 0x400;
        { int a = aorg + an; TIO(0x00c); A(4, 0x47, 0x70, HI(a), LO(a)); } MVI(DONE, 0);
        LA(6, ncopy); LA(8, LOG); LA(5, 1); 
        if (style == POLL) {
            label(L_LOOP); op_poll(0x00c, RCCW, L_T1, L_ERR); delay();
            if (npunch) { A(2, 0x19, 0x65); BC(8, L_SUB); op_poll(0x00c, WCCW, L_T3, L_ERR); A(4, 0x95, 0xf9, HI(SER + 3), LO(SER + 3)); BC(8, L_END); A(4, 0x43, 0x40, HI(SER + 3), LO(SER + 3)); INC(4); A(4, 0x42, 0x40, HI(SER + 3), LO(SER + 3)); label(L_SUB); }
            op_poll(0x00e, PCCW, L_T2, L_ERR);
            BCT(6, L_LOOP);
            label(L_END); MVI(DONE, 0xdd); LPSW(STOPP);
            label(L_ERR); A(6, 0xd2, 7, 0x80, 0, 0, 0x40); MVI(DONE, 0xdd); LPSW(ERRP);
        } else {
            MVI(FLAG, 2);
            label(L_LOOP);
            if (style == WAIT) { MVI(FLAG, 2); }
            MVC(0x48, 4, CAWS); SIO(0x00c); BC(5, L_ERR);
            if (style == WAIT) { waitfor(1, L_W, L_GO); delay(); MVC(BUFB, 80, BUFA); }
            else { waitfor(3, L_W, L_GO); delay(); MVC(BUFB, 80, BUFA); }
            MVI(FLAG, 0);
            MVC(0x48, 4, CAWS + 4); SIO(0x00e); BC(5, L_ERR);
            if (style == WAIT) waitfor(2, L_W2, L_NX);
            BCT(6, L_LOOP);
            if (style == OVERLAP) waitfor(2, L_W2, L_NX);
            MVI(DONE, 0xdd); LPSW(STOPP);
            label(L_ERR); A(6, 0xd2, 7, 0x80, 0, 0, 0x40); MVI(DONE, 0xdd); LPSW(ERRP);
            label(L_H); A(6, 0xd2, 7, 0x80, 0, 0, 0x40); A(6, 0xd2, 1, 0x80, 0, 0, 0x3a); A(4, 0x41, 0x80, 0x80, 8);
            TM(0x44, 4); BC(8, L_H2);
            CLI(0x3b, 0x0c); BC(7, L_H1); A(4, 0x96, 1, HI(FLAG), LO(FLAG)); LPSW(CONT);
            label(L_H1); A(4, 0x96, 2, HI(FLAG), LO(FLAG));
            label(L_H2); LPSW(CONT);
        }
        prog_len = an;
        if (aorg + an > RCCW) mc_fail("harness", "program too long");
        ORG(RCCW);
        CCW(2, BUFA, 0, 80); CCW(9, style == POLL ? BUFA : BUFB, sli, 80); CCW(1, SER, 0x20, npunch);
        A(8, 0,0,0,0, 0,0,4,0); A(8, 0x80,2,0,0, 0,0,4,0); A(8, 0,2,0,0, 0,0,7,0x77);        /* 518 CONT, WAITP, STOPP */
        ORG(ERRP); A(8, 0,2,0,0, 0,0,0xe,0xee);
        ORG(SER); A(4, 0xf0, 0xf0, 0xf0, 0xf1);
        ORG(CAWS); A(12, 0,0,HI(RCCW),LO(RCCW), 0,0,HI(PCCW),LO(PCCW), 0,0,HI(WCCW),LO(WCCW));
        ORG(RET); A(4, HI(lb(L_W)), LO(lb(L_W)), HI(lb(L_W2)), LO(lb(L_W2)));
    }
}
static uint8_t data[20][80];
static void mkdata(int n, int blank)
{
    for (int k = 0; k < n; k++) for (int i = 0; i < 80; i++) {
        static const char t[] = "\xc1\xc2\xc3\xd1\xe9\xf0\xf9\x40\x5b\x4b\x61\x60\x7d\xc8";
        data[k][i] = i < blank ? 0x40 : (uint8_t)t[(i * (k + 1) + k) % 14];
        if (i == 79) data[k][i] = 0xf0 + k;
    }
}
/* IPL deck: first card reads the program to 400, 450, ...; the list of CCWs is on the second card when there are many */
static const uint8_t boot_psw[8] = { 0,0,0,0, 0,0,4,0 };
static int boot_cards;
static void ipl_deck(const uint8_t *psw)
{
    uint8_t c[80]; int i, k = (an + 79) / 80, m;
    memset(c, 0x40, 80); memcpy(c, psw, 8);
    memset(as + an, 0, sizeof as - an < 80 ? sizeof as - an : 80);
    { static const uint8_t two[16] = { 2,0,3,0, 0x60,0,0,80, 8,0,3,0, 0,0,0,0 }; memcpy(c + 8, two, 16); punch(c, 80); }
    memset(c, 0x40, 80);
    m = k > 9 ? 9 : k;
    for (i = 0; i < k && i < 10; i++) { int a = 0x400 + 80 * i; uint8_t w[8] = { 2, 0, HI(a), LO(a), i == k - 1 ? 0 : 0x40, 0, 0, 80 }; memcpy(c + 8 * i, w, 8); }
    punch(c, 80); (void)m;
    for (i = 0; i < k; i++) punch(as + 80 * i, 80);
    boot_cards = 2 + k;
}
static int iplw(int max) { int k = 0; while (!(C->waiting()) && k++ < max) step(); return C->waiting(); }
static void describe(const char *f, ...) { va_list ap; va_start(ap, f); vsnprintf(ctx, sizeof ctx, f, ap); va_end(ap); }
/* expected: all cards printed, one line each */
static void check_paper(const char *b, int n)
{
    char want[4096]; int w = 0, i, k, len;
    (void)len;
    for (k = 0; k < n; k++) { int l = w; for (i = 0; i < 80; i++) { int ch = ebcdic_to_ascii[data[k][i]]; want[w++] = ch >= 32 && ch < 127 ? ch : '.'; } while (w > l && want[w - 1] == ' ') w--; want[w++] = '\n'; }
    want[w] = 0;
    { static char got[8192]; int g = 0, ls = 0; size_t j;                     /* drop carriage returns and blanks at end of lines */
      for (j = 0; j < olen && g < 8000; j++) { if (b[j] == '\r') continue; if (b[j] == '\n') { while (g > ls && got[g - 1] == ' ') g--; got[g++] = '\n'; ls = g; continue; } got[g++] = b[j]; }
      got[g] = 0;
      if (strcmp(got, want)) { for (i = 0; got[i] == want[i]; i++) ; bad("print", "printer output differs at character %d of %d: '%.30s', expected '%.30s'", i, g, got + i, want + i); } }
}
static void check_log(int n)
{
    int p = LOG, k, d;
    if (style == POLL) {
        for (k = 0; k < n; k++) for (d = 0; d < 2 + (npunch && k < n - 1); d++) {
            int st = 0, dev = d == 0 ? 'r' : npunch && k < n - 1 && d == 1 ? 'w' : 'p', want = 0x0c, ce = 0;
            do {
                const uint8_t *c = dm + p; int x = dev == 'r' ? RCCW : dev == 'w' ? WCCW : PCCW;
                if (p >= (int)D.r[8]) bad("csw", "card %d: CSW of operation %c missing", k + 1, dev);
                dm[p + 4] &= ~(dev == 'p' ? 0x20 : 0);      /* the 1443 adds control unit end after it was found busy */
                if (c[4] & st) bad("csw", "card %d operation %c: status %02x after %02x", k + 1, dev, c[4], st);
                st |= c[4];
                if (c[5] || c[0]) bad("csw", "card %d operation %c: CSW %s", k + 1, dev, hex(c, 8));
                if (c[4] & 8) { ce = 1; if ((c[2] << 8 | c[3]) != x + 8 || c[1] || c[6] || c[7]) bad("csw", "card %d operation %c: CSW %s, expected address %04x count 0", k + 1, dev, hex(c, 8), x + 8); }
                p += 8;
            } while (!(st & 4));
            if (dev == 'r' && k == n - 1) want |= 1;
            if (st != want || !ce) bad("csw", "card %d operation %c: status %02x, expected %02x", k + 1, dev, st, want);
        }
    } else {
        int nr = 0, np = 0, sr = 0, sp = 0;
        for (; p < (int)D.r[8]; p += 8) {
            const uint8_t *c = dm + p; int r = c[1] == 0x0c, *s = r ? &sr : &sp, want = 0x0c;
            if (c[0] || (c[1] != 0x0c && c[1] != 0x0e)) bad("csw", "interruption of device %02x%02x", c[0], c[1]);
            if (c[4] & *s) bad("csw", "device %02x: status %02x after %02x", c[1], c[4], *s);
            if (c[5]) bad("csw", "device %02x: CSW %s", c[1], hex(c, 8));
            if (c[4] & 8 && ((c[2] << 8 | c[3]) != (r ? RCCW : PCCW) + 8 || c[6] || c[7])) bad("csw", "device %02x: CSW %s (first two bytes: device)", c[1], hex(c, 8));
            *s |= c[4];
            if (*s & 4) { if (r) nr++; else np++; if (r && nr == n) want |= 1; if (*s != want) bad("csw", "device %02x operation %d: status %02x, expected %02x", c[1], r ? nr : np, *s, want); *s = 0; }
        }
        if (nr != n || np != n) bad("csw", "%d reader and %d printer operations ended, expected %d", nr, np, n);
    }
}
static void check_cards(int n, int total)
{
    int i, k, s;
    if (hopper_size(rc->feed) != 0) bad("cards", "%d cards left in the hopper", hopper_size(rc->feed));
    s = stack_size(rc->stack[0]) + rc->rdr_full + rc->pch_full;
    if (s != total || stack_size(rc->stack[1])) bad("cards", "%d cards of %d are in the stacker, read and punch stations (%d in the other stacker)", s, total, stack_size(rc->stack[1]));
    for (k = 0; k < total; k++) {
        uint16_t *g = k < stack_size(rc->stack[0]) ? (*rc->stack[0]->images)[k] : k == stack_size(rc->stack[0]) && rc->pch_full ? rc->pch_card : rc->rdr_card;
        for (i = 0; i < 80; i++) {
            uint16_t w = deck[k][i];
            if (k >= total - n && k < total - 1 && i < npunch) w |= ebcdic_to_hol(i < 3 ? 0xf0 : 0xf1 + (k - (total - n)));
            if (g[i] != w) bad("cards", "card %d column %d is %03x, expected %03x", k + 1, i + 1, g[i], w);
        }
    }
}
static void ipl_start(int d)
{
    if (d >= 0) { switches(d); LOAD = 1; }
}
static void finish(int n)
{
    int ok = until(1000000);
    if (getenv("MC_DUMP")) { FILE *f = fopen(getenv("MC_DUMP"), "a"); fprintf(f, "%s %s ok %d now %ld ia? r6 %08x r8 %08x old %s csw %s log %s flag %02x cont %s\n", C->name, ctx, ok, now, D.r[6], D.r[8], hex(dm + 0x38, 8), hex(dm + 0x40, 8), hex(dm + LOG, 32), dm[FLAG], hex(dm + CONT, 24)); fclose(f); }
    if (!ok) bad("hang", "program does not end");
    if (D.r[6]) bad("end", "program stopped with %d cards to go, CSW %s", D.r[6], hex(dm + D.r[8], 8));
    for (int i = 0; i < n * 0; i++) ;
    fflush(out);
    check_log(n); check_paper(obuf, n); check_cards(n, ncards);
    if (is30() ? cpu_2030.load_mode : cpu_2050.load_mode) bad("load", "load light is on");
}
static void prepare(int n)
{
    int i;
    ncopy = n; program(); mkdata(n, npunch);
    ipl_deck(boot_psw);
    for (i = 0; i < n; i++) punch(data[i], 80);
    tm[0x78] = 0;
}
static void copy_(int model)
{
    C = model ? &cpu30 : &cpu50;
    begin();
    style = mc_choose(3, "style: poll, interruption, overlapped"); npunch = style == POLL ? 4 * mc_choose(2, "punch") : 0;
    spin = mc_choose(mc_thorough ? 400 : 40, "delay"); 
    sli = 0x20;
    prepare(1 + mc_choose(2, "cards"));
    mc_chosen();
    describe("style %d punch %d delay %d, %d cards", style, npunch, spin, ncopy);
    model1442_feed(rc); rc->eof_flag = 1;
    { uint8_t n[8] = { 0,0,0,0, 0,0,HI(LB[L_H]),LO(LB[L_H]) }; memcpy(tm + 0x78, n, 8); }
    C->put(&T); SYS_RST = 1; run(1500);
    trace(); ipl_start(0x00c);
    finish(ncopy);
}
static void copy50(void) { copy_(0); }
static void copy30(void) { copy_(1); }

/* ---- the load operation itself ---- */
enum { SHAPES = 7, BADS = 4 };
static uint8_t want[S360_MEM], first[S360_MEM]; static int used;        /* expected storage, cards read */
static void readto(const uint8_t *c, int from, int a, int n) { memcpy(want + a, c + from, n); }
static int onsel;     /* reader on the selector channel */
static int use;      /* 1, 2: loaded program prints a line on the multiplexer or selector channel */
static void load_deck(int shape, const uint8_t *psw, int extra)
{
    uint8_t c[80], d[6][80]; int i, k;
    for (k = 0; k < 6; k++) for (i = 0; i < 80; i++) d[k][i] = 0xc1 + (i * 7 + k) % 9;
    memcpy(want, tm, S360_MEM);
    memset(c, 0x40, 80); memcpy(c, psw, 8);
#define W2(a1,f1,n1,a2,f2,n2) { uint8_t w[16] = { 2, 0, HI(a1), LO(a1), f1, 0, 0, n1, (a2) == 0x300 && (n2) == 0 ? 8 : 2, 0, HI(a2), LO(a2), f2, 0, 0, n2 }; memcpy(c + 8, w, 16); }
    static const uint8_t code[] = { 0x0a, 0x77, 0x47, 0xf0, 0x04, 0x02 };         /* SVC, then a loop that must not be reached */
    uint8_t prog[48] = { 0xd2,3,0,0x48,4,0x1c, 0x9c,0,use - 1,0x0e, 0x9d,0,use - 1,0x0e, 0x47,0x70,4,0x0a, 0x0a,0x77, 0x47,0xf0,4,0x14, 0,0,0,0, 0,0,4,0x20, 9,0,4,0x28,0x20,0,0,8, 0xd3,0xc9,0xd5,0xc5,0x40,0xf3,0xf6,0xf0 };
    switch (shape) {
    case 0: W2(0x400, 0x40, 80, 0x450, 0, 80); break;
    case 1: W2(0x400, 0, 80, 0x7000, 0x55, 3); break;                             /* second CCW not used */
    case 2: W2(0x400, 0x80, 40, 0x900, 0, 40); break;                             /* data chaining */
    case 3: W2(0x7000, 0x50, 80, 0x400, 0, 80); break;                            /* skip */
    case 4: W2(0x300, 0x40, 80, 0x300, 0x40, 0); { uint8_t w[24] = { 2,0,4,0, 0x40,0,0,80, 2,0,4,0x50, 0x80,0,0,30, 2,0,10,0, 0,0,0,50 }; memcpy(d[0], w, 24); } break;
    case 5: W2(0x400, 0x60, 30, 0x450, 0x20, 7); break;                           /* short, suppress incorrect length */
    case 6: W2(0x400, 0x60, 80, 0x500, 0x20, 80); break;
    case 8: case 9: W2(0x400, 0x40, 80, 0x450, 0, 80); break;                     /* invalid punches in the second, first card */
    case 10: W2(0x400, 0x40, 80, 0x450, 0, 80); break;                            /* hopper runs empty */
    }
    memcpy(shape == 3 || shape == 4 ? d[1] : d[0], use ? prog : code, use ? sizeof prog : sizeof code);
    punch(c, 80);
    if (shape == 9) (*rc->feed->images)[0][10] = 0xfff;
    readto(c, 0, 0, 24);
    want[2] = onsel; want[3] = 0x0c;                                                  /* unit address is stored */
    used = 2;
    switch (shape) {
    case 0: readto(d[0], 0, 0x400, 80); readto(d[1], 0, 0x450, 80); used = 3; break;
    case 1: readto(d[0], 0, 0x400, 80); break;
    case 2: readto(d[0], 0, 0x400, 40); readto(d[0], 40, 0x900, 40); break;
    case 3: readto(d[1], 0, 0x400, 80); used = 3; break;
    case 4: readto(d[0], 0, 0x300, 80); readto(d[1], 0, 0x400, 80); readto(d[2], 0, 0x450, 30); readto(d[2], 30, 0xa00, 50); used = 4; break;
    case 5: readto(d[0], 0, 0x400, 30); readto(d[1], 0, 0x450, 7); used = 3; break;
    case 6: readto(d[0], 0, 0x400, 80); readto(d[1], 0, 0x500, 80); used = 3; break;
    }
    for (k = 0; k < (shape == 10 ? 1 : used - 1 + extra + (shape > 6 ? 2 : 0)); k++) {
        punch(d[k], 80);
        if (shape == 8 && k == 0) (*rc->feed->images)[1][60] = 0xfff;
    }
}
static int loadlight(void) { return is30() ? cpu_2030.load_mode : cpu_2050.load_mode; }
static long keyat; static int keylight, started;        /* an interruption request before the reader is started belongs to the reset */
static int settle(long max) { int q = 0; started = 0; long n = 0; while (max-- > 0) { if (keyat && n == keyat) { INTR = 1; keylight = loadlight() && started; } step(); started |= rdr->selected; n++; q = idle() ? q + 1 : 0; if (q && q % 20000 == 0) { D.m = dm; C->get(&D); if (dm[0x23] == 0x77 || dm[0x1b] == 0x40) break; } } mc_steps(n); return max > 0; }
static void low(uint8_t *m) { memset(m + 0x20, 0, 8); memset(m + 0x40, 0, 8); memset(m + 0x50, 0, 4); }
/* a new deck is put in the reader, as an operator does */
static void newdeck(void)
{
    struct _1442_context old = *rc; empty_cards(rc->feed); empty_cards(rc->stack[0]); empty_cards(rc->stack[1]);
    memset(rc, 0, sizeof *rc); rc->feed = old.feed; rc->stack[0] = old.stack[0]; rc->stack[1] = old.stack[1]; rc->addr = old.addr; ncards = 0;
    rdr->request = rdr->stacked = rdr->selected = 0;
}
static void load_once(int shape, int before, int pswk, int extra, int ready)
{
    static const uint8_t psws[][4] = { { 0, 0, 0, 0 }, { 0xff, 4, 0, 0 }, { 0x80, 0, 0x3a, 0 }, { 0x01, 0x35, 0, 0 }, { 0xff, 0xa9, 0x15, 0 }, { 0x7f, 4, 0x2f, 0 } };
    uint8_t psw[8] = { 0,0,0,0, 0,0,4,0 }; int i, w;
    memcpy(psw, psws[pswk], 3); psw[4] = psw[2]; psw[2] = 0;
    { uint8_t nw[8] = { 0,2,0,0, 0,0,9,0x99 & 0xfe }; memcpy(tm + 0x60, nw, 8); nw[1] = 0x02; for (i = 0; i < 5; i++) if (i != 1) { int a[] = { 0x58, 0x60, 0x68, 0x70, 0x78 }; nw[7] = 0x10 + 2 * i; memcpy(tm + a[i], nw, 8); } }
    load_deck(shape, psw, extra);
    if (ready) { model1442_feed(rc); if (!extra) rc->eof_flag = 1; }
    if (onsel) { chan[0] = prt; rdr->next = prt2; chan[1] = rdr; }
    C->put(&T);
    if (before == 0) { SYS_RST = 1; run(1500); }
    if (before == 1) { C->start(0xc00); run(3000); }                             /* program in a loop */
    if (before == 2) { C->start(0xc10); run(3000); }                             /* waiting */
    if (before == 3) { C->start(0xc20); run(3000); }                             /* printer started, at work while the load key is pressed */
    if (before == 4) { C->start(0xc20); run(120000); }                            /* printer interruption pending */
    if (before == 5) { C->start(0xc30); run(3000); }                              /* printer on the selector channel */
    if (before == 6) { C->start(0xc30); run(120000); }
    if (before == 7) { C->start(0xc00); run(1000); timer_event = 1; run(3000); }  /* the interval timer ran out */
    ipl_start(onsel ? 0x10c : 0x00c);
    step();
    w = settle(shape >= 8 || !ready ? 700000 : 1500000);
    D.m = dm; C->get(&D);
    if (shape >= 8 || !ready) {
        if (w && dm[0x23] == 0x77) bad("failed-load", "program was started although loading failed");
        if (!loadlight()) bad("failed-load", "load light went out although loading failed");
        return;
    }
    if (!w) bad("load-hang", "processor does not reach the end of the loaded program");
    if (loadlight()) bad("load-light", "load light is on after loading");
    if (keyat && psw[0] & 1 && !keylight) return;
    if (keyat && psw[0] & 1) {
        uint8_t o[8]; memcpy(o, psw, 8); o[2] = 0; o[3] = 0x40; o[4] = psw[4];
        dm[0x1c] &= 0x3f;
        if (memcmp(dm + 0x18, o, 8)) bad("key", "interruption key pressed %ld cycles after load: external old PSW %s, expected %s", keyat, hex(dm + 0x18, 8), hex(o, 8));
        memcpy(want + 0x18, o, 8);
    } else {
        uint8_t o[8]; memcpy(o, psw, 8); o[2] = 0; o[3] = 0x77; o[4] = 0x40 | psw[4]; o[7] = 0x02;
        if (use) o[7] = 0x14;
        if (memcmp(dm + 0x20, o, 8)) bad("psw", "PSW of the loaded program was %s, expected %s", hex(dm + 0x20, 8), hex(o, 8));
    }
    if (use) want[0x4a] = 4, want[0x4b] = 0x20;
    low(dm); memcpy(first, want, S360_MEM); low(first);
    for (i = 0; i < S360_MEM; i++) if (dm[i] != first[i]) bad("storage", "storage %04x is %02x, expected %02x", i, dm[i], first[i]);
    fflush(out);
    if (use) {
        const char *e = strstr(obuf, "LINE 360\r\n"); int k;
        if (!e) e = strstr(obuf, "LINE 360\n");
        for (k = 0; e && obuf + k < e; k++) if (!strchr("A\r\n", obuf[k])) e = NULL;
        if (!e || strstr(e + 8, "LINE")) bad("print", "line of the loaded program is missing, output '%.60s'", obuf);
    }
    if (olen && !use && (before < 3 || before == 7)) bad("print", "printer output");
    i = hopper_size(rc->feed);
    if (i != (extra ? ncards - used - 1 : 0) && i != ncards - used) bad("cards", "%d cards in the hopper, %d of %d were to be read", i, used, ncards);
}
static void fill(void)
{
    static const uint8_t loop[] = { 0x47, 0xf0, 0x0c, 0x00 }, wait_[] = { 0x82, 0, 0x0c, 0x48 }, sio2[] = { 0x9c, 0, 1, 0x0e, 0x47, 0xf0, 0x0c, 0x34 }, sio[] = { 0x9c, 0, 0, 0x0e, 0x47, 0xf0, 0x0c, 0x24 };
    static const uint8_t wpsw[] = { 0, 2, 0, 0, 0, 0, 0x0c, 0x20 }, ccw[] = { 9, 0, 0x0c, 0x60, 0x20, 0, 0, 40 };
    for (int i = 0x80; i < S360_MEM; i++) tm[i] = (i * 13 + (i >> 8) * 5) & 0x7f;
    memcpy(tm + 0xc00, loop, 4); memcpy(tm + 0xc10, wait_, 4); memcpy(tm + 0xc20, sio, 8); memcpy(tm + 0xc30, sio2, 8);
    memcpy(tm + 0xc48, wpsw, 8); memcpy(tm + 0xc50, ccw, 8);
    tm[0x48] = 0; tm[0x49] = 0; tm[0x4a] = 0x0c; tm[0x4b] = 0x50;
    for (int i = 0; i < 40; i++) tm[0xc60 + i] = 0xc1;
}
static void load_(int model)
{
    int shape, before, pswk, extra, f;
    C = model ? &cpu30 : &cpu50;
    begin(); fill();
    f = mc_choose(1 + 4, "failed attempt before");                                /* 0 none, else shape 8..10, not ready */
    before = mc_choose(8, "before");
    use = mc_choose(3, "program prints"); keyat = 0;
    if (!f && !use && before == 0) {
        int k = mc_choose(mc_thorough ? 40 : 8, "interruption key");
        static const long at[] = { 0, 30, 1000, 1500, 2000, 4000, 7000, 12000 };
        keyat = k < 8 ? at[k] : (k - 7) * 467L;
    }
    onsel = mc_choose(2, "reader on selector channel");
    if (f) { shape = mc_choose(2, "deck") * 4; pswk = 0; extra = 1; if (shape) use = 0; }
    else if (use) { shape = mc_choose(2, "deck"); pswk = 0; extra = mc_choose(2, "more cards"); }
    else { shape = mc_choose(SHAPES, "deck"); pswk = mc_choose(mc_thorough || shape == 0 ? 6 : 1, "psw"); extra = mc_choose(2, "more cards"); }
    mc_chosen();
    if (f) {
        describe("load that fails (%d) from state %d", f, before);
        load_once(f == 4 ? 0 : f + 7, before, 0, 1, f != 4);
        newdeck();
        memset(tm, 0, S360_MEM); fill(); before = 9;
    }
    describe("%s reader, deck %d, use %d, state %d before, psw %d, %d cards behind, attempt before %d", onsel ? "selector" : "multiplexer", shape, use, before, pswk, extra, f);
    trace();
    load_once(shape, before, pswk, extra, 1);
}
static void load50(void) { load_(0); }
static void load30(void) { load_(1); }
mc_part mc_parts[] = { { "copy-2050", copy50 }, { "copy-2030", copy30 }, { "load-2050", load50 }, { "load-2030", load30 }, { NULL } };
