/*
 * C12: input/output goes on while the processor executes instructions: at every relative timing neither disturbs the
 * other, and operations of different devices and channels do not disturb each other.
 *
 * MC-GROUPS: top device model2050 model2030
 * MC-EXTRA: s360.c cpu50.c cpu30.c iodev.c
 * MC-SAN: none
 * MC-OPT: -O2
 */
#include "cputest.h"
#include "cpu.h"
#include "device.h"
#include "xlat.h"
#include "iodev.h"
#include "refchan.h"
uint64_t step_count;
const char *mc_property = "C12";
const char *mc_bounds = "overlap, interrupt: 5 kinds of channel and device x read/write x one byte at every 4th microcycle (thorough: every one) of every program of progs.h, and streams of 9 bytes with every gap 0-11 (thorough 0-39), interruptions masked and enabled; "
    "two: all pairs of 6 devices (byte, burst, 3 bytes at a time, selector 1 and 2) x read/write x masked/enabled x 3 gaps x 3 start times of the first x 20 start times (thorough 120) and 2 gaps of the second; "
    "control: TEST I/O, TEST CHANNEL, HALT I/O and START I/O on 5 kinds of channel and device, at once or later, with the first byte after 120 different delays (thorough 360), 2 gaps, device count the same, longer, longer with SLI, device end with or after channel end, one more operation afterwards; each on models 2050 and 2030";
const char *mc_assumptions[] = {
    "the devices are scripted (iodev.c) and follow the I/O interface: they drop off when address out rises without select out, except while status is being accepted",
    "oracle of overlap and interrupt: the reference interpreter s360.c run without input/output; the channel program itself touches only storage the program does not use",
    "START I/O may answer condition code 2 while the multiplexer serves another byte; the program tries again",
    "after HALT I/O ends an operation of a selector channel, count and command address are not compared, a first interruption without status is allowed and bytes on the way to storage may be lost", NULL };
#include "iocase.h"
#define PROGS_NO_BAD
#include "progs.h"
#define PRE 0x180u
#define BUF 0x2803u
/* prefix of the program: CAW, START I/O for each device, condition codes must be 0 */
static void prefix(void)
{
    int i, a = PRE;
    for (i = 0; i < nx; i++) {
        ct_code(a, 10, 0xd2,3,0,0x48,0x01,0x70 + 4 * i, 0x9c,0,X[i].d.addr >> 8 & 15,X[i].d.addr & 255); a += 10;
        ct_code(a, 4, 0x47,0x70,0x01,0x60); a += 4;
        ct_code(0x170 + 4 * i, 4, 0, 0, 5, 0x40 * i);
    }
    ct_code(a, 4, 0x82,0,0x01,0xc8);
    ct_code(0x160, 4, 0x82,0,0x01,0x68); ct_code(0x168, 8, 0,2,0,0,0,0,0x77,0x77);
}
static int alldone(void) { int i; for (i = 0; i < nx; i++) if (!(X[i].nop && (X[i].cend || X[i].nacc))) return 0; return 1; }
static void finish_run(long lim)
{
    int q = 0;
    while (q < 400) { io_cycle(); q = C->waiting() && alldone() ? q + 1 : 0; if (now > lim) break; }
    mc_steps(now);
    D.m = dm; C->get(&D);
    if (now > lim) bad("hang", "not finished after %ld microcycles (%s, device state %d, %d bytes)", now, C->waiting() ? "waiting" : "running", X[0].st, X[0].cnt);
}
static void check_io(int i, int in, int cnt, int len)
{
    int j, n = cnt < len ? cnt : len;
    if (X[i].viol[0]) bad("bus", "%s", X[i].viol);
    if (in) { for (j = 0; j < 16; j++) if (dm[BUF + 0x40 * i + j] != (j < n ? X[i].data[j] : tm[BUF + 0x40 * i + j])) bad("data", "device %03x: input area is %s, expected %d bytes of %s", X[i].d.addr, ct_hex(dm + BUF + 0x40 * i, 16), n, ct_hex(X[i].data, n)); }
    else { if (X[i].ngot[0] != n || memcmp(X[i].got[0], tm + BUF + 0x40 * i, n)) bad("data", "device %03x: took %d bytes %s, expected %d of %s", X[i].d.addr, X[i].ngot[0], ct_hex(X[i].got[0], X[i].ngot[0]), n, ct_hex(tm + BUF + 0x40 * i, n)); }
}
static void compare(const s360 *r, int io)          /* final state against the reference */
{
    uint32_t i;
    for (i = 0; i < 16; i++) if (r->r[i] != D.r[i]) bad("state", "register %d is %08x, expected %08x", i, D.r[i], r->r[i]);
    if (C->fp) for (i = 0; i < 8; i++) if (r->f[i] != D.f[i]) bad("state", "floating point register word %d is %08x, expected %08x", i, D.f[i], r->f[i]);
    for (i = 0; i < sizeof km[0]; i++) if (r->m[i] != dm[i] && !(i >= 0x48 && i < 0x4c) && !(i >= BUF && i < BUF + 0x140) && !(io && ((i >= 0x38 && i < 0x48) || (i >= 0x640 && i < 0x6c0))))
        bad("state", "storage %04x is %02x, expected %02x", i, dm[i], r->m[i]);
}
static const char *KIND[] = { "byte multiplexer", "multiplexer burst", "selector 1", "selector 2", "multiplexer 3 bytes at a time" };
static const uint16_t ADDR[] = { 0x00f, 0x00e, 0x10f, 0x20f, 0x00d };
static void one(int intr)
{
    int pi = mc_choose(N(P), "program"), k, in, t, cnt, len, i;
    nx = 0; memset(chan, 0, sizeof(device_t *) * 6); now = 0; div_ = 1; io_name = io_class = NULL;
    load(pi, 0);
    if (p->fp && !C->fp) mc_prune();
    if (p->fp) for (i = 0; i < 8; i++) T.f[i] = 0x11223300u + i;
    k = mc_choose(5, "channel"); in = mc_choose(2, "output, input");
    add(ADDR[k], k == 1); X[0].group = k == 4 ? 3 : 0;
    if (mc_choose(2, "single byte, stream")) {
        cnt = len = 9; X[0].op[0].first = 5; X[0].op[0].gap = mc_choose(mc_thorough ? 40 : 12, "microcycles between bytes"); t = X[0].op[0].gap;
    } else {
        cnt = len = 1; t = X[0].op[0].first = mc_choose((pathlen() + 200) / (mc_thorough ? 1 : 4), "time of byte") * (mc_thorough ? 1 : 4) + (mc_thorough ? 0 : (pi + k + in) & 3); X[0].op[0].gap = 0;
    }
    X[0].op[0].len = len;
    ccw(0, in ? 2 : 1, BUF, 0, cnt);
    for (i = 0; i < 32; i++) tm[BUF + i] = 0x31 + 5 * i;
    prefix();
    if (intr) {
        for (i = 0; i < 4; i++) { static const int W[] = { CODE + 0x58, CODE + 0x60, 0x60, CODE + 0x68 }; if (tm[W[i]] == 1) tm[W[i]] = 0xff; }
        tm[0x2033] = 0xff; if (T.sysmask) T.sysmask = 0xff;
        ct_code(0x78, 8, 0,0,0,0, 0,0, 6,0);
        ct_code(0x600, 32, 0x90,0x12,0x06,0x40, 0xd2,7,0x06,0x60,0x00,0x38, 0xd2,7,0x06,0x68,0x00,0x40, 0x58,0x10,0x06,0x50, 0x41,0x11,0,1, 0x50,0x10,0x06,0x50, 0x98,0x12,0x06,0x40); ct_code(0x620, 4, 0x82,0,0,0x38);
        memset(tm + 0x640, 0, 0x40);
    }
    CTX("program %s, %s on %s, %d bytes, timing %d", p->name, in ? "read" : "write", KIND[k], len, t);
    boot();
    C->start(PRE); now = 0;
    finish_run(60000);
    check_io(0, in, cnt, len);
    if (intr) {
        int n = dm[0x653];
        if (n > 1) bad("twice", "%d interruptions", n);
        if (n == 0 && (K[nk - 1].sysmask & 0xfe)) bad("lost", "no interruption");
        if (n == 1 && (memcmp(dm + 0x668, tm + 0x41d0, 0) || dm[0x66c] != 0x0c || dm[0x66d] || dm[0x66e] || dm[0x66f])) bad("csw", "CSW %s", ct_hex(dm + 0x668, 8));
        if (n == 1 && (dm[0x662] << 8 | dm[0x663]) != X[0].d.addr) bad("intaddr", "old PSW %s", ct_hex(dm + 0x660, 8));
        mc_outcome("%s %s %d interruptions", C->name, p->name, n);
    }
    compare(&K[nk - 1], intr);
}
static void overlap(void) { one(0); }
static void interrupt(void) { one(1); }
/* two devices, on the same or different channels, at all relative times */
static void two(void)
{
    static const struct { uint16_t a; int burst, group; const char *n; } DEV[] = { { 0x00f, 0, 0, "byte 00f" }, { 0x01e, 0, 0, "byte 01e" }, { 0x00e, 1, 0, "burst 00e" }, { 0x10f, 0, 0, "selector 10f" }, { 0x20f, 0, 0, "selector 20f" }, { 0x02d, 0, 3, "3 bytes at a time 02d" } };
    int ka = mc_choose(6, "first device"), kb = mc_choose(6, "second device"), i, j, k, n, a;
    if (ka == kb) mc_prune();
    int in[2], mask;
    io_base();
    in[0] = mc_choose(2, "first device: output, input"); in[1] = mc_choose(2, "second device: output, input");
    mask = mc_choose(2, "interruptions masked until both started, allowed");
    add(DEV[ka].a, DEV[ka].burst); add(DEV[kb].a, DEV[kb].burst); X[0].group = DEV[ka].group; X[1].group = DEV[kb].group;
    X[0].op[0].gap = PICK(((int[]){ 1, 7, 30 }), "gap of first device"); X[0].op[0].first = PICK(((int[]){ 3, 60, 180 }), "first byte of first device");
    X[1].op[0].gap = PICK(((int[]){ 3, 13 }), "gap of second device"); X[1].op[0].first = mc_thorough ? mc_choose(120, "first byte of second device") : mc_choose(20, "first byte of second device") * 6 + (ka + kb) % 6;
    X[0].op[0].len = X[1].op[0].len = 5;
    for (i = 0; i < 64; i++) X[1].data[i] = 0x0f + i * 9;
    for (i = 0; i < 2; i++) ccw(8 * i, in[i] ? 2 : 1, 0x2003 + 0x40 * i, 0, 5);
    /* MVC CAW; SIO; BC busy,*-4; next; LPSW enabled wait */
    T.sysmask = mask ? 0xff : 0;
    for (i = 0, a = CODE; i < 2; i++) {
        ct_code(a, 6, 0xd2,3,0,0x48, 0x07,0x08 + 4 * i); a += 6;
        ct_code(0x708 + 4 * i, 4, 0,0,5,0x40 * i);
        ct_code(a, 4, 0x9c,0,X[i].d.addr >> 8,X[i].d.addr & 255); ct_code(a + 4, 4, 0x47,0x20,a >> 8,a & 255); a += 8;
        ct_code(a, 6, 0x05,0x50, 0x50,0x50,0x07,4 * i); a += 6;
    }
    ct_code(a, 4, 0x82,0,0x07,0x10);
    /* handler: log, return to old PSW */
    ct_code(HND + 22, 4, 0x82,0,0,0x38);
    CTX("%s %s, then %s %s, %s, first byte %d gap %d, first byte %d gap %d", DEV[ka].n, in[0] ? "read" : "write", DEV[kb].n, in[1] ? "read" : "write", mask ? "interruptions allowed" : "interruptions masked", X[0].op[0].first, X[0].op[0].gap, X[1].op[0].first, X[1].op[0].gap);
    io_psw(); io_boot(); io_run();
    for (i = 0; i < 2; i++) if ((dm[0x700 + 4 * i] >> 4 & 3) != 0) bad("cc", "condition code of START I/O %d", dm[0x700 + 4 * i] >> 4 & 3);
    n = (D.r[7] - LOGA) / 16;
    for (j = 0; j < 2; j++) {
        for (i = k = 0; i < n; i++) {
            uint8_t *l = dm + LOGA + 16 * i;
            if ((l[2] << 8 | l[3]) != X[j].d.addr) continue;
            if (memcmp(l + 8, (uint8_t[]){ 0,0,5,0x40 * j + 8, 0x0c,0,0,0 }, 8)) bad("csw", "interruption of %03x with CSW %s", X[j].d.addr, ct_hex(l + 8, 8));
            k++;
        }
        if (k != 1) bad(k ? "twice" : "lost", "%d interruptions from device %03x", k, X[j].d.addr);
    }
    if (n != 2) bad("extra", "%d interruptions", n);
    for (j = 0; j < 2; j++)
        if (in[j]) { for (i = 0; i < 0x40; i++) { int w = i >= 3 && i < 8 ? X[j].data[i - 3] : tm[0x2000 + 0x40 * j + i]; if (dm[0x2000 + 0x40 * j + i] != w) bad("data", "device %03x: storage %04x is %02x, expected %02x", X[j].d.addr, 0x2000 + 0x40 * j + i, dm[0x2000 + 0x40 * j + i], w); } }
        else { if (X[j].ngot[0] != 5 || memcmp(X[j].got[0], tm + 0x2003 + 0x40 * j, 5)) bad("data", "device %03x took %d bytes %s", X[j].d.addr, X[j].ngot[0], ct_hex(X[j].got[0], X[j].ngot[0]));
               for (i = 0; i < 0x40; i++) if (dm[0x2000 + 0x40 * j + i] != tm[0x2000 + 0x40 * j + i]) bad("data", "device %03x: storage %04x changed by write", X[j].d.addr, 0x2000 + 0x40 * j + i); }
    mc_outcome("%s %s %s", C->name, DEV[ka].n, DEV[kb].n);
}
/* TEST I/O, TEST CHANNEL, HALT I/O or a second START I/O at every time of an operation */
static void control(void)
{
    static const char *const INS[] = { "TEST I/O", "TEST CHANNEL", "HALT I/O", "START I/O" };
    static const int OPC[] = { 0x9d, 0x9f, 0x9e, 0x9c };
    int k = mc_choose(5, "channel"), op = mc_choose(4, "instruction"), in = mc_choose(2, "output, input"), split = mc_choose(2, "device end: with channel end, later"), lng = mc_choose(3, "count of the device: the same, longer, longer and SLI"), n, i, j, a, ce = 0, de = 0, ops, c1, ninst, w, t, stop, halted, n0, nop, u;
    io_base();
    add(ADDR[k], k == 1); X[0].group = k == 4 ? 3 : 0;
    for (i = 0; i < 3; i++) X[0].op[i].len = i == 0 && lng ? 9 : 5, X[0].op[i].split = split ? 40 : 0;
    X[0].op[0].gap = PICK(((int[]){ 1, 25 }), "gap");
    t = mc_thorough ? mc_choose(360, "time of first byte") : mc_choose(120, "time of first byte") * 3 + (k + op + in + split) % 3;
    w = mc_choose(2, "instruction at once, after a while");
    X[0].op[0].first = t;
    ccw(0, in ? 2 : 1, 0x2003, lng == 2 ? 0x20 : 0, 5);
    ct_code(CODE, 4, 0x9c,0,X[0].d.addr >> 8,X[0].d.addr & 255); ct_code(CODE + 4, 6, 0x05,0x50, 0x50,0x50,0x07,0);
    a = CODE + 10;
    if (w) { ct_code(a, 8, 0x41,0x10,0,20, 0x46,0x10,a >> 8,(a + 4) & 255); a += 8; }
    ct_code(a, 4, OPC[op],0,X[0].d.addr >> 8,X[0].d.addr & 255); ct_code(a + 4, 6, 0x05,0x50, 0x50,0x50,0x07,4);
    ct_code(a + 10, 10, 0xd2,7,0x07,0x20,0,0x40, 0x82,0,0x07,0x10);
    ct_code(HND + 22, 4, 0x82,0,0,0x38);
    /* afterwards, on the interrupt key: one more operation, which must not know of the past */
    ct_code(0x58, 8, 0,0,0,0, 0,0, 9,0);
    ct_code(0x900, 24, 0xd2,3,0,0x48,0x07,0x30, 0x9c,0,X[0].d.addr >> 8,X[0].d.addr & 255, 0x05,0x50, 0x50,0x50,0x07,8, 0x82,0,0x07,0x10, 0,0); ct_code(0x730, 4, 0,0,5,0x40);
    ccw(8, in ? 2 : 1, 0x2043, 0, 5);
    CTX("%s %s%s, device end %s, first byte %d gap %d, %s %s", KIND[k], in ? "read" : "write", lng == 2 ? ", device longer, SLI" : lng ? ", device longer" : "", split ? "later" : "with channel end", t, X[0].op[0].gap, INS[op], w ? "after a while" : "at once");
    io_psw(); io_boot(); io_run();
    n0 = (D.r[7] - LOGA) / 16; nop = X[0].nop;
    { extern int INTR; INTR = 1; for (i = 0; i < 50; i++) io_cycle(); INTR = 0; }
    io_limit += now; io_run(); io_limit = 60000;
    if ((dm[0x700] >> 4 & 3) != 0) bad("cc", "condition code of START I/O %d", dm[0x700] >> 4 & 3);
    if ((dm[0x708] >> 4 & 3) != 0) bad("next-cc", "condition code of START I/O afterwards %d", dm[0x708] >> 4 & 3);
    n = (D.r[7] - LOGA) / 16;
    for (i = n0, u = 0; i < n; i++) { uint8_t *l = dm + LOGA + 16 * i; u |= l[12]; if (l[13] || ((l[12] & 8) && memcmp(l + 8, (uint8_t[]){ 0,0,5,0x48, l[12],0,0,0 }, 8)) || (l[12] & ~0x0c)) bad("next-csw", "interruption after the operation afterwards: CSW %s", ct_hex(l + 8, 8)); }
    if (u != 0x0c || n > n0 + 1 + split) bad("next-lost", "%d interruptions after the operation afterwards, status %02x", n - n0, u);
    if (X[0].nop != nop + 1) bad("next-commands", "device did %d operations, expected %d", X[0].nop, nop + 1);
    if (!in && (X[0].ngot[nop] != 5 || memcmp(X[0].got[nop], tm + 0x2043, 5))) bad("next-data", "operation afterwards: device took %d bytes %s", X[0].ngot[nop], ct_hex(X[0].got[nop], X[0].ngot[nop]));
    for (i = 0x40; i < 0x80; i++) { int e = in && i >= 0x43 && i < 0x48 ? X[0].data[i - 0x43] : tm[0x2000 + i]; if (dm[0x2000 + i] != e) bad("next-data", "operation afterwards: storage %04x is %02x, expected %02x", 0x2000 + i, dm[0x2000 + i], e); }
    c1 = dm[0x704] >> 4 & 3;
    n = n0;
    ops = 1 + (op == 3 && c1 == 0);
    ninst = memcmp(dm + CSWL, (uint8_t[]){ 255,255,255,255,255,255,255,255 }, 8) != 0;
    if (ninst && c1 != 1) bad("csw", "%s with condition code %d stored CSW %s", INS[op], c1, ct_hex(dm + CSWL, 8));
    if (c1 == 3) bad("cc", "condition code of %s 3", INS[op]);
    if (op == 0 && c1 == 0) bad("cc", "condition code of TEST I/O 0 while the status of the device was still to come");
    if (op == 1 && ninst) bad("csw", "TEST CHANNEL stored CSW %s", ct_hex(dm + CSWL, 8));
    if (op != 1 && c1 == 1 && !ninst) bad("csw", "%s with condition code 1 did not store a CSW", INS[op]);
    halted = op == 2 && (k == 2 || k == 3) && c1 == 2;
    stop = X[0].stopped[0] && X[0].ngot[0] < 5;
    if (stop && op != 2) bad("count", "device stopped after %d bytes", X[0].ngot[0]);
    for (i = -1; i < n; i++) {
        const uint8_t *l = i < 0 ? dm + CSWL : dm + LOGA + 16 * i + 8; int run = ce;
        u = l[4];
        if (i < 0 && !ninst) continue;
        if (i >= 0 && (dm[LOGA + 16 * i + 2] << 8 | dm[LOGA + 16 * i + 3]) != X[0].d.addr) bad("intaddr", "interruption from %02x%02x", dm[LOGA + 16 * i + 2], dm[LOGA + 16 * i + 3]);
        if (u & ~0x1c) bad("status", "%s %d: CSW %s", i < 0 ? INS[op] : "interruption", i, ct_hex(l, 8));
        if ((u & 0x10) && i >= 0) bad("status", "interruption with busy, CSW %s", ct_hex(l, 8));
        if (i >= 0 && !(u & 0x0c) && halted != 1) bad("status", "interruption without status, CSW %s", ct_hex(l, 8));
        if (i >= 0 && !(u & 0x0c)) halted = 2;                /* a selector channel may interrupt before the device does, once */
        if (u & 8) {
            ce++;
            if ((i >= 0 || op == 0) && memcmp(l, (uint8_t[]){ 0,0,5,8 }, 4) && !(halted && !memcmp(l, "\0\0\0\0", 4))) bad("cswaddr", "CSW %s", ct_hex(l, 8));
            if ((i >= 0 || op == 0) && !run && !halted) {
                int tr = X[0].ngot[0], cnt = l[6] << 8 | l[7];
                if (cnt != 5 - tr) bad("count", "CSW %s, device transferred %d bytes", ct_hex(l, 8), tr);
                if (l[5] & ~0x40) bad("status", "CSW %s", ct_hex(l, 8));
                if (!(l[5] & 0x40) && lng == 1 && op != 2) bad("status", "CSW %s, no incorrect length", ct_hex(l, 8));
                if ((l[5] & 0x40) && tr == 5 && op != 2 && lng != 1) bad("status", "CSW %s, incorrect length", ct_hex(l, 8));
            }
        } else if (l[5] && !(halted && !(l[5] & ~0x40))) bad("status", "CSW %s", ct_hex(l, 8));
        if (u & 4) de++;
    }
    if (halted && is30() && (!X[0].stopped[0] || X[0].ngot[0] == 5)) io_class = "halt-at-end";
    if (ce != ops) bad(ce < ops ? "lost" : "twice", "%d channel ends for %d operations (cc of %s %d)", ce, ops, INS[op], c1);
    if (de != ops) bad(de < ops ? "lost-de" : "twice-de", "%d device ends for %d operations (cc of %s %d)", de, ops, INS[op], c1);
    if (nop != ops) bad("commands", "device did %d operations, expected %d", nop, ops);
    if (!in) for (j = 0; j < ops; j++) if (X[0].ngot[j] > 5 || (!stop && X[0].ngot[j] != 5) || memcmp(X[0].got[j], tm + 0x2003, X[0].ngot[j])) bad("data", "operation %d: device took %d bytes %s", j, X[0].ngot[j], ct_hex(X[0].got[j], X[0].ngot[j]));
    t = stop ? X[0].ngot[0] : 5;
    if (halted && in) while (t && dm[0x2002 + t] == tm[0x2002 + t]) t--;        /* what was on the way when the channel was halted is lost */
    for (i = 0; i < 0x40; i++) { int e = in && i >= 3 && i < 3 + t ? X[0].data[i - 3] : tm[0x2000 + i]; if (dm[0x2000 + i] != e) bad("data", "storage %04x is %02x, expected %02x", 0x2000 + i, dm[0x2000 + i], e); }
    mc_outcome("%s %s %s cc%d n%d", C->name, KIND[k], INS[op], c1, n);
}
/*PARTS overlap interrupt two control*/
static void control_2050(void) { C = &cpu50; control(); }
static void control_2030(void) { C = &cpu30; control(); }
static void overlap_2050(void) { C = &cpu50; overlap(); }
static void overlap_2030(void) { C = &cpu30; overlap(); }
static void interrupt_2050(void) { C = &cpu50; interrupt(); }
static void interrupt_2030(void) { C = &cpu30; interrupt(); }
static void two_2050(void) { C = &cpu50; two(); }
static void two_2030(void) { C = &cpu30; two(); }
mc_part mc_parts[] = {
    { "two-2050", two_2050 },
    { "two-2030", two_2030 },
    { "control-2050", control_2050 },
    { "control-2030", control_2030 },
    { "overlap-2050", overlap_2050 },
    { "overlap-2030", overlap_2030 },
    { "interrupt-2050", interrupt_2050 },
    { "interrupt-2030", interrupt_2030 },
    { NULL }
};
void mc_setup(void) { log_level = 0; ct_init_mem(); cpu50.setup(); cpu30.setup(); }
