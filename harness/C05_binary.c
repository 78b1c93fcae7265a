/*
 * C05: fixed point, logical, shift, branch and load/store instructions of both processors.
 *
 * MC-GROUPS: top device model2050 model2030
 * MC-EXTRA: s360.c cpu50.c cpu30.c
 * MC-SAN: none
 * MC-OPT: -O2
 */
#include "cputest.h"
uint64_t step_count;
extern int log_level;
const char *mc_property = "C05";
const char *mc_bounds = "one instruction started from a complete machine state, run by the microcode of each processor: every register-register operation on every pair (divide: triple) of 14 (thorough 20) boundary values "
    "and on every pair of register numbers; storage operands at every offset; address generation for every base and index register; every shift amount; every branch condition, target alignment and count; "
    "load/store multiple for every register range; immediate operations on every byte pair; storage-to-storage logical operations for short and maximal lengths at every alignment and overlap; execute of every target kind";
const char *mc_assumptions[] = { "the reference interpreter (harness/s360.c) states the Principles of Operation correctly",
    "results that the manual leaves unpredictable (registers and condition code after a suppressed or terminated operation) are not compared",
    "the 2030 holds a 16 bit instruction address: wrap of the instruction counter beyond 64K is not examined on it", NULL };


static const uint32_t V[] = { 0, 1, 2, 0xffffffff, 0x80000000, 0x7fffffff, 0x80000001, 0x40000000, 0xc0000000, 0x00008000, 0xffff8000, 0xffff7fff, 0x00007fff, 0x12345678, 0xfedcba98, 0x0000ffff, 0xffff0000, 0x00010000, 0x00ff00ff, 0x55555555 };
static const int PMS[] = { 0, 15 };
static int nV(void) { return mc_thorough ? N(V) : 14; }
#define PV(l) V[mc_choose(nV(), l)]
/* every register to register operation on every pair (divide: triple) of boundary values */
static void rr(void)
{
    int op = 0x10 + mc_choose(16, "op"), pm = PICK(PMS, "pm"), same = mc_choose(2, "r2==r1"); uint32_t a = PV("a"), b = same ? 0 : PV("b"), c = 0;
    if (op == 0x1d || op == 0x1c) c = PV("c");
    ct_new(); T.pm = pm; T.cc = op == 0x18 ? 3 : 1;
    T.r[4] = a; T.r[5] = c; T.r[9] = b;
    ct_code(CODE, 2, op, same ? 0x44 : 0x49);
    CTX("r4=%08x r5=%08x r9=%08x", a, c, b);
    ct_run(2);
}
/* every register number pair */
static void rrregs(void)
{
    static const uint8_t OPS[] = { 4,5,6,7,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f };
    int op = PICK(OPS, "op"), rr_ = mc_choose(256, "r1r2"), v = mc_choose(2, "values"), i;
    ct_new(); T.cc = 2;
    for (i = 0; i < 16; i++) T.r[i] = v ? 0xff000000u + CODE + 8 * i : CODE + 16 + 4 * (15 - i);
    ct_code(CODE, 2, op, rr_);
    CTX("registers spaced from %08x", T.r[0]);
    ct_run(3);
}
/* storage operand operations */
static const uint8_t RX[] = { 0x40,0x42,0x43,0x48,0x49,0x4a,0x4b,0x4c,0x50,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f };
static void rx(void)
{
    int op = PICK(RX, "op"), pm = PICK(PMS, "pm"); uint32_t a = PV("a"), b = PV("b"), c = 0, o = 0;
    if (op == 0x5d || op == 0x5c) c = PV("c");
    if (op == 0x42 || op == 0x43) o = mc_choose(4, "byte"); else if (op < 0x50) o = 2 * mc_choose(2, "half");
    ct_new(); T.pm = pm; T.cc = 3;
    T.r[4] = a; T.r[5] = c; T.r[9] = 0x2000;
    s360_sw(&T, 0x2100, b); s360_sw(&T, 0x2104, 0x11223344); s360_sw(&T, 0x20fc, 0x99aabbcc);
    ct_code(CODE, 4, op, 0x40, 0x91, o);
    CTX("r4=%08x r5=%08x storage word %08x", a, c, b);
    ct_run(2);
}
/* address generation: every base and index register, boundary displacements and register contents */
static void addr(void)
{
    static const uint32_t BV[] = { 0, 0x1004, 0xff001ffc, 0x0000f000, 0x00fff000, 0xffffffff };
    static const int DI[] = { 0, 4, 0x7ff, 0x800, 0xffc, 0xfff };
    static const uint8_t OPS[] = { 0x41, 0x58, 0x43, 0x50, 0x47 };
    int op = PICK(OPS, "op"), bx = mc_choose(256, "b,x"), d = PICK(DI, "disp"), i; uint32_t bv = PICK(BV, "base"), xv = PICK(BV, "index");
    ct_new();
    for (i = 0; i < 16; i++) T.r[i] = 0x00333330 + i;
    T.r[bx & 15] = xv; T.r[bx >> 4] = bv;
    for (i = 0x1000; i < S360_MEM; i++) tm[i] = op == 0x47 ? (i & 1 ? i >> 7 : 0x0a) : (i * 7) ^ (i >> 8);
    if (op == 0x47 && C == &cpu30) { uint32_t a = (bx & 15 ? xv : 0) + (bx >> 4 ? bv : 0) + d; if ((bx & 15) == bx >> 4 && bx) a = 2 * bv + d; if ((a & 0xffff) > 0xfffb) mc_prune(); } /* 16 bit instruction address */
    ct_code(CODE, 4, op, (op == 0x47 ? 0xf0 : 0x30) | (bx & 15), (bx & 0xf0) | d >> 8, d & 255);
    CTX("base %08x index %08x disp %03x", bv, xv, d);
    ct_run(2);
}
static void shift(void)
{
    int op = 0x88 + mc_choose(8, "op"), n = mc_choose(64, "count"), pm = PICK(PMS, "pm"), how = mc_choose(3, "address"); uint32_t a = PV("a"), b = op >= 0x8c ? PV("b") : 0x13572468;
    int r1 = how == 2 ? 0xa : 4;
    ct_new(); T.pm = pm; T.cc = 3;
    T.r[r1] = a; T.r[r1 + 1] = b; T.r[7] = 0xabcdef00u + n;
    if (how == 0) ct_code(CODE, 4, op, r1 << 4, 0, n);
    else if (how == 1) ct_code(CODE, 4, op, r1 << 4, 0x70, 0);
    else ct_code(CODE, 4, op, r1 << 4 | 5, 0x0f, 0xc0 | n);
    CTX("r=%08x %08x count %d form %d", a, b, n, how);
    ct_run(2);
}
static void branch(void)
{
    static const uint32_t CV[] = { 0, 1, 2, 0xffffffff, 0x80000000, 0x7fffffff, 0x80000001, 0x12345678 };
    int k = mc_choose(7, "kind"), cc = mc_choose(4, "cc"), pm = PICK(PMS, "pm"), r2 = mc_choose(3, "target reg"); uint32_t t = 0xa5000000u + CODE + 0x40;
    ct_new(); T.cc = cc; T.pm = pm; T.r[9] = t; T.r[0] = CODE + 0x50;
    r2 = r2 == 0 ? 9 : r2 == 1 ? 0 : 4;
    switch (k) {
    case 0: ct_code(CODE, 2, 0x07, mc_choose(16, "mask") << 4 | r2); T.r[4] = CODE + 0x60; break;
    case 1: ct_code(CODE, 4, 0x47, mc_choose(16, "mask") << 4, 0x90, 4); break;
    case 2: ct_code(CODE, 2, 0x05, 0x40 | r2); T.r[4] = CODE + 0x60; break;
    case 3: ct_code(CODE, 4, 0x45, 0x40 | r2, 0x00, 8); if (r2 == 4) T.r[4] = CODE + 0x60; break;
    case 4: T.r[4] = PICK(CV, "count"); ct_code(CODE, 2, 0x06, 0x40 | r2); break;
    case 5: T.r[4] = PICK(CV, "count"); ct_code(CODE, 4, 0x46, 0x40, 0x90, 8); break;
    case 6: {
        int r3 = PICK(((uint8_t[]){ 6, 7, 4, 5 }), "r3"), op = 0x86 + mc_choose(2, "op");
        T.r[r3] = PICK(CV, "inc"); T.r[r3 | 1] = PICK(CV, "comparand"); T.r[4] = PICK(CV, "index");
        ct_code(CODE, 4, op, 0x40 | r3, 0x90, 8); break; }
    }
    CTX("r4=%08x r5=%08x r6=%08x r7=%08x r9=%08x", T.r[4], T.r[5], T.r[6], T.r[7], T.r[9]);
    ct_run(3);
}
static void lmstm(void)
{
    int op = mc_choose(2, "op") ? 0x98 : 0x90, rr_ = mc_choose(256, "r1r3"), b = mc_choose(16, "base"), off = mc_choose(3, "off"), i;
    ct_new(); T.cc = 2;
    T.r[b] = 0x5a000000u | 0x2000;
    for (i = 0x1f00; i < 0x2200; i++) tm[i] = i * 13 ^ i >> 5;
    ct_code(CODE, 4, op, rr_, b << 4 | (b ? 0 : 8), 4 * off);
    if (b == 0) for (i = 0x800; i < 0x900; i++) tm[i] = i * 13;
    CTX("base reg %d", b);
    ct_run(2);
}
static void si(void)
{
    static const uint8_t OPS[] = { 0x91,0x92,0x94,0x95,0x96,0x97,0x93 };
    static const uint8_t BV[] = { 0, 1, 0x7f, 0x80, 0xff, 0x55, 0xaa, 0xf0, 0x0f, 0x3c };
    int op = PICK(OPS, "op"), i2 = mc_choose(256, "imm"), off = mc_choose(4, "byte"), b = PICK(BV, "data"), sp = mc_choose(2, "base");
    ct_new(); T.cc = 2; T.r[9] = 0x77002000; s360_sw(&T, 0x2100, 0x10203040); s360_sw(&T, 0x100, 0x10203040);
    tm[0x2100 + off] = tm[0x100 + off] = b;
    ct_code(CODE, 4, op, i2, sp ? 0x01 : 0x91, off);
    CTX("byte %02x", b);
    ct_run(2);
}
/* storage to storage logical operations, every alignment, short lengths and the longest, apart and overlapping */
static void ss(void)
{
    static const uint8_t OPS[] = { 0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xdc,0xdd };
    static const int LQ[] = { 0, 1, 2, 3, 4, 6, 7, 8, 15, 255 }, LT[] = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,15,16,31,63,127,254,255 };
    static const int OV[] = { 0x400, 0, 1, -1, 2, 3, 4, -3, 5, 8 };
    int op = PICK(OPS, "op"), L = mc_thorough ? PICK(LT, "len") : PICK(LQ, "len"), o1 = mc_choose(4, "align 1"), o2, pat = mc_choose(4, "pattern"), ov, i;
    uint32_t a1, a2;
    if (op >= 0xdc) { ov = 0x400; o2 = mc_choose(4, "align 2"); }
    else { ov = PICK(OV, "overlap"); o2 = ov == 0x400 ? mc_choose(4, "align 2") : 0; }
    a1 = 0x2100 + o1; a2 = ov == 0x400 ? 0x3000 + o2 : a1 + ov;
    ct_new(); T.cc = 3; T.r[9] = a1 - 5; T.r[0xc] = a2 - 0x123; T.r[1] = 0xaaaaaaaa; T.r[2] = 0xbbbbbbbb;
    for (i = 0x2000; i < 0x2300; i++) tm[i] = i * 29 ^ i >> 3;
    for (i = 0x3000; i < 0x3200; i++) tm[i] = pat == 0 ? i * 91 ^ i >> 2 : 0;
    if (op == 0xdd) { for (i = 0; i < 256; i++) tm[a2 + i] = 0; if (pat == 1) tm[a2 + tm[a1 + L]] = 0x5c; if (pat == 2) tm[a2 + tm[a1 + L / 2]] = 0xff; if (pat == 3) tm[a2 + tm[a1]] = 1; }
    else if (op == 0xdc) { for (i = 0; i < 256; i++) tm[a2 + i] = pat == 1 ? 255 - i : pat == 2 ? i ^ 0x55 : i * 3 + pat; }
    else if (pat && ov == 0x400) {   /* equal strings, differing in one place at most */
        for (i = 0; i <= L; i++) tm[a2 + i] = tm[a1 + i];
        if (pat == 2) tm[a2 + L] ^= 1; if (pat == 3) tm[a2 + L / 2] ^= 0x80;
    }
    ct_code(CODE, 6, op, L, 0x90, 5, 0xc1, 0x23);
    CTX("length %d first %04x second %04x pattern %d", L + 1, a1, a2, pat);
    ct_run(2);
}
/* execute: every kind of target, length and register fields modified */
static void ex(void)
{
    static const uint8_t TG[][6] = { {0x1a,0x45}, {0x07,0x09}, {0x05,0xe9}, {0x58,0x30,0x90,0x08}, {0x41,0x00,0x00,0x01}, {0x47,0x00,0x90,0x10}, {0x92,0x00,0x90,0x09}, {0x88,0x40,0,4},
        {0xd2,0x00,0x90,0x21,0x90,0x40}, {0xd5,0x00,0x90,0x21,0x90,0x41}, {0xf1,0x00,0x90,0x21,0x90,0x41}, {0x98,0x00,0x90,0x00}, {0x0a,0x00}, {0x04,0x40}, {0x06,0x49}, {0x44,0x00,0x90,0}, {0x43,0x70,0x90,0x02}, {0x1d,0x40}, {0x00,0x00}, {0x46,0x40,0x90,0x10} };
    static const uint8_t M1[] = { 0x00, 0x01, 0x07, 0x10, 0x40, 0x80, 0xf0, 0xff, 0x5a };
    int t = mc_choose(N(TG), "target"), m = PICK(M1, "modifier"), r1 = PICK(((uint8_t[]){ 0, 4, 9, 15 }), "r1"), al = mc_choose(2, "align"), cc = mc_choose(4, "cc"), i;
    ct_new(); T.cc = cc; T.pm = 5;
    T.r[9] = 0x2000; T.r[r1] = (T.r[r1] & 0xffffff00) | m; if (r1 == 9) T.r[9] = 0x2000 | m;
    T.r[4] = (T.r[4] & 0xff) | 0x00004400; if (t == 17) T.r[4] = 0, T.r[8] = 3;
    for (i = 0x1ff0; i < 0x2400; i++) tm[i] = i * 37 ^ i >> 4;
    for (i = 0x2000; i < 0x2240; i += 2) if (t == 1 || t == 2 || t == 5 || t == 14 || t == 19) { tm[i] = 0x0a; tm[i + 1] = 0x77; }
    memcpy(tm + 0x800 + 2 * al, TG[t], 6);
    ct_code(CODE, 4, 0x44, r1 << 4, 0x08, 2 * al);
    CTX("target %s r%d=%08x r9=%08x", ct_hex(TG[t], TG[t][0] < 0x40 ? 2 : TG[t][0] < 0xc0 ? 4 : 6), r1, T.r[r1], T.r[9]);
    ct_run(3);
}
/*PARTS rr rrregs rx addr shift branch lmstm si ss ex*/
static void rr_2050(void) { C = &cpu50; rr(); }
static void rr_2030(void) { C = &cpu30; rr(); }
static void rrregs_2050(void) { C = &cpu50; rrregs(); }
static void rrregs_2030(void) { C = &cpu30; rrregs(); }
static void rx_2050(void) { C = &cpu50; rx(); }
static void rx_2030(void) { C = &cpu30; rx(); }
static void addr_2050(void) { C = &cpu50; addr(); }
static void addr_2030(void) { C = &cpu30; addr(); }
static void shift_2050(void) { C = &cpu50; shift(); }
static void shift_2030(void) { C = &cpu30; shift(); }
static void branch_2050(void) { C = &cpu50; branch(); }
static void branch_2030(void) { C = &cpu30; branch(); }
static void lmstm_2050(void) { C = &cpu50; lmstm(); }
static void lmstm_2030(void) { C = &cpu30; lmstm(); }
static void si_2050(void) { C = &cpu50; si(); }
static void si_2030(void) { C = &cpu30; si(); }
static void ss_2050(void) { C = &cpu50; ss(); }
static void ss_2030(void) { C = &cpu30; ss(); }
static void ex_2050(void) { C = &cpu50; ex(); }
static void ex_2030(void) { C = &cpu30; ex(); }
mc_part mc_parts[] = {
    { "rr-2050", rr_2050 },
    { "rr-2030", rr_2030 },
    { "rrregs-2050", rrregs_2050 },
    { "rrregs-2030", rrregs_2030 },
    { "rx-2050", rx_2050 },
    { "rx-2030", rx_2030 },
    { "addr-2050", addr_2050 },
    { "addr-2030", addr_2030 },
    { "shift-2050", shift_2050 },
    { "shift-2030", shift_2030 },
    { "branch-2050", branch_2050 },
    { "branch-2030", branch_2030 },
    { "lmstm-2050", lmstm_2050 },
    { "lmstm-2030", lmstm_2030 },
    { "si-2050", si_2050 },
    { "si-2030", si_2030 },
    { "ss-2050", ss_2050 },
    { "ss-2030", ss_2030 },
    { "ex-2050", ex_2050 },
    { "ex-2030", ex_2030 },
    { NULL }
};
void mc_setup(void) { log_level = 0; ct_init_mem(); cpu50.setup(); cpu30.setup(); }
