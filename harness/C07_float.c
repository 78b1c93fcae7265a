/*
 * C07: hexadecimal floating point of the 2050.
 *
 * MC-GROUPS: top device model2050 model2030
 * MC-EXTRA: s360.c cpu50.c cpu30.c
 * MC-SAN: none
 * MC-OPT: -O2
 */
#include "cputest.h"
uint64_t step_count;
extern int log_level;
const char *mc_property = "C07";
const char *mc_bounds = "one instruction started from a complete machine state, run by the 2050 microcode: add, subtract, compare, multiply, divide, normalized and unnormalized, short and long, register and storage forms, on every pair of operands "
    "from tables of signs, 6 (thorough 16) characteristics, 7 (12) fractions and 3 (5) low words; every characteristic difference from -16 to 16; products and quotients within 4 of both ends of the exponent range; every program mask for exponent underflow and significance; "
    "load, sign, halve and store operations for every register field and operand alignment";
const char *mc_assumptions[] = { "the reference interpreter (harness/s360.c) states the Principles of Operation (1968 edition: guard digit for all operations, HER and HDR normalize) correctly",
    "operand fractions outside of the tables are assumed to behave like those in them", NULL };

static const int CH[] = { 0x40, 0x00, 0x41, 0x46, 0x7f, 0x01, 0x3f, 0x47, 0x7e, 0x4e, 0x45, 0x20, 0x60, 0x39, 0x05, 0x7a };
static const uint32_t FR[] = { 0x100000, 0, 0xffffff, 1, 0x0fffff, 0x800000, 0x123456, 0x000100, 0x00ff00, 0x555555, 0xf00000, 0x7fffff };
static const uint32_t LO[] = { 0, 0xffffffff, 1, 0x80000000, 0x12345678, 0x0fffffff, 0xf0000000, 0x00010000 };
static uint32_t sh(const char *l, int nc, int nf) { uint32_t s = mc_choose(2, l), c = CH[mc_choose(nc, l)], f = FR[mc_choose(nf, l)]; return s << 31 | c << 24 | f; }
static void go(int op, int lng, int rx, int same, uint32_t h1, uint32_t l1, uint32_t h2, uint32_t l2, int pm, int cc)
{
    ct_new(); T.pm = pm; T.cc = cc; T.r[9] = 0x2000;
    T.f[2] = h1; T.f[3] = l1;
    if (!same) { T.f[4] = h2; T.f[5] = l2; }
    s360_sw(&T, 0x2108, h2); s360_sw(&T, 0x210c, l2);
    if (rx) ct_code(CODE, 4, (lng ? 0x60 : 0x70) | op, 0x20, 0x91, 8);
    else ct_code(CODE, 2, (lng ? 0x20 : 0x30) | op, same ? 0x22 : 0x24);
    CTX("first %08x %08x second %08x %08x", h1, l1, h2, l2);
    ct_run(2);
}
/* short operands, register and storage forms */
static void shortop(void)
{
    int op = 8 + mc_choose(8, "op"), form = mc_choose(3, "form"), pm = mc_choose(4, "pm"), nc = mc_thorough ? 16 : 6, nf = mc_thorough ? 12 : 7; uint32_t a, b, x;
    a = sh("a", nc, nf); b = form == 2 ? a : sh("b", nc, nf);
    x = mc_thorough ? LO[mc_choose(3, "low")] : 0x9abcdef0;     /* must not take part */
    go(op, 0, form == 1, form == 2, a, x, b, ~x, pm, 3);
}
static void longop(void)
{
    int op = 8 + mc_choose(8, "op"), form = mc_choose(3, "form"), pm = mc_choose(4, "pm"), nc = mc_thorough ? 10 : 4, nf = mc_thorough ? 7 : 4, nl = mc_thorough ? 5 : 3; uint32_t a, b, la, lb;
    a = sh("a", nc, nf); la = LO[mc_choose(nl, "al")];
    if (form == 2) b = a, lb = la; else { b = sh("b", nc, nf); lb = LO[mc_choose(nl, "bl")]; }
    go(op, 1, form == 1, form == 2, a, la, b, lb, pm, 0);
}
/* operands whose characteristics differ by every amount: alignment, guard digit, total loss */
static void align(void)
{
    static const uint32_t F1[] = { 0x100000, 0x123456, 0xffffff, 1, 0x800000 };
    int lng = mc_choose(2, "long"), op = PICK(((int[]){ 9, 10, 11, 14, 15 }), "op"), d = mc_choose(33, "difference") - 16, s = mc_choose(4, "signs"); uint32_t f1 = PICK(F1, "f1"), f2 = PICK(F1, "f2"), l1 = 0, l2 = 0;
    if (lng) { l1 = PICK(LO, "l1"); l2 = PICK(LO, "l2"); }
    go(op, lng, 0, 0, (uint32_t)(s & 1) << 31 | 0x40000000 | f1, l1, (uint32_t)(s >> 1) << 31 | (0x40 + d) << 24 | f2, l2, 0, 1);
}
/* multiply and divide: result exponent around both ends of the range */
static void range(void)
{
    int lng = mc_choose(2, "long"), op = 12 + mc_choose(2, "op"), pm = mc_choose(4, "pm"), c1 = PICK(((int[]){ 0, 1, 2, 0x20, 0x3f, 0x40, 0x41, 0x5f, 0x60, 0x7d, 0x7e, 0x7f }), "c1"), k, c2; uint32_t f1 = FR[mc_choose(8, "f1")], f2 = FR[mc_choose(8, "f2")], l1 = 0, l2 = 0;
    k = mc_choose(9, "distance") - 4 + (mc_choose(2, "end") ? 127 : 0);
    c2 = op == 12 ? k + 64 - c1 : c1 + 64 - k;
    if (c2 < 0 || c2 > 127) mc_prune();
    if (lng) { l1 = LO[mc_choose(3, "l1")]; l2 = LO[mc_choose(3, "l2")]; }
    go(op, lng, mc_choose(2, "form"), 0, (uint32_t)c1 << 24 | f1, l1, 0x80000000u | (uint32_t)c2 << 24 | f2, l2, pm, 2);
}
/* loads, sign operations, halve, stores: every register, valid and invalid numbers */
static void loads(void)
{
    static const uint8_t OPS[] = { 0x20,0x21,0x22,0x23,0x24,0x28,0x30,0x31,0x32,0x33,0x34,0x38 };
    int op = PICK(OPS, "op"), pm = mc_choose(2, "underflow") ? 2 : 13, rr = mc_choose(256, "regs"), v = mc_choose(16, "value"), i;
    static const uint32_t H[] = { 0, 0x80000000, 0x41100000, 0xc1100001, 0x7fffffff, 0x00000001, 0x80000001, 0x42000000, 0x00300000, 0x80000010, 0x00100000, 0x81000020, 0x02000300, 0x80000000, 0x01012345, 0xc0012345 }, L[] = { 0, 0, 0, 0xffffffff, 1, 0x80000001, 0, 1, 0x12345678, 0, 0, 5, 0, 0x20, 0x40, 0x80000000 };
    ct_new(); T.cc = 3; T.pm = pm;
    for (i = 0; i < 8; i += 2) { T.f[i] = 0x41200000 + i; T.f[i + 1] = 0x33 * i; }
    if (!(rr & 9)) { T.f[rr & 6] = H[v]; T.f[(rr & 6) + 1] = L[v]; }
    ct_code(CODE, 2, op, rr);
    CTX("value %08x %08x", H[v], L[v]);
    ct_run(2);
}
static void storage(void)
{
    static const uint8_t OPS[] = { 0x60,0x68,0x69,0x6a,0x6c,0x6d,0x6e,0x70,0x78,0x79,0x7a,0x7c,0x7d,0x7f };
    int op = PICK(OPS, "op"), r = mc_choose(16, "reg"), b = mc_choose(16, "base"), x = PICK(((int[]){ 0, 1, 9, 15 }), "index"), off = mc_choose(9, "offset"), i;
    ct_new(); T.cc = 3; T.pm = 0;
    for (i = 0; i < 8; i += 2) { T.f[i] = 0x41234567 + i * 0x111; T.f[i + 1] = 0x87654321 + i; }
    for (i = 0; i < 16; i++) T.r[i] = 0;
    T.r[x] = 0x77001000; T.r[b] = 0x88001000;
    for (i = 0xf00; i < 0x2200; i++) tm[i] = i & 7 ? i * 7 : 0x42;
    ct_code(CODE, 4, op, r << 4 | x, b << 4 | 1, 8 * 2 + off);
    CTX("offset %d", off);
    ct_run(2);
}
/*PARTS shortop:2050 longop:2050 align:2050 range:2050 loads:2050 storage:2050*/
static void shortop_2050(void) { C = &cpu50; shortop(); }
static void longop_2050(void) { C = &cpu50; longop(); }
static void align_2050(void) { C = &cpu50; align(); }
static void range_2050(void) { C = &cpu50; range(); }
static void loads_2050(void) { C = &cpu50; loads(); }
static void storage_2050(void) { C = &cpu50; storage(); }
mc_part mc_parts[] = {
    { "shortop-2050", shortop_2050 },
    { "longop-2050", longop_2050 },
    { "align-2050", align_2050 },
    { "range-2050", range_2050 },
    { "loads-2050", loads_2050 },
    { "storage-2050", storage_2050 },
    { NULL }
};
void mc_setup(void) { log_level = 0; ct_init_mem(); cpu50.setup(); cpu30.setup(); }
