/*
 * C06: decimal arithmetic, packing, conversion and editing of both processors.
 *
 * MC-GROUPS: top device model2050 model2030
 * MC-EXTRA: s360.c cpu50.c cpu30.c
 * MC-SAN: none
 * MC-OPT: -O2
 */
#include "cputest.h"
uint64_t step_count;
extern int log_level;
const char *mc_property = "C06";
const char *mc_bounds = "one instruction started from a complete machine state, run by the microcode of each processor: every pair of operand lengths with boundary values; "
    "every sign code, ASCII and EBCDIC mode and operand alignment; all 1 digit and boundary 3 digit operands; multiply/divide operand tables; an invalid digit or sign in every "
    "position; every overlap distance up to 4 bytes (add/compare: operands sharing the last byte); edit patterns to 5 (thorough 7) bytes over {digit select, significance start, field separator, message} "
    "with every combination of 12 source byte shapes for the first two (thorough three) source bytes";
const char *mc_assumptions[] = { "the reference interpreter (harness/s360.c) states the Principles of Operation correctly",
    "result fields and condition code that the manual leaves unpredictable (after data exceptions and the like) are not compared",
    "whether an invalid digit that cannot influence the result is detected is left to the model: COMPARE of operands with different signs, MULTIPLY by zero, and on the 2050 the multiplicand of MULTIPLY", NULL };

static const char *const VAL[] = { "0", "1", "9", "5", "10", "99", "100", "999", "1234567", "9999999", "50000000", "123456789012345", "999999999999999", "1000000000000000",
    "9999999999999999999999999999999", "1000000000000000000000000000000", "31415926535897932384626", "7070707", "90909090909", "45454545454" };
static const int PMS[] = { 0, 15 };
/* decimal number right justified in n bytes, sign nibble sg; high order digits lost */
static void put_dec(uint32_t a, int n, const char *v, int sg)
{
    int k = strlen(v), i;
    for (i = 0; i < n; i++) tm[a + i] = 0;
    tm[a + n - 1] = sg;
    for (i = 1; i < 2 * n && k > 0; i++) { int d = v[--k] - '0'; uint32_t p = a + n - 1 - i / 2; tm[p] |= i & 1 ? d << 4 : d; }
}
static void surround(uint32_t a, int n) { int i; for (i = 1; i < 5; i++) { tm[a - i] = 0x9c; tm[a + n + i - 1] = 0x8d; } }
/* Known finding: on the 2050 AP and SP lose the overflow if the magnitude of the result is exactly one followed by
 * as many zeros as there are digits in the first operand and is in the sign of the second operand. */
static const char *lost_overflow(int op, uint32_t a1, int n1, uint32_t a2, int n2)
{
    __int128 d = 0, p = 1; int i, s1, s2;
    if (C != &cpu50 || (op != 0xfa && op != 0xfb)) return NULL;
    s1 = tm[a1 + n1 - 1] & 15; s2 = tm[a2 + n2 - 1] & 15; s1 = s1 == 0xb || s1 == 0xd; s2 = s2 == 0xb || s2 == 0xd;
    if ((s1 == s2) != (op == 0xfb)) return NULL;
    for (i = 0; i < 2 * n2 - 1; i++) d = d * 10 + (i & 1 ? tm[a2 + i / 2] & 15 : tm[a2 + i / 2] >> 4);
    { __int128 e = 0; for (i = 0; i < 2 * n1 - 1; i++) { p *= 10; e = e * 10 + (i & 1 ? tm[a1 + i / 2] & 15 : tm[a1 + i / 2] >> 4); } d -= e; }
    return d == p ? "2050:ap-sp-lost-overflow" : NULL;
}
static void arith1(int op, int l1, int l2, const char *v1, const char *v2, int s1, int s2, int pm, int asc, int o1, int o2)
{
    uint32_t a1 = 0x2100 + o1, a2 = 0x3100 + o2;
    ct_new(); T.pm = pm; T.cc = 3; T.amwp = asc ? 8 : 0; T.r[9] = a1; T.r[12] = a2 - 0x123;
    put_dec(a1, l1 + 1, v1, s1); surround(a1, l1 + 1); put_dec(a2, l2 + 1, v2, s2); surround(a2, l2 + 1);
    ct_code(CODE, 6, op, l1 << 4 | l2, 0x90, 0, 0xc1, 0x23);
    CTX("first %s second %s", ct_hex(tm + a1, l1 + 1), ct_hex(tm + a2, l2 + 1));
    ct_known = lost_overflow(op, a1, l1 + 1, a2, l2 + 1);
    ct_run(2);
}
/* every pair of lengths; boundary values */
static void arith(void)
{
    int op = 0xf8 + mc_choose(6, "op"), l1 = mc_choose(16, "l1"), l2 = mc_choose(16, "l2"), s1 = 0xc + mc_choose(2, "sign1"), s2 = 0xc + mc_choose(2, "sign2"), pm = PICK(PMS, "pm"), nv = mc_thorough ? N(VAL) : 5;
    const char *v1 = VAL[mc_thorough ? mc_choose(nv, "v1") : (mc_choose(nv, "v1") * 5 + l1) % N(VAL)], *v2 = VAL[mc_thorough ? mc_choose(nv, "v2") : (mc_choose(nv, "v2") * 3 + l2) % N(VAL)];
    arith1(op, l1, l2, v1, v2, s1, s2, pm, 0, l1 & 3, l2 & 3);
}
/* every sign code, EBCDIC and ASCII mode, every alignment */
static void signs(void)
{
    static const int LS[] = { 0, 1, 3, 7 }, L1[] = { 0, 1, 4, 9, 15 };
    int op = 0xf8 + mc_choose(6, "op"), l1 = PICK(L1, "l1"), l2 = PICK(LS, "l2"), s1 = 10 + mc_choose(6, "sign1"), s2 = 10 + mc_choose(6, "sign2"), asc = mc_choose(2, "ascii"), o1 = mc_choose(4, "al1"), o2 = mc_choose(4, "al2");
    int v = mc_choose(mc_thorough ? 5 : 2, "values");
    static const char *const P[][2] = { {"3","7"}, {"0","0"}, {"7","3"}, {"123456","123456"}, {"9999999","1"} };
    arith1(op, l1, l2, P[v][0], P[v][1], s1, s2, 0, asc, o1, o2);
}
/* small numbers completely: all two digit (three digit) operands */
static void small(void)
{
    static const int S[] = { 0xc, 0xd };
    int op = 0xf8 + mc_choose(4, "op"), l1 = mc_choose(2, "l1"), l2 = mc_choose(2, "l2"), n1 = l1 ? 1000 : 10, n2 = l2 ? 1000 : 10, x, y; char b1[8], b2[8];
    int s1 = PICK(S, "sign1"), s2 = PICK(S, "sign2");
    static const int K[] = { 0, 1, 2, 5, 9, 10, 11, 19, 49, 50, 51, 90, 91, 99, 100, 101, 109, 110, 499, 500, 501, 899, 900, 909, 990, 998, 999 };
    if (mc_thorough) { x = mc_choose(n1, "x"); y = l1 && l2 ? PICK(K, "y") : mc_choose(n2, "y"); }
    else { x = l1 ? PICK(K, "x") : mc_choose(10, "x"); y = l2 ? PICK(K, "y") : mc_choose(10, "y"); }
    sprintf(b1, "%d", x); sprintf(b2, "%d", y);
    arith1(op, l1, l2, b1, b2, s1, s2, 0, 0, 1, 3);
}
/* multiply and divide: small operands completely */
static void muldiv(void)
{
    static const int K[] = { 0, 1, 2, 3, 7, 9, 10, 11, 12, 19, 25, 33, 49, 50, 51, 90, 91, 99, 100, 101, 125, 333, 499, 500, 501, 899, 900, 909, 990, 998, 999 };
    static const char *const BIG[] = { "0", "1", "999", "1000", "12345", "99999", "100000", "9999999", "10000000", "123456789", "999999999", "49950000000", "998001", "998000", "99900", "89999", "90000", "1000000000000000000000000000" };
    int op = 0xfc + mc_choose(2, "op"), l2 = mc_choose(3, "l2"), l1 = l2 + 1 + PICK(((int[]){ 0, 1, 2, 5, 12 }), "l1"), y, s1 = 0xc + mc_choose(2, "s1"), s2 = 0xc + mc_choose(2, "s2"); char b[8]; const char *v1;
    if (l1 > 15) mc_prune();
    y = l2 ? PICK(K, "y") : mc_choose(10, "y"); v1 = PICK(BIG, "x");
    sprintf(b, "%d", y);
    arith1(op, l1, l2, v1, b, s1, s2, 15, 0, 2, 1);
}
/* invalid digits and signs in every position of either operand */
static void invalid(void)
{
    static const int OP[] = { 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd };
    static const uint8_t O[][2] = { { 2, 1 }, { 2, 1 }, { 2, 2 }, { 1, 0 }, { 0, 3 }, { 3, 3 } };       /* alignment of the operands, the last ones with equal signs */
    int al = mc_choose(mc_thorough ? 6 : 4, "alignment, signs");
    int op = PICK(OP, "op"), l1 = PICK(((int[]){ 1, 2, 4, 6, 3 }), "l1"), l2 = PICK(((int[]){ 0, 1, 3, 2 }), "l2"), which = mc_choose(2, "operand"), l = which ? l2 : l1, pos, v; uint32_t a1 = 0x2100 + O[al][0], a2 = 0x3100 + O[al][1], a = which ? a2 : a1; const char *v1, *v2;
    pos = mc_choose(2 * (l + 1), "nibble");
    v = pos == 2 * l + 1 ? PICK(((int[]){ 0, 1, 8, 9 }), "sign") : PICK(((int[]){ 10, 11, 12, 15 }), "digit");
    v1 = PICK(((const char *const[]){ "0", "123", "9" }), "v1"); v2 = PICK(((const char *const[]){ "0", "7", "456789" }), "v2");
    ct_new(); T.cc = 3; T.r[9] = a1; T.r[12] = a2 - 0x123; T.pm = 4;
    put_dec(a1, l1 + 1, v1, 0xc); surround(a1, l1 + 1); put_dec(a2, l2 + 1, v2, al ? 0xc : 0xd); surround(a2, l2 + 1);
    tm[a + pos / 2] = pos & 1 ? (tm[a + pos / 2] & 0xf0) | v : (tm[a + pos / 2] & 0x0f) | v << 4;
    ct_code(CODE, 6, op, l1 << 4 | l2, 0x90, 0, 0xc1, 0x23);
    CTX("first %s second %s", ct_hex(tm + a1, l1 + 1), ct_hex(tm + a2, l2 + 1));
    if (C == &cpu50 && op == 0xf9 && which && pos < 2 * l2) {          /* first byte taken from a word of the second operand after a word of the first is used up */
        uint32_t b = a2 + pos / 2, c = a1 + l1 - (a2 + l2 - b);
        if ((b & 3) != 3 && (((c + 1) & 3) == 0 || c + 1 == a1)) ct_known = "2050:cp-second-digit-unchecked";
    }
    ct_run(2);
}
/* operands with the same low order byte (allowed overlap) and PACK, UNPK, MVO with any overlap */
static void overlap(void)
{
    int op, l1, l2, d, i; uint32_t a1 = 0x2108, a2; static const int OP[] = { 0xf8, 0xf9, 0xfa, 0xfb, 0xf1, 0xf2, 0xf3 };
    op = PICK(OP, "op"); l1 = mc_choose(mc_thorough ? 16 : 9, "l1"); l2 = mc_choose(mc_thorough ? 16 : 9, "l2"); a1 += mc_choose(4, "align");
    if (op >= 0xf8) d = l1 - l2; else d = mc_choose(9, "distance") - 4;
    a2 = a1 + d;
    ct_new(); T.cc = 3; T.r[9] = a1; T.r[12] = a2 - 0x123;
    for (i = 0x20f0; i < 0x2140; i++) tm[i] = op >= 0xf8 ? (i % 10) << 4 | (i * 3 % 10) : i * 11 ^ i >> 3;
    if (op >= 0xf8) tm[a1 + l1] = 0x50 | (mc_choose(2, "sign") ? 0xd : 0xc);
    ct_code(CODE, 6, op, l1 << 4 | l2, 0x90, 0, 0xc1, 0x23);
    CTX("first %s second %s distance %d", ct_hex(tm + a1, l1 + 1), ct_hex(tm + a2, l2 + 1), d);
    ct_run(2);
}
static void pack(void)
{
    static const int OP[] = { 0xf1, 0xf2, 0xf3 };
    int op = PICK(OP, "op"), l1 = mc_choose(16, "l1"), l2 = mc_choose(16, "l2"), o1 = mc_choose(4, "al1"), o2 = mc_choose(4, "al2"), asc = mc_choose(2, "ascii"), i; uint32_t a1 = 0x2100 + o1, a2 = 0x3100 + o2;
    ct_new(); T.cc = 2; T.amwp = asc ? 8 : 0; T.r[9] = a1; T.r[12] = a2 - 0x123;
    for (i = 0x20f0; i < 0x2140; i++) tm[i] = i * 11 ^ i >> 3;
    for (i = 0x30f0; i < 0x3140; i++) tm[i] = i * 53 ^ i >> 2;
    ct_code(CODE, 6, op, l1 << 4 | l2, 0x90, 0, 0xc1, 0x23);
    CTX("first %s second %s", ct_hex(tm + a1, l1 + 1), ct_hex(tm + a2, l2 + 1));
    ct_run(2);
}
static void cvd(void)
{
    static const uint32_t V[] = { 0, 1, 9, 10, 15, 16, 99, 100, 255, 256, 999, 1000, 4095, 65535, 65536, 99999999, 100000000, 2147483647, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffff6u, 123456789, 0xdeadbeef, 1999999999, 0x55555555, 0xaaaaaaaa };
    uint32_t v = PICK(V, "v") + mc_choose(mc_thorough ? 64 : 5, "plus"); int asc = mc_choose(2, "ascii");
    ct_new(); T.cc = 2; T.amwp = asc ? 8 : 0; T.r[9] = 0x2000; T.r[4] = v;
    ct_code(CODE, 4, 0x4e, 0x40, 0x91, 0);
    CTX("r4=%08x", v);
    ct_run(2);
}
static void cvb(void)
{
    static const char *const V[] = { "0", "1", "9", "10", "255", "256", "99999", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9999999999", "999999999999999", "1234567890", "1999999999", "2147483640", "100000000000000", "2147483650", "3000000000" };
    const char *v = PICK(V, "v"); int s = mc_choose(16, "sign"), bad = mc_choose(16, "bad nibble");
    ct_new(); T.cc = 2; T.r[9] = 0x2000; T.r[4] = 0x5a5a5a5a;
    put_dec(0x2100, 8, v, s);
    if (bad < 15) { int x = PICK(((int[]){ 10, 12, 15 }), "bad digit"); uint32_t p = 0x2100 + bad / 2; tm[p] = bad & 1 ? (tm[p] & 0xf0) | x : (tm[p] & 15) | x << 4; }
    ct_code(CODE, 4, 0x4f, 0x40, 0x91, 0);
    CTX("operand %s", ct_hex(tm + 0x2100, 8));
    ct_run(2);
}
/* every pattern of pattern bytes (digit select, significance start, field separator, message) with every source digit/sign shape */
static void edit(void)
{
    static const int PB[] = { 0x20, 0x21, 0x22, 0x6b };
    static const int FILL[] = { 0x40, 0x5c, 0x20, 0x21, 0x22 };
    static const int SB[] = { 0x00, 0x05, 0x50, 0x12, 0x0c, 0x0d, 0x1c, 0x1d, 0x0a, 0x2b, 0x0f, 0x0e };
    int op = 0xde + mc_choose(2, "op"), n = 1 + mc_choose(mc_thorough ? 7 : 5, "length"), asc = mc_choose(2, "ascii"), i, nsel = 0, bytes; uint32_t a1 = 0x2103, a2 = 0x3102;
    ct_new(); T.cc = 3; T.amwp = asc ? 8 : 0; T.r[9] = a1; T.r[12] = a2 - 0x123; T.r[1] = 0xaabbccdd;
    tm[a1] = PICK(FILL, "fill"); nsel += tm[a1] == 0x20 || tm[a1] == 0x21;
    for (i = 1; i < n; i++) { tm[a1 + i] = PICK(PB, "pattern"); nsel += tm[a1 + i] < 0x22; }
    bytes = nsel;           /* at most one source byte for each digit selector */
    if (bytes > 2 && !mc_thorough) bytes = 2; if (bytes > 3) bytes = 3;
    for (i = 0; i < bytes; i++) tm[a2 + i] = PICK(SB, "source");
    for (; i < 8; i++) tm[a2 + i] = 0x34;
    surround(a1, n);
    ct_code(CODE, 6, op, n - 1, 0x90, 0, 0xc1, 0x23);
    CTX("pattern %s source %s", ct_hex(tm + a1, n), ct_hex(tm + a2, bytes));
    ct_run(2);
}
/* realistic long patterns */
static void editlong(void)
{
    static const uint8_t P[][20] = { { 0x40,0x20,0x20,0x6b,0x20,0x21,0x20,0x4b,0x20,0x20,0x40,0xc3,0xd9 }, { 0x5c,0x21,0x20,0x20,0x6b,0x20,0x20,0x20,0x60,0x22,0x20,0x21,0x20,0x20 }, { 0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20 } };
    static const int LEN[] = { 13, 14, 11 };
    static const char *const V[] = { "0", "1", "12", "123", "1234", "12345", "1234567", "100", "10000", "5000000" };
    int p = mc_choose(3, "pattern"), op = 0xde + mc_choose(2, "op"), al = mc_choose(4, "al1"), al2 = mc_choose(4, "al2"), s = 10 + mc_choose(6, "sign"), asc = mc_choose(2, "ascii"); uint32_t a1 = 0x2100 + al, a2 = 0x3100 + al2; const char *v = PICK(V, "v");
    ct_new(); T.cc = 3; T.amwp = asc ? 8 : 0; T.r[9] = a1; T.r[12] = a2 - 0x123; T.r[1] = 0xaabbccdd;
    memcpy(tm + a1, P[p], LEN[p]); put_dec(a2, 4, v, s); put_dec(a2 + 4, 4, "98", 0xd);
    ct_code(CODE, 6, op, LEN[p] - 1, 0x90, 0, 0xc1, 0x23);
    CTX("pattern %s source %s", ct_hex(tm + a1, LEN[p]), ct_hex(tm + a2, 8));
    ct_run(2);
}
/*PARTS arith signs small muldiv invalid overlap pack cvd cvb edit editlong*/
static void arith_2050(void) { C = &cpu50; arith(); }
static void arith_2030(void) { C = &cpu30; arith(); }
static void signs_2050(void) { C = &cpu50; signs(); }
static void signs_2030(void) { C = &cpu30; signs(); }
static void small_2050(void) { C = &cpu50; small(); }
static void small_2030(void) { C = &cpu30; small(); }
static void muldiv_2050(void) { C = &cpu50; muldiv(); }
static void muldiv_2030(void) { C = &cpu30; muldiv(); }
static void invalid_2050(void) { C = &cpu50; invalid(); }
static void invalid_2030(void) { C = &cpu30; invalid(); }
static void overlap_2050(void) { C = &cpu50; overlap(); }
static void overlap_2030(void) { C = &cpu30; overlap(); }
static void pack_2050(void) { C = &cpu50; pack(); }
static void pack_2030(void) { C = &cpu30; pack(); }
static void cvd_2050(void) { C = &cpu50; cvd(); }
static void cvd_2030(void) { C = &cpu30; cvd(); }
static void cvb_2050(void) { C = &cpu50; cvb(); }
static void cvb_2030(void) { C = &cpu30; cvb(); }
static void edit_2050(void) { C = &cpu50; edit(); }
static void edit_2030(void) { C = &cpu30; edit(); }
static void editlong_2050(void) { C = &cpu50; editlong(); }
static void editlong_2030(void) { C = &cpu30; editlong(); }
mc_part mc_parts[] = {
    { "arith-2050", arith_2050 },
    { "arith-2030", arith_2030 },
    { "signs-2050", signs_2050 },
    { "signs-2030", signs_2030 },
    { "small-2050", small_2050 },
    { "small-2030", small_2030 },
    { "muldiv-2050", muldiv_2050 },
    { "muldiv-2030", muldiv_2030 },
    { "invalid-2050", invalid_2050 },
    { "invalid-2030", invalid_2030 },
    { "overlap-2050", overlap_2050 },
    { "overlap-2030", overlap_2030 },
    { "pack-2050", pack_2050 },
    { "pack-2030", pack_2030 },
    { "cvd-2050", cvd_2050 },
    { "cvd-2030", cvd_2030 },
    { "cvb-2050", cvb_2050 },
    { "cvb-2030", cvb_2030 },
    { "edit-2050", edit_2050 },
    { "edit-2030", edit_2030 },
    { "editlong-2050", editlong_2050 },
    { "editlong-2030", editlong_2030 },
    { NULL }
};
void mc_setup(void) { log_level = 0; ct_init_mem(); cpu50.setup(); cpu30.setup(); }
