/*
 * C17: installed storage of every configurable model: all of it works, its blocks have keys of their own, and there is
 * nothing behind it.
 *
 * MC-GROUPS: top device model2050 model2030
 * MC-EXTRA: s360.c cpu50.c cpu30.c iodev.c
 * MC-CFLAGS: -DS360_MEM=524288
 * MC-SAN: none
 * MC-OPT: -O2
 */
#include "cputest.h"
#include "cpu.h"
#include "device.h"
#include "xlat.h"
#include "iodev.h"
#include "refchan.h"
#include "iocase.h"
uint64_t step_count;
const char *mc_property = "C17";
const char *mc_bounds = "Models 2030 C-F (8K to 64K) and 2050 F-I (64K to 512K). data: 52 storage instructions x all addresses next to a power of two, in the middle, at the end of and behind storage, up to 16M, x 3 ways to form the address (base, base and index with high order byte, wrapping round 24 bits); two-operand ones x 6 second addresses. "
 "code: programs at the same addresses, reached by LPSW, BCR, BAL, EXECUTE and by running into them. keys: SET/INSERT STORAGE KEY for every block. channel: CCW, CCW reached by TRANSFER IN CHANNEL and data (read, write, read backward, 3 keys) at the same addresses on 5 kinds of channel. protect: every block protected alone, or open alone, x stores to it and to every block whose number differs in one bit x 3 offsets.";
const char *mc_assumptions[] = { "the reference interpreter (harness/s360.c) states the Principles of Operation", "when several exceptions apply any of them may be indicated; operands partly behind storage may be partly stored",
 "addresses above 64K that are formed by the 2030 are addressing exceptions; its instruction address has 16 bits", NULL };

static const char *L50 = "FGHI", *L30 = "CDEF";
static uint32_t size;
static void pick_model(void)
{
    char l = C == &cpu50 ? L50[mc_choose(4, "model")] : L30[mc_choose(4, "model")];
    uint32_t want = 2048u << (l - 'A'), got = C->model(l);
    if (got != want) { char sig[40]; snprintf(sig, sizeof sig, "%s:model-size", C->name); mc_fail(sig, "model %s%c has %u bytes of storage, expected %u", C->name, l, got, want); }
    s360_size = size = want;
    for (uint32_t i = size >= 0x3000 ? 0x3000 : 0x1800; i < size; i++) base_mem[i] = (i * 13 + (i >> 8) * 7 + (i >> 11) * 31 + (i >> 16) * 3) & 0x7f;
}
static int pick_addr(uint32_t *a)       /* next to all powers of two, the end of storage, multiples of it */
{
    static const int8_t D[] = { 0, -1, -2, -4, -8, 2, 4, 8, -6, 3 };
    int k = mc_choose(19, "address"), d = D[mc_choose(mc_thorough ? 10 : 6, "offset")]; uint32_t b;
    if (k < 11) b = 0x1000u << k;                                       /* 4K to 4M */
    else { static const uint32_t num[] = { 0x800000, 0xfffff0 }; b = k < 13 ? num[k - 11] : k == 13 ? size + size / 2 : k == 14 ? size - size / 4 : k == 15 ? size / 2 + 0x800 : k == 16 ? size * 3 : k == 17 ? size - 0x800 : 0x1800; }
    if (k == 9 + 99) return 0;
    *a = (b + d) & 0xffffff; return 1;
}
static void regs(void) { for (int i = 0; i < 16; i++) T.r[i] = 0x01234500u + i; T.r[3] = 0; }
/* every kind of storage operand */
static void data(void)
{
    static const uint8_t OPS[] = { 0x58,0x50,0x48,0x40,0x43,0x42,0x5a,0x59,0x54,0x4c,0x5c,0x5d,0x4f,0x4e,0x68,0x60,0x78,0x70,0x6a,0x79, 0x92,0x95,0x91,0x94,0x96,0x97,0x93, 0x98,0x90, 0x80,0x82, 0x44,
        0xd2,0xd5,0xd4,0xd7,0xd1,0xd3,0xdc,0xdd,0xf1,0xf2,0xf3,0xf8,0xf9,0xfa,0xfb,0xde,0xdf, 0x49,0x56,0x55 };
    int op = PICK(OPS, "op"), i, how = 0, l = 0, side = 0; uint32_t a, a2 = 0x1440; static const uint32_t A2[] = { 0x1440, 0x1441, 0x1bfe };
    pick_model(); pick_addr(&a);
    if (!C->fp && ((op >= 0x60 && op < 0x80))) mc_prune();
    if (op >= 0xc0) { l = mc_choose(3, "length"); side = mc_choose(2, "operand"); a2 = PICK(A2, "other operand"); if (how && !mc_thorough) mc_prune(); }
    how = mc_choose(3, "address formed");
    ct_new(); T.cc = 1; regs();
    T.key = 0;
    for (i = 0; i < 64; i++) tm[0x1420 + i] = tm[0x1be0 + i] = i & 1 ? 0x1c : 0x12;
    if (op >= 0xf0 || op == 0x4f) for (i = -24; i < 24; i++) if (a + i > 0x1000 && a + i < size && (a + i < 0x1400 || a + i > 0x1480)) tm[a + i] = i & 1 ? 0x2c : 0x31;
    if (op == 0x80 || op == 0x82) for (i = -1; i < 9; i++) if (a + i < size) tm[a + i] = i == 6 ? CODE >> 8 : i == 7 ? 0x10 : i == 1 ? 1 : 0;
    if (op == 0x44 && !(a & 1) && a + 2 <= size) { tm[a] = 0x1a; tm[a + 1] = 0x45; if (a + 6 <= size && !(a & 2)) { tm[a] = 0x41; tm[a + 1] = 0x40; tm[a + 2] = 0x0f; tm[a + 3] = 0xed; } }
    if (op == 0xf9) { memset(tm + 0x1420, 0x12, 64); memset(tm + 0x1be0, 0x12, 64); i = l == 0 ? 0 : l == 1 ? (side ? 3 : 2) : side ? 7 : 5; tm[a2 + i] = 0x1c; int j; l == 0 ? (j = 0) : l == 1 ? (j = side ? 2 : 3) : (j = side ? 5 : 7); for (i = 0; i <= j; i++) if (a + i < size && a + i > 0x800) tm[a + i] = i == j ? 0x1c : 0x12; }
    /* base register and displacement for a */
    T.r[9] = a; T.r[3] = 0; i = 0;
    if (how == 1) { T.r[9] = (a - 0x123) | 0xa7000000; i = 0x123; }
    if (how == 2) { T.r[9] = ((a - 0xfff) & 0xffffff) | 0x01000000; i = 0xfff; }
    T.r[10] = a2;
    if (op < 0x80) {
        int x = 3, r = op >= 0x60 || op == 0x5c || op == 0x5d ? 4 : 5;
        if (how == 1) T.r[3] = 0xfffffff0, T.r[9] += 16;
        ct_code(CODE, 4, op, r << 4 | x, 0x90 | i >> 8, i & 0xff);
    } else if (op < 0xc0) ct_code(CODE, 4, op, op == 0x98 || op == 0x90 ? 0x57 : 0x3c, 0x90 | i >> 8, i & 0xff);
    else {
        int ll = op >= 0xf0 ? (l == 0 ? 0x00 : l == 1 ? 0x32 : 0x75) : l == 0 ? 0 : l == 1 ? 4 : 17;
        if (side) ct_code(CODE, 6, op, ll, 0xa0, 0, 0x90 | i >> 8, i & 0xff); else ct_code(CODE, 6, op, ll, 0x90 | i >> 8, i & 0xff, 0xa0, 0);
    }
    CTX("storage %uK, address %06x other %06x", size >> 10, a, a2);
    ct_run(4);
    mc_outcome("%s %s", C->name, R.m[0x2b] && memcmp(dm + 0x28, base_mem + 0x28, 8) ? "exception" : "done");
}
/* instructions anywhere */
static void code(void)
{
    uint32_t a; int how = mc_choose(5, "reached by"), len = mc_choose(3, "length"), i;
    static const uint8_t I[3][6] = { { 0x05, 0x50 }, { 0x45, 0xe0, 0x90, 0x06 }, { 0xd2, 0x07, 0x90, 0x80, 0x90, 0x40 } };
    pick_model(); pick_addr(&a); 
    if (C == &cpu30 && a > 0xfffb) mc_prune();                /* 16 bit instruction address */
    if (a < size && a + 14 > size && C == &cpu30 && size == 0x10000) mc_prune();
    ct_new(); T.cc = 1; regs(); T.r[9] = 0x1100; T.r[11] = a; T.r[1] = 0x777;
    for (i = 0; i < 16; i++) if (a + i < size && !(a & 1)) tm[a + i] = i < 2 * (len + 1) ? I[len][i] : i & 1 ? SVCEND : 0x0a;
    if (len == 1) T.r[9] = a - 2;
    switch (how) {
    case 0: T.ia = a; break;
    case 1: ct_code(CODE, 2, 0x07, 0xfb); break;
    case 2: ct_code(CODE, 4, 0x45, 0x20, 0xb0, 0x00); break;
    case 3: T.r[1] = 0; ct_code(CODE, 4, 0x44, 0x10, 0xb0, 0x00); if (len == 1) mc_prune(); break;
    case 4: if (a & 1 || a < 12 || a - 12 >= size) mc_prune(); T.ia = a - 12; for (i = 0; i < 12 && a - 12 + i < size; i += 2) { tm[a - 12 + i] = 0x1a; tm[a - 11 + i] = 0x45; } break;
    }
    CTX("storage %uK, program at %06x", size >> 10, a);
    ct_run(14);
}
/* a key for every block */
static void keys(void)
{
    int blk, i, j, v = mc_choose(4, "key"); static const uint8_t KV[] = { 0, 0x10, 0xa0, 0xf0 };
    pick_model(); blk = mc_choose(size / 2048 + 24, "block"); if (blk >= (int)(size >> 11) + 8) { blk -= (size >> 11) + 8; blk = blk < 8 ? 256 + blk : blk < 12 ? 1 << blk : 8191 >> (blk - 12); if (blk < (int)(size >> 11)) mc_prune(); } j = mc_choose(3, "then");
    ct_new(); T.cc = 1; 
    for (i = 0; i < (int)(size >> 11); i++) T.keys[i] = (i * 7 + (i >> 4) * 5 + 3) << 4 & 0xf0;
    T.r[4] = (uint32_t)blk << 11 | 0x7f0; T.r[5] = 0x12345600 | KV[v]; T.r[6] = 0xffffffff; T.r[7] = j == 0 ? T.r[4] : j == 1 ? T.r[4] ^ 0x800 : T.r[4] ^ (size / 2);
    T.r[7] &= ~15u;
    ct_code(CODE, 6, 0x08, 0x54, 0x09, 0x67, 0x09, 0x55);
    CTX("storage %uK, block %d", size >> 10, blk);
    ct_run(6);
}
/* protection follows the block the address is in */
static void protect(void)
{
    static const int OFF[] = { 0, 0x7f8, 0x7fe };
    int alone = mc_choose(2, "one block"), n, b, o = mc_choose(3, "offset"), x, i, how = mc_choose(3, "store"); uint32_t a;
    pick_model(); n = size >> 11; b = mc_choose(n, "block"); x = mc_choose(__builtin_ctz(n) + 1, "other");
    ct_new(); T.cc = 1; T.key = 3; regs();
    for (i = 0; i < n; i++) T.keys[i] = alone ? 0x30 : 0x40;
    T.keys[b] = alone ? 0x40 : 0x30;
    a = (uint32_t)(x ? b ^ 1 << (x - 1) : b) << 11 | OFF[o];
    if (a < 0x800 || o == 2 && how != 1) mc_prune();
    T.r[9] = a; T.r[10] = 0x400;
    if (how == 0) ct_code(CODE, 4, 0x50, 0x40, 0x90, 0);
    if (how == 1) ct_code(CODE, 6, 0xd2, 3, 0x90, 0, 0xa0, 0);
    if (how == 2) ct_code(CODE, 4, 0x92, 0x7e, 0x90, 3);
    CTX("storage %uK, block %d %s, store at %06x", size >> 10, b, alone ? "protected" : "open", a);
    ct_run(2);
    mc_outcome("%s %s", C->name, dm[0x2b] == 4 ? "protected" : "stored");
}
/* channels reach all of it too: channel program and data at the same addresses */
static void channel(void)
{
    static const int CMD[] = { 2, 1, 0x0c }; uint32_t a; int k, c, what, key, i;
    pick_model(); pick_addr(&a); k = mc_choose(5, "channel: byte multiplexer, multiplexer burst, selector 1, selector 2, multiplexer 3 bytes at a time"); what = mc_choose(4, "at the address");
    c = PICK(CMD, "command"); key = mc_choose(3, "key");
    if (a < 0x1000 || (what == 0 || what == 1) && (a & 7)) mc_prune();
    if (what != 3 && key || C == &cpu50 && c == 0x0c && k >= 2 && k < 4) mc_prune();     /* 2050 selectors and read backward: C11 */
    if (C == &cpu30 && what < 2 && a + 8 == 0x10000) mc_prune();              /* CSW address has 16 bits */
    io_case(k);
    for (i = 0; i < (int)(size >> 11); i++) T.keys[i] = 0x40;
    T.keys[0] = 0x30;
    for (i = 0; i < 0x40; i++) tm[0x1400 + i] = 0x11 + i * 5;
    switch (what) {
    case 0:                                                    /* CCW */
        if (a + 8 > size && a < size) mc_prune();
        ct_code(0x48, 4, 0, a >> 16, a >> 8 & 255, a & 255);
        if (a < size) ct_code(a, 8, c, 0, 0x14, 0x10, 0, 0, 0, 4);
        break;
    case 1:                                                    /* CCW that a transfer in channel goes to */
        if (a + 8 > size) mc_prune();
        ccw(0, c, 0x1410, 0x40, 4); ct_code(0x508, 8, 8, a >> 16, a >> 8 & 255, a & 255, 0, 0, 0, 0);
        ct_code(a, 8, 2, 0, 0x14, 0x20, 0, 0, 0, 4);
        break;
    case 2: case 3:                                            /* data, with a key */
        if (a + 8 > size || a < 0x1008) mc_prune();
        ccw(0, c, a, 0, 4);
        if (key) { tm[0x48] = key == 1 ? 0x30 : 0x40; if (key == 1 && (a & 0x7ff) < 0x700 && (a & 0x7ff) > 8) T.keys[a >> 11] = 0x30; }
        break;
    }
    io_name = what == 0 && a >= size && C == &cpu30 ? "caw-outside" : what == 3 && key == 1 && k < 2 && C == &cpu30 ? k ? "burst-protection" : "byte-protection" : "big"; CTX("%s, storage %uK, address %06x", ct_ctx, size >> 10, a);
    io_go();
}
/*PARTS data code keys protect channel*/
static void data_2050(void) { C = &cpu50; data(); }
static void data_2030(void) { C = &cpu30; data(); }
static void code_2050(void) { C = &cpu50; code(); }
static void code_2030(void) { C = &cpu30; code(); }
static void keys_2050(void) { C = &cpu50; keys(); }
static void keys_2030(void) { C = &cpu30; keys(); }
static void protect_2050(void) { C = &cpu50; protect(); }
static void protect_2030(void) { C = &cpu30; protect(); }
static void channel_2050(void) { C = &cpu50; channel(); }
static void channel_2030(void) { C = &cpu30; channel(); }
mc_part mc_parts[] = {
    { "data-2050", data_2050 },
    { "data-2030", data_2030 },
    { "code-2050", code_2050 },
    { "code-2030", code_2030 },
    { "keys-2050", keys_2050 },
    { "keys-2030", keys_2030 },
    { "protect-2050", protect_2050 },
    { "protect-2030", protect_2030 },
    { "channel-2050", channel_2050 },
    { "channel-2030", channel_2030 },
    { NULL }
};
void mc_setup(void) { log_level = 0; ct_init_mem(); cpu50.setup(); cpu30.setup(); }
