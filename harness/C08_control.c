/*
 * C08: program interruptions, privileged operations, storage protection, addressing, PSW and key
 * handling of both processors.
 *
 * MC-GROUPS: top device model2050 model2030
 * MC-EXTRA: s360.c cpu50.c cpu30.c
 * MC-SAN: none
 * MC-OPT: -O2
 */
#include "cputest.h"
uint64_t step_count;
extern int log_level;
const char *mc_property = "C08";
const char *mc_bounds = "One instruction from a loaded PSW, 64K of storage, both models. opcodes: all 256 codes x problem/supervisor state x key 0/3 x 5 (8) second bytes x 10 first addresses x 10 second addresses (SS), aligned, odd, protected, at and beyond the end of storage. "
 "protect: 43 storage instructions x 4 (5) key configurations x 9 offsets over a block boundary x 3 lengths. fetch: 12 instruction addresses x 15 codes reached by LPSW, BCR, BAL. psw: all byte values of every PSW field through LPSW, SSM, SPM, SVC. keys: 34 blocks x 6 offsets x 32 keys (SSK, ISK). keyed: 16 x 16 keys x 6 instructions.";
const char *mc_assumptions[] = { "the reference interpreter (harness/s360.c) states the Principles of Operation", "when several exceptions apply any of them may be indicated", "results of terminated instructions, and instruction length and address after a failed fetch, are not compared",
 "I/O, DIAGNOSE and direct control in supervisor state, MOVE INVERSE on the 2050, and EXECUTE as last instruction of 2030 storage are not covered", NULL };

/* every operation code, in supervisor and problem state, with operands in storage, not aligned, protected, and not in storage */
static void opcodes(void)
{
    static const uint8_t B2[] = { 0x24, 0x00, 0x46, 0x8e, 0x35, 0xff, 0x12, 0xe8 };
    static const uint32_t AD[] = { 0x2000, 0x2004, 0x2001, 0x2002, 0x10000, 0x2800, 0xffff, 0x7ffff0, 0xfffff8, 0x20000 };
    int op = mc_choose(256, "op"), b2 = B2[mc_choose(mc_thorough ? 8 : 5, "second byte")], prob = mc_choose(2, "problem state"), key = PICK(((int[]){ 0, 3 }), "key"), i;
    uint32_t a1 = PICK(AD, "first address"), a2 = (op & 0xc0) == 0xc0 ? PICK(AD, "second address") : 0x2100;
    ct_new(); T.cc = 1; T.pm = 0; T.amwp = prob; T.key = key;
    for (i = 0; i < 16; i++) T.r[i] = op < 0x40 && i != 5 ? a1 : 5 + i;
    for (i = 0; i < 8; i += 2) { T.f[i] = 0x41200000 + i; T.f[i + 1] = i * 3; }
    for (i = 0; i < 32; i++) T.keys[i] = 0x30;
    T.keys[5] = 0x40;                        /* 2800-2fff */
    for (i = 0; i < 64; i++) tm[0x1fe0 + i] = tm[0x2800 + i] = i & 1 ? 0x1c : 0x01;
    T.r[9] = a1; T.r[10] = a2;
    if (b2 & 15 && op >= 0x40 && op < 0x80) T.r[b2 & 15] = 0;
    T.r[9] = a1;
    ct_code(CODE, 6, op, b2, 0x90, 0x00, 0xa0, 0x00);
    CTX("address %06x %06x", a1, a2);
    ct_run(2);
}
/* storage protection: every kind of operand reference around a block boundary with every key */
static void protect(void)
{
    static const uint8_t OPS[] = { 0x50,0x40,0x42,0x4e,0x60,0x70,0x58,0x48,0x43,0x41,0x44,0x4f,0x5a,0x55,0x5d,0x92,0x94,0x93,0x91,0x95,0x90,0x98,0xd2,0xd1,0xd3,0xdc,0xdd,0xd4,0xd6,0xd7,0xd5,0xf1,0xf2,0xf3,0xf8,0xf9,0xfa,0xfc,0xfd,0xde,0xdf,0x80,0x82 };
    int op = PICK(OPS, "op"), ik = mc_choose(mc_thorough ? 5 : 4, "keys"), off = mc_choose(9, "offset"), len = op >= 0x90 && (op & 0xf) != 2 ? mc_choose(3, "length") : 0, swap = mc_choose(2, "side"), i;
    static const uint8_t K[5][3] = { { 0, 0x30, 0x40 }, { 3, 0x30, 0x40 }, { 3, 0x40, 0x40 }, { 3, 0x30, 0x30 }, { 15, 0xf0, 0x00 } };
    uint32_t base = 0x2800;
    if (!C->fp && (op == 0x60 || op == 0x70)) mc_prune();
    ct_new(); T.key = K[ik][0]; T.cc = 2; T.amwp = 0;
    for (i = 0; i < 32; i++) T.keys[i] = (T.key ? T.key : 7) << 4;
    T.keys[(base - 1) >> 11] = K[ik][1 + swap]; T.keys[base >> 11] = K[ik][2 - swap];
    for (i = 0; i < 48; i++) { tm[base - 24 + i] = 0x11; tm[0x3000 + i] = 0x11; }
    tm[base + 7] = tm[base] = tm[base - 1] = tm[base + 1] = 0x1c; tm[0x3000] = 0x2c; tm[0x3001] = 0x3c; tm[0x3003] = 0x1c;
    for (i = 0; i < 16; i++) T.r[i] = i;
    T.r[9] = base - 8; T.r[10] = 0x3000;
    i = len == 0 ? 0x24 : len == 1 ? 0x31 : 0x77;
    if (op == 0x90 || op == 0x98) i = len == 0 ? 0x24 : len == 1 ? 0x33 : 0xe2;
    if ((op & 0xf0) == 0xd0) i = len == 0 ? 0 : len == 1 ? 3 : 15;
    if (op < 0x80) i = 0x20;
    if (op == 0x82 || op == 0x80) { tm[base - 8 + off] = 0; }
    if (op == 0xfc || op == 0xfd) i = len == 0 ? 0x40 : len == 1 ? 0x71 : 0xf3;
    ct_code(CODE, 6, op, i, 0x90, off, 0xa0, 0x00);
    CTX("keys %02x/%02x length field %02x", T.keys[(base - 1) >> 11], T.keys[base >> 11], i);
    ct_run(2);
}
/* instructions at the end of storage and at odd addresses */
static void fetch(void)
{
    static const uint32_t IA[] = { 0xfffe, 0xfffc, 0xfffa, 0xfff8, 0x10000, 0x10002, 0x401, 0x403, 0xffff, 0x7ffffe, 0xfffffe, 0x20000 };
    static const uint8_t OPS[] = { 0x18, 0x07, 0x05, 0x58, 0x50, 0x47, 0x45, 0x41, 0xd2, 0x92, 0x96, 0xf3, 0x00, 0x44, 0x0a };
    uint32_t ia = PICK(IA, "address"); int op = PICK(OPS, "op"), how = mc_choose(3, "reached by"), i;
    if (C == &cpu30 && (ia > 0xffff || (ia == 0xfffc && op == 0x44))) mc_prune();     /* 16 bit address register; EXECUTE as the very last instruction not covered */
    ct_new(); T.cc = 1; T.key = 0;
    for (i = 0; i < 16; i++) T.r[i] = 0x2000 + 16 * i;
    if (ia < 0x10000) { for (i = 0; i < 6; i++) if (((ia & ~1u) + i) < 0x10000) tm[(ia & ~1u) + i] = i == 0 ? op : i == 1 ? 0x23 : i & 1 ? 0x08 : 0x90; }
    if (how == 0) T.ia = ia;
    else if (how == 1) { T.r[5] = ia; ct_code(CODE, 2, 0x07, 0xf5); }
    else { T.r[5] = ia; ct_code(CODE, 4, 0x45, 0x10, 0x50, 0x00); }
    CTX("target %06x op %02x", ia, op);
    ct_run(4);
}
/* PSW fields: load PSW, set system mask, set program mask, supervisor call with every field value */
static void psw(void)
{
    int how = mc_choose(3, "how"), v = mc_choose(256, "value"), w = mc_choose(5, "field"); uint8_t *p = tm + 0x2000;
    ct_new(); T.cc = 2; T.pm = 5; T.r[9] = 0x2000;
    memset(p, 0, 8); p[6] = CODE >> 8; p[7] = 8;
    if (how == 0) {                                      /* LPSW */
        if (w == 0) p[0] = v & 0xff; else if (w == 1) p[1] = v & ~2; else if (w == 2) { p[2] = v; p[3] = ~v; } else if (w == 3) p[4] = v;
        else { p[5] = v; p[6] = 0x04; p[7] = 8 | (v & 0x20); if (C == &cpu30 || v) mc_prune(); }
        if (w == 1 && C->name[2] == '3' && 0) mc_prune();
        ct_code(CODE, 4, 0x82, 0, 0x90, 0);
    } else if (how == 1) {
        if (w > 1) mc_prune();
        p[w] = v; ct_code(CODE, 4, 0x80, v ^ 0x55, 0x90, w);
    } else {
        if (w > 1) mc_prune();
        if (w == 0) { T.r[7] = (uint32_t)v << 24 | 0x5a5a5a; ct_code(CODE, 2, 0x04, 0x70 | (v & 15)); }
        else { T.sysmask = 0; T.key = v >> 4; T.amwp = v & 13; if (v & 2) T.cc = 3; ct_code(CODE, 2, 0x0a, v); }
    }
    CTX("value %02x field %d", v, w);
    ct_run(3);
}
/* storage keys: set and insert for every block and key value */
static void keys(void)
{
    int blk = mc_choose(34, "block"), off = PICK(((uint32_t[]){ 0, 0x7f0, 0x400, 8, 1, 0x10 }), "offset"), kv = mc_choose(32, "key"), same = mc_choose(2, "then"), hi = mc_choose(2, "high byte"), i;
    ct_new(); T.cc = 1; T.amwp = 0; T.key = 0;
    for (i = 0; i < 32; i++) T.keys[i] = (i * 7 + 3) << 4 & 0xf0;
    T.r[4] = (blk << 11 | off) | (hi ? 0xab000000u : 0); T.r[5] = 0x12345600 | kv << 3; T.r[6] = 0xffffffff; T.r[7] = T.r[4];
    if (blk < 32) T.r[7] = T.r[4] ^ 0x800;
    ct_code(CODE, 6, 0x08, 0x54, 0x09, same ? 0x64 : 0x67, 0x09, 0x55);
    T.r[7] &= ~15u;
    ct_run(6);
}
/* instruction fetch is not protected, the protection key does not matter for key 0, and interruptions store under any key */
static void keyed(void)
{
    int key = mc_choose(16, "psw key"), sk = mc_choose(16, "storage key"), how = mc_choose(6, "what"), i;
    ct_new(); T.cc = 1; T.key = key;
    for (i = 0; i < 32; i++) T.keys[i] = sk << 4;
    T.r[9] = 0x2800; T.r[4] = 0xcafef00d;
    switch (how) {
    case 0: ct_code(CODE, 4, 0x50, 0x40, 0x90, 0); break;
    case 1: ct_code(CODE, 4, 0x58, 0x40, 0x90, 0); break;
    case 2: ct_code(CODE, 2, 0x0a, 5); break;
    case 3: ct_code(CODE, 2, 0x00, 5); break;
    case 4: ct_code(CODE, 6, 0xd2, 3, 0x90, 0, 0x90, 8); break;
    case 5: ct_code(CODE, 6, 0xf8, 0x33, 0x90, 0, 0x90, 8); tm[0x280b] = 0x1c; break;
    }
    CTX("storage key %x", sk);
    ct_run(2);
}
/*PARTS opcodes protect fetch psw keys keyed*/
static void opcodes_2050(void) { C = &cpu50; opcodes(); }
static void opcodes_2030(void) { C = &cpu30; opcodes(); }
static void protect_2050(void) { C = &cpu50; protect(); }
static void protect_2030(void) { C = &cpu30; protect(); }
static void fetch_2050(void) { C = &cpu50; fetch(); }
static void fetch_2030(void) { C = &cpu30; fetch(); }
static void psw_2050(void) { C = &cpu50; psw(); }
static void psw_2030(void) { C = &cpu30; psw(); }
static void keys_2050(void) { C = &cpu50; keys(); }
static void keys_2030(void) { C = &cpu30; keys(); }
static void keyed_2050(void) { C = &cpu50; keyed(); }
static void keyed_2030(void) { C = &cpu30; keyed(); }
mc_part mc_parts[] = {
    { "opcodes-2050", opcodes_2050 },
    { "opcodes-2030", opcodes_2030 },
    { "protect-2050", protect_2050 },
    { "protect-2030", protect_2030 },
    { "fetch-2050", fetch_2050 },
    { "fetch-2030", fetch_2030 },
    { "psw-2050", psw_2050 },
    { "psw-2030", psw_2030 },
    { "keys-2050", keys_2050 },
    { "keys-2030", keys_2030 },
    { "keyed-2050", keyed_2050 },
    { "keyed-2030", keyed_2030 },
    { NULL }
};
void mc_setup(void) { log_level = 0; ct_init_mem(); cpu50.setup(); cpu30.setup(); }
