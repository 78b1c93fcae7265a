/*
 * C11: channel programs: every list of CCWs and device behaviour within the bounds moves exactly the bytes and stores
 * exactly the channel status the Principles of Operation define.
 *
 * MC-GROUPS: top device model2050 model2030
 * MC-EXTRA: s360.c cpu50.c cpu30.c iodev.c
 * MC-SAN: none
 * MC-OPT: -O2
 */
#include "cputest.h"
#include "cpu.h"
#include "device.h"
#include "xlat.h"
#include "iodev.h"
#include "refchan.h"
uint64_t step_count;
const char *mc_property = "C11";
const char *mc_bounds = "chain: every list of up to 2 CCWs (thorough 3) over 8 chaining/SLI/skip flag combinations, counts 1-5 and 8 (third CCW 1, 4, 8), read/write/read backward/control, with a device that has 1, 4 or 9 bytes in each operation; "
    "count: one CCW with 7 (thorough 9) counts from 255 to 513, read/write/read backward, SLI or skip or neither, and a device with as many bytes, one less, one more, 256 less, 1 or 255; "
    "start: every case of a bad CAW, CCW, address, key, status or PCI; byte, burst and 3-bytes-at-a-time devices on the multiplexer and selector channels, models 2050 and 2030; one START I/O, run until idle (at most 60000 microcycles, count: 400000)";
const char *mc_assumptions[] = {
    "the device is scripted (iodev.c): it follows the I/O interface protocol with fixed delays and supplies a fixed byte pattern; several delays are explored by C12",
    "oracle: harness/refchan.h, written from the Principles of Operation",
    "incorrect length is not compared together with a program or protection check; unit status is not compared when a program check is found while command chaining; an invalid data address may be found before the device is selected",
    "the classes of channel programs listed in known-findings.txt are known to be wrong in this code; within those classes only the kinds of failure listed are tolerated", NULL };
#include "iocase.h"
static void chain(void)
{
    int k = mc_choose(5, "channel: byte multiplexer, multiplexer burst, selector 1, selector 2, multiplexer 3 bytes at a time"), n, i;
    static const int CMD[] = { 2, 1, 0x0c, 3 };
    static const int FL[] = { 0, 0x20, 0x40, 0x60, 0x80, 0xa0, 0x10, 0x90 };
    static const int CNT[] = { 1, 2, 3, 4, 5, 8 };
    io_case(k);
    n = 1 + mc_choose(getenv("MC_N") ? atoi(getenv("MC_N")) : mc_thorough ? 3 : 2, "CCWs");
    int cmd = PICK(CMD, "command");
    for (i = 0; i < n; i++) {
        int fl = i == n - 1 ? PICK(((int[]){ 0, 0x20, 0x10 }), "flags") : PICK(FL, "flags"), cnt = i == 2 ? PICK(((int[]){ 1, 4, 8 }), "count") : PICK(CNT, "count");
        ccw(i, i && !(tm[0x500 + 8 * i - 4] & 0x80) ? PICK(((int[]){ 2, 1 }), "command") : cmd, 0x2003 + 0x20 * i, fl, cnt);
        if (!(fl & 0xc0)) break;
    }
    for (i = 0; i < 3; i++) X[0].op[i].len = PICK(((int[]){ 4, 1, 9 }), "device bytes");
    io_go();
}
/* how operations start and end: bad CAW, CCW and addresses, protection, immediate commands, statuses, chaining after them */
static void start(void)
{
    static const char *const CASE[] = { "plain", "protection", "caw-bits", "caw-align", "caw-outside", "command", "count-zero", "flags", "tic-first", "tic", "address", "no-data", "end-status", "initial-status", "pci" };
    static char name[60];
    int k = mc_choose(5, "channel: byte multiplexer, multiplexer burst, selector 1, selector 2, multiplexer 3 bytes at a time"), c, cc, i, n;
    static const int CMD[] = { 2, 1, 3, 4, 0x0c };
    io_case(k);
    cc = PICK(((int[]){ 0, 0x40 }), "flags of first CCW");
    c = PICK(CMD, "command");
    ccw(0, c, 0x2000, cc, 4); ccw(1, 2, 0x2024, 0, 4); ccw(2, 1, 0x2040, 0, 4);
    T.keys[0x2000 >> 11] = 0x30;
    i = -1; n = mc_choose(15, "case");
    switch (n) {
    case 0: break;
    case 1: tm[0x48] = PICK(((int[]){ 0x30, 0x40, 0xf0 }), "key"); break;
    case 2: tm[0x48] = PICK(((int[]){ 1, 2, 4, 8 }), "reserved bit of CAW"); break;
    case 3: tm[0x4b] = PICK(((int[]){ 1, 2, 4 }), "CAW alignment"); break;
    case 4: tm[0x49] = PICK(((int[]){ 1, 0x80 }), "CAW outside storage"); break;
    case 5: i = mc_choose(2, "CCW"); tm[0x500 + 8 * i] = PICK(((int[]){ 0, 0x10, 0xf0 }), "invalid command"); break;
    case 6: i = mc_choose(2, "CCW"); tm[0x507 + 8 * i] = 0; break;
    case 7: i = mc_choose(2, "CCW"); tm[0x504 + 8 * i] |= PICK(((int[]){ 1, 2, 4 }), "reserved flag"); break;
    case 8: i = mc_choose(2, "CCW"); ct_code(0x500 + 8 * i, 4, 8, 0, 5, 0x10); break;                                   /* TIC */
    case 9: ct_code(0x508, 4, 8, 0, 5, PICK(((int[]){ 0x20, 0x21, 0x24 }), "TIC address")); ccw(4, PICK(((int[]){ 2, 1, 8, 0 }), "command there"), 0x2060, 0, 4); break;
    case 10: i = mc_choose(2, "CCW"); ct_code(0x501 + 8 * i, 1, PICK(((int[]){ 1, 0x80 }), "address outside storage")); break;
    case 11: X[0].op[0].len = 0; X[0].op[0].bad = PICK(((int[]){ 0, 1, 2 }), "status"); X[0].op[0].split = PICK(((int[]){ 0, 40 }), "device end"); X[0].op[0].sms = mc_choose(2, "status modifier"); break;
    case 12: i = mc_choose(2, "operation"); X[0].op[i].bad = PICK(((int[]){ 0, 1, 2 }), "status"); X[0].op[i].split = PICK(((int[]){ 0, 40 }), "device end"); X[0].op[i].sms = mc_choose(2, "status modifier"); break;
    case 13: i = mc_choose(2, "operation"); X[0].op[i].init = PICK(((int[]){ 0x10, 0x02, 0x80, 0x01, 0x0e, 0x50 }), "initial status"); break;
    case 14: i = mc_choose(2, "CCW"); tm[0x504 + 8 * i] |= 0x08; break;                                                  /* PCI */
    }
    snprintf(name, sizeof name, "%s-%s%s%s%s%s", k == 0 || k == 4 ? "byte" : k == 1 ? "burst" : c == 0x0c ? "selector-backward" : "selector", CASE[n], i == 1 ? "-2" : "", n == 11 && c == 3 ? "-immediate" : "",
        (n == 11 || n == 12) && X[0].op[i == 1].split ? "-split" : "", (n == 11 || n == 12) && X[0].op[i == 1].bad ? "-error" : (n == 11 || n == 12) && X[0].op[i == 1].sms ? "-modifier" : "");
    if (cc) strcat(name, "-chain");
    io_name = name;
    io_go();
}
/* counts and record lengths around the places where the low byte of the count runs out */
static void count(void)
{
    int k = mc_choose(4, "channel: byte multiplexer, multiplexer burst, selector 1, selector 2"), i, n;
    static const int CMD[] = { 2, 1, 0x0c };
    static const int CNT[] = { 255, 256, 257, 258, 511, 512, 513, 0x103, 0x1ff };
    io_case(k);
    for (i = 0; i < 0x400; i++) tm[0x2000 + i] = 0x11 + i * 5 + (i >> 8) * 3;
    int cmd = PICK(CMD, "command"), fl = PICK(((int[]){ 0, 0x20, 0x10 }), "flags");
    n = mc_choose(mc_thorough ? 9 : 7, "count"); n = CNT[n];
    ccw(0, cmd, cmd == 0x0c ? 0x2300 : 0x2003, fl, n);
    switch (mc_choose(6, "device bytes: all, one less, one more, until 256 are left, 1, 255")) {
    case 0: X[0].op[0].len = n; break;
    case 1: X[0].op[0].len = n - 1; break;
    case 2: X[0].op[0].len = n + 1; break;
    case 3: if (n <= 256) mc_prune(); X[0].op[0].len = n - 256; break;
    case 4: X[0].op[0].len = 1; break;
    case 5: if (n < 257) mc_prune(); X[0].op[0].len = 255; break;
    }
    X[0].op[0].gap = 1;
    io_limit = 400000; io_go(); io_limit = 60000;
}
/*PARTS chain start*/
static void start_2050(void) { C = &cpu50; start(); }
static void start_2030(void) { C = &cpu30; start(); }
static void chain_2050(void) { C = &cpu50; chain(); }
static void chain_2030(void) { C = &cpu30; chain(); }
static void count_2050(void) { C = &cpu50; count(); }
static void count_2030(void) { C = &cpu30; count(); }
mc_part mc_parts[] = {
    { "count-2050", count_2050 },
    { "count-2030", count_2030 },
    { "start-2050", start_2050 },
    { "start-2030", start_2030 },
    { "chain-2050", chain_2050 },
    { "chain-2030", chain_2030 },
    { NULL }
};
void mc_setup(void) { log_level = 0; ct_init_mem(); cpu50.setup(); cpu30.setup(); }
