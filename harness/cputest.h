/*
 * Differential runner: put a machine state into the simulated processor, let its microcode run until
 * the wait state, run the reference interpreter from the same state and compare everything a program
 * can observe (general and floating point registers, storage, storage keys, old PSWs with interruption
 * code, instruction length, condition code, program mask and address).
 */
#ifndef CPUTEST_H
#define CPUTEST_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "mc.h"
#include "cpuif.h"
#define BOOT 0x1c0u
#define CODE 0x400u
#define SVCEND 0x99
static const cpu_if *C;
static s360 T, R, D;                     /* test case, reference, device under test */
static uint8_t base_mem[S360_MEM], tm[S360_MEM], rm[S360_MEM], dm[S360_MEM];
static long ct_cycles;
static const char *ct_known;             /* signature to use for psw and code failures of this case (a known finding) */

static void ct_init_mem(void)
{
    int i;
    memset(base_mem, 0, sizeof base_mem);
    for (i = CODE; i < CODE + 0x100; i += 2) { base_mem[i] = 0x0a; base_mem[i + 1] = SVCEND; }
    /* new PSWs: everything goes to the wait state, in supervisor state with key 0 */
    for (i = 0x58; i < 0x80; i += 8) { base_mem[i + 1] = 0x02; base_mem[i + 6] = 0x0e; base_mem[i + 7] = i; }
    memset(base_mem + 0x20, 0x55, 0x18);     /* SVC and program old PSW */
    base_mem[BOOT] = 0x82; base_mem[BOOT + 2] = BOOT >> 8; base_mem[BOOT + 3] = (BOOT & 0xff) + 8;
}
static void ct_new(void)
{
    int i;
    memset(&T, 0, sizeof T);
    ct_known = NULL;
    T.m = tm; memcpy(tm, base_mem, s360_size);
    T.fp = C->fp; T.fetchprot = C->fetchprot; T.laxmp = C->fp;
    for (i = 0; i < 16; i++) T.r[i] = 0x01010101u * (i + 3);
    for (i = 0; i < 8; i++) T.f[i] = 0x11223300u + i;
    T.ia = CODE;
}
static void ct_code(uint32_t a, int n, ...)       /* n bytes */
{
    va_list ap; va_start(ap, n);
    while (n--) tm[a++ & (s360_size - 1)] = va_arg(ap, int);
    va_end(ap);
}
static const char *ct_hex(const uint8_t *p, int n)
{
    static char b[4][80]; static int k; int i; char *q = b[k = (k + 1) & 3];
    for (i = 0; i < n && i < 32; i++) sprintf(q + 2 * i, "%02x", p[i]);
    return q;
}
static int ct_wlen(void) { uint32_t ia = T.ia & (s360_size - 1); return tm[ia] < 0x40 ? 2 : tm[ia] < 0xc0 ? 4 : 6; }
static char ct_ctx[400];
static void ct_bad(const char *kind, const char *fmt, ...)
{
    char sig[80], b[400]; va_list ap; uint32_t ia = T.ia & (s360_size - 1); int op = tm[ia];
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (op == 0x44) snprintf(sig, sizeof sig, "%s:ex:%s", C->name, kind);
    else if (ct_known && (!strcmp(kind, "psw") || !strcmp(kind, "code"))) snprintf(sig, sizeof sig, "%s", ct_known);
    else snprintf(sig, sizeof sig, "%s:%02x:%s", C->name, op, kind);
    if (getenv("MC_DEBUG")) { FILE *f = fopen(getenv("MC_DEBUG"), "a"); fprintf(f, "%s  %s %s | %s\n", sig, ct_hex(tm + ia, ct_wlen()), ct_ctx, b); fprintf(f, "    amwp %x key %x pm %x cc %d\n", T.amwp, T.key, T.pm, T.cc); fclose(f); }
    mc_fail(sig, "model %s, instruction %s at %04x, psw mask %02x key %x amwp %x cc %d pm %x; %s: %s", C->name,
            ct_hex(tm + ia, ct_wlen()), ia, T.sysmask, T.key, T.amwp, T.cc, T.pm, ct_ctx, b);
}
/* run the case in T for up to max instructions */
static void ct_run(int max)
{
    int i, n = 0, un_cc = 0; uint32_t un_regs = 0, un_fp = 0, codes = 0, ulo[8], uhi[8]; int nu = 0, skip_ilc = 0;
    uint8_t *bp = tm + BOOT + 8;
    bp[0] = T.sysmask; bp[1] = T.key << 4 | T.amwp; bp[2] = bp[3] = 0;
    bp[4] = T.cc << 4 | T.pm; bp[5] = T.ia >> 16; bp[6] = T.ia >> 8; bp[7] = T.ia;
    R = T; R.m = rm; memcpy(rm, tm, s360_size);
    R.ilc = 2;
    while (!(R.amwp & 2)) {
        if (n++ >= max) mc_prune();
        s360_step(&R);
        if (R.undef & 3) mc_prune();
        if (R.undef & 4) skip_ilc = 1;
        if (R.pgm) codes = R.codes;
        un_cc |= R.un_cc; un_regs |= R.un_regs; un_fp |= R.un_fp;
        if (R.un_hi > R.un_lo && nu < 8) { ulo[nu] = R.un_lo; uhi[nu] = R.un_hi; nu++; }
        if (n > 1 && (un_cc | un_regs | un_fp | nu) && !(R.amwp & 2)) mc_prune();
    }
    if (C == &cpu30 && !(codes & 1u << 5)) {      /* 16 bit instruction address, storage is used up */
        if (rm[0x25] == 1) rm[0x25] = 0;
        if (rm[0x2d] == 1) rm[0x2d] = 0;
    }
    C->put(&T);
    if (getenv("MC_LOG")) { extern int log_level, log_enable; void log_init(char *); log_init(getenv("MC_LOG")); log_level = 0xff; log_enable = 1; }
    i = C->run(BOOT, (long)C->maxcycles * (n + 1));
    if (i < 0) ct_bad("hang", "no wait state after %ld microcycles", (long)C->maxcycles * (n + 1));
    ct_cycles = i; mc_steps(n);
    D.m = dm; C->get(&D);
    /* program old PSW: interruption code may be one of several */
    if (codes) {
        int code = dm[0x2a] << 8 | dm[0x2b];
        if (code > 15 || !(codes >> code & 1)) ct_bad("code", "program interruption code %d, expected %d (set %x); old psw %s", code, R.m[0x2b], codes, ct_hex(dm + 0x28, 8));
        rm[0x2a] = dm[0x2a]; rm[0x2b] = dm[0x2b];
        if (skip_ilc) rm[0x2c] = (rm[0x2c] & 0x3f) | (dm[0x2c] & 0xc0);
        if (skip_ilc) memcpy(rm + 0x2d, dm + 0x2d, 3);
    }
    if (un_cc) { rm[0x2c] = (rm[0x2c] & 0xcf) | (dm[0x2c] & 0x30); rm[0x24] = (rm[0x24] & 0xcf) | (dm[0x24] & 0x30); }
    for (i = 0; i < nu; i++) { uint32_t a; for (a = ulo[i]; a < uhi[i]; a++) rm[a & (s360_size - 1)] = dm[a & (s360_size - 1)]; }
    for (i = 0; i < 16; i++)
        if (R.r[i] != D.r[i] && !(un_regs >> i & 1)) ct_bad("reg", "register %d is %08x, expected %08x", i, D.r[i], R.r[i]);
    if (memcmp(rm + 0x20, dm + 0x20, 8)) {
        if (!memcmp(dm + 0x20, base_mem + 0x20, 8)) ct_bad("psw", "no SVC, expected psw %s; program old psw %s", ct_hex(rm + 0x20, 8), ct_hex(dm + 0x28, 8));
        ct_bad("psw", "psw after is %s, expected %s%s", ct_hex(dm + 0x20, 8), ct_hex(rm + 0x20, 8), codes ? " (program interruption expected)" : "");
    }
    if (memcmp(rm + 0x28, dm + 0x28, 8)) ct_bad("pgmpsw", "program old psw is %s, expected %s", ct_hex(dm + 0x28, 8), ct_hex(rm + 0x28, 8));
    if (C->fp) for (i = 0; i < 8; i++)
        if (R.f[i] != D.f[i] && !(un_fp >> i & 1)) ct_bad("fpr", "floating point register word %d is %08x, expected %08x", i, D.f[i], R.f[i]);
    if (memcmp(rm, dm, s360_size)) {
        for (i = 0; rm[i] == dm[i]; i++) ;
        ct_bad("mem", "storage at %04x is %s, expected %s", i, ct_hex(dm + i, i + 12 > (int)s360_size ? 1 : 12), ct_hex(rm + i, i + 12 > (int)s360_size ? 1 : 12));
    }
    for (i = 0; i < (int)(s360_size + 2047) >> 11; i++)
        if ((R.keys[i] & 0xf0) != (D.keys[i] & 0xf0)) ct_bad("key", "storage key of block %d is %02x, expected %02x", i, D.keys[i], R.keys[i]);
}
#define CTX(...) snprintf(ct_ctx, sizeof ct_ctx, __VA_ARGS__)
#define N(a) ((int)(sizeof(a) / sizeof *(a)))
#define PICK(a, l) a[mc_choose(N(a), l)]
#endif
