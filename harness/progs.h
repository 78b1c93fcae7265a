/* programs and their reference states, for the checks that stop or interrupt them */
#ifndef PROGS_H
#define PROGS_H
#define MAXK 120
static const struct prog { const char *name; int fp, straight, mask; int n; uint8_t b[120]; } P[] = {
 { "mixed", 0, 1, 1, 46, { 0x41,0x10,0x90,0x10, 0x50,0x10,0x90,0x00, 0xd2,7,0x90,0x20,0x90,0, 0x5a,0x10,0x90,0x20, 0x90,0x36,0x90,0x40, 0x1c,0x24, 0x97,0xff,0x90,0x00, 0x8d,0x20,0,5, 0x5d,0x20,0x90,0x48, 0x19,0x23, 0x95,1,0x90,3, 0x0a,0x99 } },
 { "decimal", 0, 1, 1, 48, { 0xfa,0x33,0x90,0x80,0x90,0x84, 0xfb,0x73,0x90,0x88,0x90,0x84, 0xfc,0x71,0x90,0x90,0x90,0x98, 0xfd,0x71,0x90,0x90,0x90,0x98, 0xf3,0x73,0x91,0x00,0x90,0x80, 0xf2,0x37,0x91,0x10,0x91,0x00, 0xde,0x07,0x90,0xa0,0x90,0x80, 0x4f,0x10,0x90,0xb0, 0x0a,0x99 } },
 { "loop", 0, 0, 1, 30, { 0x41,0x40,0,5, 0x41,0x50,0,0, 0x5a,0x50,0x90,0x00, 0x50,0x50,0x90,0x60, 0x54,0x50,0x90,0x24, 0x16,0x51, 0x46,0x40,0xb0,0x08, 0x0a,0x99 } },
 { "execute", 0, 1, 1, 38, { 0x44,0x70,0xb0,0x40, 0x41,0x70,0,9, 0x44,0x70,0xb0,0x40, 0xdc,0x0f,0x90,0x20,0x90,0x00, 0xdd,0x1f,0x90,0x20,0x91,0x80, 0x44,0x70,0xb0,0x46, 0x45,0xe0,0xb0,0x22, 0x0a,0x99, 0x0a,0x99 } },
 { "window", 0, 1, 0, 38, { 0x18,0x12, 0x80,0,0x90,0x33, 0x1a,0x12, 0x80,0,0x90,0x34, 0x1a,0x12, 0x1a,0x13, 0x1a,0x14, 0x80,0,0x90,0x33, 0x80,0,0x90,0x34, 0x50,0x10,0x90,0, 0x80,0,0x90,0x33, 0x0a,0x99 } },
 { "psws", 0, 1, 1, 34, { 0x1a,0x12, 0x82,0,0xb0,0x50, 0x1a,0x13, 0x0a,0x05, 0x1a,0x14, 0x1d,0x20, 0x1a,0x15, 0x00,0x00, 0x1a,0x16, 0x82,0,0xb0,0x58, 0x1a,0x17, 0x1a,0x18, 0x0a,0x99 } },
 { "float", 1, 1, 1, 34, { 0x68,0x00,0x90,0x00, 0x6a,0x00,0x90,0x08, 0x2c,0x02, 0x6d,0x00,0x90,0x08, 0x60,0x00,0x90,0x60, 0x2b,0x20, 0x78,0x40,0x90,0x10, 0x3d,0x42, 0x0a,0x99 } },
 { "wait", 0, 1, 1, 14, { 0x1a,0x12, 0x1a,0x13, 0x82,0,0xb0,0x60, 0x1a,0x14, 0x0a,0x99 } },
 { "disabled", 0, 1, 0, 14, { 0x1a,0x12, 0x1a,0x13, 0xd2,0x03,0x90,0x20,0x90,0x00, 0x0a,0x99 } },
 { "long", 0, 1, 1, 22, { 0xd2,0x4f,0x92,0x00,0x90,0x00, 0xd5,0x4f,0x92,0x00,0x90,0x00, 0x98,0x06,0x90,0x00, 0x98,0x78,0x90,0x00, 0x0a,0x99 } },
};
static s360 K[MAXK]; static uint8_t km[MAXK][0x3000]; static int nk;   /* reference states, K[k] after k instructions */
static const struct prog *p; static int endwait;
static void load(int pi, int handler)
{
    int i; p = &P[pi];
    ct_new(); T.sysmask = p->mask; T.cc = 1; T.pm = 0;
    memcpy(tm + CODE, p->b, p->n);
    for (i = 0; i < 0x200; i++) tm[0x2000 + i] = (i * 37 + 11) & 0x7f;
    for (i = 0; i < 16; i += 8) { tm[0x2000 + i] = 0x42; tm[0x2001 + i] = 0x31; }
    tm[0x2010] = 0x41;
    ct_code(0x2033, 2, 1, 0);
    ct_code(0x2080, 16, 0x01,0x23,0x45,0x6c, 0x09,0x87,0x65,0x4d, 0,0,0,0x12,0x34,0x56,0x78,0x9c);
    ct_code(0x2090, 10, 0,0,0,0,0,0x98,0x76,0x5c, 0x12,0x3d);
    ct_code(0x20a0, 8, 0x40,0x20,0x20,0x21,0x20,0x4b,0x20,0x20);
    ct_code(0x20b0, 8, 0,0,0,0,0x12,0x34,0x56,0x7c);
    memset(tm + 0x2180, 0, 0x80); tm[0x2180 + 5] = 9;
    T.r[9] = 0x2000; T.r[11] = CODE; T.r[2] = 77; T.r[3] = 0x12345; T.r[4] = 16; T.r[7] = 3;
    ct_code(CODE + 0x40, 12, 0xd2,0,0x90,0xc0,0x90,0x00, 0xd1,0x01,0x90,0xd0,0x90,0x80);
    ct_code(CODE + 0x50, 8, 0,0,0,0, 0x20, 0, CODE >> 8, 6);             /* disabled, key 0 */
    ct_code(CODE + 0x58, 8, 1,0,0,0, 0x30, 0, CODE >> 8, 0x18);
    ct_code(CODE + 0x60, 8, 1,2,0,0, 0x30, 0, CODE >> 8, 0x08);          /* enabled wait */
    if (pi == 5) {
        ct_code(0x60, 8, 1,0,0,0, 0,0, CODE >> 8, 0x0a);                 /* SVC: enables */
        ct_code(0x68, 8, 0,0,0,0, 0x10,0, CODE >> 8, 0x0e);              /* program interruption: disables */
        ct_code(CODE + 0x16, 2, 0x82,0x00); ct_code(CODE + 0x18, 2, 0xb0, 0x68);
        ct_code(CODE + 0x0e, 8, 0x1a,0x15, 0x1a,0x16, 0x82,0,0xb0,0x58);
        ct_code(CODE + 0x18, 8, 0x1a,0x17, 0x1a,0x18, 0x82,0,0xb0,0x68);
        ct_code(CODE + 0x68, 8, 0,2,0,0, 0,0,0,0x99);
    }
    if (handler) {                                                       /* count and return */
        ct_code(0x58, 8, 0,0,0,0, 0,0, 6,0);
        ct_code(0x600, 24, 0x90,0x12,0x07,0x00, 0x41,0x10,0x00,0x01, 0x5a,0x10,0x07,0x10, 0x50,0x10,0x07,0x10, 0x98,0x12,0x07,0x00, 0x82,0,0,0x18);
        memset(tm + 0x700, 0, 32);
    }
    CTX("program %s", p->name);
}
static void boot(void)
{
    uint8_t *bp = tm + BOOT + 8;
    bp[0] = T.sysmask; bp[1] = T.key << 4 | T.amwp; bp[2] = bp[3] = 0;
    bp[4] = T.cc << 4 | T.pm; bp[5] = T.ia >> 16; bp[6] = T.ia >> 8; bp[7] = T.ia;
    R = T; R.m = rm; memcpy(rm, tm, sizeof rm); R.ilc = 2;
    nk = 0;
    for (;;) {
        K[nk] = R; memcpy(km[nk], rm, sizeof km[0]); K[nk].m = km[nk]; nk++;
        if (R.amwp & 2) break;
        if (nk == MAXK) { fprintf(stderr, "program %s too long\n", p->name); _exit(70); }
        s360_step(&R);
        if (getenv("MC_T")) fprintf(stderr, "  %x cc %d\n", R.ia, R.cc);
        if (R.undef || R.un_cc || R.un_regs || R.un_fp) { fprintf(stderr, "program %s not defined: %d cc %d regs %x fp %x at %x codes %x\n", p->name, R.undef, R.un_cc, R.un_regs, R.un_fp, R.ia, R.codes); _exit(71); }
    }
    endwait = (R.sysmask & 1);
    C->put(&T);
    if (getenv("MC_LOG")) { extern int log_level, log_enable; extern FILE *log_file; void log_init(char *); if (log_file) fclose(log_file); log_init(getenv("MC_LOG")); setvbuf(log_file, NULL, _IOLBF, 4096); log_level = 0xffff; log_enable = 1; }
}
static long limit(void) { return (long)C->maxcycles * 8; }
static int pathlen(void) { static int len[2][N(P)]; int i = p - P, c = C == &cpu30; long n;     /* microcycles of the undisturbed program */
    if (!len[c][i]) { cpu_nev = 0; boot(); n = C->runev(BOOT, limit()); len[c][i] = n < 0 ? 4000 : n + 10; }
    return len[c][i]; }
/* device state in D against reference state k; 0 if the same. except: bytes lo..hi of storage not compared */
static int differs(const s360 *r, uint32_t lo, uint32_t hi, char *why, size_t sz)
{
    uint32_t i;
    for (i = 0; i < 16; i++) if (r->r[i] != D.r[i]) { snprintf(why, sz, "register %d is %08x, expected %08x", i, D.r[i], r->r[i]); return 1; }
    if (C->fp) for (i = 0; i < 8; i++) if (r->f[i] != D.f[i]) { snprintf(why, sz, "floating point register word %d is %08x, expected %08x", i, D.f[i], r->f[i]); return 1; }
    for (i = 0; i < sizeof km[0]; i++) if (r->m[i] != dm[i] && !(i >= lo && i < hi)) { snprintf(why, sz, "storage %04x is %02x, expected %02x", i, dm[i], r->m[i]); return 1; }
    return 0;
}
#ifndef PROGS_NO_BAD
static void bad(const char *kind, const char *fmt, ...)
{
    char sig[80], b[500]; va_list ap;
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    snprintf(sig, sizeof sig, "%s:%s", C->name, kind);
    if (getenv("MC_DEBUG")) { FILE *f = fopen(getenv("MC_DEBUG"), "a"); fprintf(f, "%s  %s | %s\n", sig, ct_ctx, b); fclose(f); }
    mc_fail(sig, "model %s, %s: %s", C->name, ct_ctx, b);
}
#endif
static void oldpsw(uint8_t *o, const s360 *s, int code)
{
    o[0] = s->sysmask; o[1] = s->key << 4 | s->amwp; o[2] = code >> 8; o[3] = code; o[4] = s->cc << 4 | s->pm; o[5] = s->ia >> 16; o[6] = s->ia >> 8; o[7] = s->ia;
    if (C == &cpu30) o[5] = 0;
}
#endif
