/* one START I/O on a simulated processor against the reference channel */
#ifndef IOCASE_H
#define IOCASE_H
extern int log_level;
#define HND 0x600u
#define LOGA 0x800u
#define CSWL 0x720u
static iod X[4]; static int nx;
static int div_;                         /* processor cycles for each device cycle */
static long now;
static int is30(void) { return C == &cpu30; }
static const char *io_name;
static const char *io_class;             /* case of a recorded finding */
static void bad(const char *kind, const char *fmt, ...)
{
    char sig[80], b[500]; va_list ap;
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    snprintf(sig, sizeof sig, "%s:%s%s%s", C->name, io_class ? io_class : "", io_class ? ":" : "", kind);
    if (getenv("MC_DEBUG")) { FILE *f = fopen(getenv("MC_DEBUG"), "a"); fprintf(f, "%s  %s | %s\n", sig, ct_ctx, b); fclose(f); }
    mc_fail(sig, "model %s, %s: %s", C->name, ct_ctx, b);
}
static void ccw(int i, int cmd, uint32_t a, int fl, int cnt)
{
    ct_code(0x500 + 8 * i, 8, cmd, a >> 16, a >> 8 & 255, a & 255, fl, 0, cnt >> 8, cnt & 255);
}
static void add(uint16_t addr, int burst)
{
    iod *x = &X[nx++]; int i, c = addr >> 8;
    iod_init(x, addr); x->burst = burst;
    for (i = 0; i < IO_OPS; i++) x->op[i].len = 4, x->op[i].first = 20, x->op[i].gap = 5;
    x->d.next = NULL;
    if (chan[c]) { device_t *d = chan[c]; while (d->next) d = d->next; d->next = &x->d; } else chan[c] = &x->d;
}
static void io_base(void)
{
    io_name = io_class = NULL;
    int i;
    nx = 0; memset(chan, 0, sizeof(device_t *) * 6); now = 0; div_ = 1;
    ct_new();
    for (i = 0; i < 0x100; i++) tm[0x2000 + i] = 0x11 + i * 5;
    ct_code(0x78, 8, 0,0,0,0, 0,0, HND >> 8, HND & 255);
    ct_code(0x40, 8, 0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff);
    ct_code(0x48, 4, 0,0,5,0);
    ct_code(0x710, 8, 0xff,2,0,0,0,0,0,0x98);                  /* enabled wait */
    ct_code(0x718, 8, 0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff);
    /* log old PSW and CSW, clear CSW, wait */
    ct_code(HND, 26, 0xd2,7,0x70,0,0,0x38, 0xd2,7,0x70,8,0,0x40, 0x41,0x70,0x70,0x10, 0xd2,7,0,0x40,0x07,0x18, 0x82,0,0x07,0x10);
    T.r[7] = LOGA; T.sysmask = 0;
}
/* k: 0 multiplexer, 1 multiplexer with burst device, 2 and 3 selector, 4 multiplexer, 3 bytes at a time */
static void io_case(int k)
{
    io_base();
    add(k == 3 ? 0x20f : k == 2 ? 0x10f : 0x00f, k == 1);
    CTX("%s", k == 0 ? "byte mode" : k == 1 ? "burst mode" : k == 2 ? "selector 1" : k == 3 ? "selector 2" : "3 bytes at a time");
    if (k == 4) X[0].group = 3;
    T.r[1] = X[0].d.addr;
    ct_code(CODE, 20, 0x9c,0,0x10,0, 0x05,0x50, 0x50,0x50,0x07,0x00, 0xd2,7,0x07,0x20,0,0x40, 0x82,0,0x07,0x10);
}
static void io_psw(void)
{
    uint8_t *bp = tm + BOOT + 8;
    bp[0] = T.sysmask; bp[1] = T.key << 4 | T.amwp; bp[2] = bp[3] = 0;
    bp[4] = T.cc << 4 | T.pm; bp[5] = T.ia >> 16; bp[6] = T.ia >> 8; bp[7] = T.ia;
}
static void io_boot(void)
{
    C->put(&T);
    if (getenv("MC_LOG")) { extern int log_level, log_enable; extern FILE *log_file; void log_init(char *); if (log_file) fclose(log_file); log_init(getenv("MC_LOG")); setvbuf(log_file, NULL, _IOLBF, 4096); log_level = 0xffff; log_enable = 1; }
    C->start(BOOT); now = 0;
}
static void io_cycle(void)
{
    int i;
    C->cycle(); START = 0;
    if (now++ % div_ == 0) for (i = 0; i < nx; i++) iod_tick(&X[i]);
}
static int io_idle(void) { int i; for (i = 0; i < nx; i++) if (!iod_quiet(&X[i])) return 0; return C->waiting(); }
static long io_limit = 60000;
static void io_run(void)
{
    int q = 0;
    while (q < 300) { io_cycle(); q = io_idle() ? q + 1 : 0; if (now > io_limit) break; }
    if (now > io_limit) { D.m = dm; C->get(&D); bad("hang", "not finished after %ld microcycles (device state %d, cmd %02x, %s, register 7 %08x)", now, X[0].st, X[0].cmd, C->waiting() ? "waiting" : "not waiting", D.r[7]); }
    mc_steps(now);
    D.m = dm; C->get(&D);
    for (int i = 0; i < nx; i++) if (X[i].viol[0]) bad("bus", "%s", X[i].viol);
}
static const char *io_ccws(void)
{
    static char b[300]; int i, n = 0; b[0] = 0;
    n += sprintf(b, "CAW %s CCW", ct_hex(tm + 0x48, 4));
    for (i = 0; i < 6; i++) { const uint8_t *p = tm + 0x500 + 8 * i; if (!p[0] && !p[7]) break; n += sprintf(b + n, " %s", ct_hex(p, 8)); }
    return b;
}
static const char *io_devs(void)
{
    static char b[300]; int i, n = 0; const iod *x = &X[0];
    for (i = 0; i < 3; i++) n += sprintf(b + n, "%s%d bytes", i ? ", " : "", x->op[i].len), n += x->op[i].split ? sprintf(b + n, " split %d", x->op[i].split) : 0, n += x->op[i].sms ? sprintf(b + n, " sms") : 0, n += x->op[i].bad ? sprintf(b + n, " bad %02x", x->op[i].bad) : 0, n += x->op[i].init ? sprintf(b + n, " init %02x", x->op[i].init) : 0;
    return b;
}
static refchan rr;
/* the cases in which the channels of this code are known to be wrong */
static const char *io_classify(void)
{
    int i, k;
    if (is30()) {
        if (!(X[0].d.addr & 0xf00)) for (i = 1; i < rr.nccw; i++) if ((rr.ccws[i].flags & CHAN_SKIP_FLAG) && (rr.ccws[i].cmd & 1) && rr.ccws[i].op != rr.ccws[i - 1].op) return "mpx-chain-write-skip";
        return NULL;
    }
    if (X[0].d.addr & 0xf00) {
        for (i = 0; i < rr.nccw; i++) if ((rr.ccws[i].cmd & 15) == 12) return "sel-backward";
        for (i = 1; i < rr.nccw; i++) if (rr.ccws[i].op == rr.ccws[i - 1].op) return "sel-data-chain";
        if (rr.left) return "sel-short";
        for (i = 1; i < rr.nccw; i++) if (rr.ccws[i].cmd & 1) return "sel-chain-write";
    } else if (X[0].burst || X[0].group) {
        for (i = 1; i < rr.nccw; i++) if ((rr.ccws[i].flags & CHAN_SKIP_FLAG)) return "burst-chain-skip";
        if (rr.left) for (k = i = 0; i < rr.nccw; i++) if (rr.ccws[i].op) return "burst-short-chain";
        if (rr.left & 2) return "burst-short-write";
    }
    return NULL;
}
static void io_csw(int i, const uint8_t *csw, int addr)
{
    int d = csw[5] ^ rr.in[i].chn;
    if (rr.in[i].chn & 0x30) d &= ~0x40;                       /* incorrect length with a check: not specified */
    if ((rr.in[i].unit_ok && csw[4] != rr.in[i].unit) || d) bad("status", "%s %d: CSW %s status %02x%02x, expected %02x%02x", addr < 0 ? "START I/O" : "interruption", i, ct_hex(csw, 8), csw[4], csw[5], rr.in[i].unit, rr.in[i].chn);
    if (addr >= 0 && rr.in[i].addr_ok && (rr.in[i].unit_ok || !is30()) && ((csw[0] & 0xf0) != rr.in[i].key << 4 || (csw[1] << 16 | csw[2] << 8 | csw[3]) != (int)rr.in[i].addr)) bad("cswaddr", "CSW %s, expected key %x address %06x", ct_hex(csw, 8), rr.in[i].key, rr.in[i].addr);
    if (addr >= 0 && rr.in[i].count_ok && (csw[6] << 8 | csw[7]) != rr.in[i].count) bad("count", "CSW %s, expected count %d", ct_hex(csw, 8), rr.in[i].count);
}
static void io_go(void)
{
    int i, j, n; char c0[200];
    snprintf(c0, sizeof c0, "%s", ct_ctx);
    CTX("%s, %s, device %s", c0, io_ccws(), io_devs());
    io_psw(); memcpy(rm, tm, s360_size);
    rc_run(&rr, rm, T.keys, &X[0]);
    if (rr.undef) mc_prune();
    io_class = io_name ? io_name : io_classify();
    io_boot(); io_run();
    for (i = j = 0; i < X[0].ncmd; i++) if (X[0].cmds[i]) X[0].cmds[j++] = X[0].cmds[i];       /* test I/O commands do not count */
    X[0].ncmd = j;
    if (j < rr.ncmd) {                                          /* bad address found early */
        rc_early = 1; memcpy(rm, tm, s360_size); rc_run(&rr, rm, T.keys, &X[0]); rc_early = 0;
    }
    for (i = 0x20; i < 0x30; i++) if (dm[i] != 0x55) bad("trap", "program interruption, old PSW %s", ct_hex(dm + 0x28, 8));
    if ((dm[0x700] >> 4 & 3) != rr.cc) bad("cc", "condition code of START I/O %d, expected %d (CSW %s)", dm[0x700] >> 4 & 3, rr.cc, ct_hex(dm + CSWL, 8));
    if (rr.cc == 0) { for (i = 0; i < 8; i++) if (dm[CSWL + i] != 0xff) bad("csw", "START I/O with condition code 0 stored CSW %s", ct_hex(dm + CSWL, 8)); }
    else {
        io_csw(0, dm + CSWL, -1);
        for (i = 0; i < 8; i++) if (i != 4 && i != 5 && dm[CSWL + i] != 0xff) bad("csw", "START I/O stored more than status: %s", ct_hex(dm + CSWL, 8));
    }
    n = (D.r[7] - LOGA) / 16;
    for (i = 0, j = rr.cc == 1; i < n; i++) {
        uint8_t *l = dm + LOGA + 16 * i;
        if (rr.pci && (l[13] & 0x80)) { rr.pci = -1; l[13] &= 0x7f; if (!l[12] && !l[13]) continue; }
        if (j >= rr.nint) bad("extra", "extra interruption, CSW %s", ct_hex(l + 8, 8));
        if ((l[2] << 8 | l[3]) != X[0].d.addr) bad("intaddr", "interruption from %02x%02x", l[2], l[3]);
        io_csw(j++, l + 8, 0);
    }
    if (j < rr.nint) bad("lost", "%d interruptions, %d expected", n, rr.nint - (rr.cc == 1));
    if (rr.pci > 0) bad("pci", "no program controlled interruption");
    if (X[0].ncmd != rr.ncmd || memcmp(X[0].cmds, rr.cmds, rr.ncmd)) bad("commands", "device got %d commands (%s), expected %d (%s)", X[0].ncmd, ct_hex(X[0].cmds, X[0].ncmd), rr.ncmd, ct_hex(rr.cmds, rr.ncmd));
    for (i = 0; i < rr.nop; i++) {
        if (X[0].cmds[i] & 1 && !X[0].op[i].init && (X[0].ngot[i] != rr.n[i] || memcmp(X[0].got[i], rr.out[i], rr.n[i]))) bad("written", "command %d: device got %d bytes %s, expected %d bytes %s", i, X[0].ngot[i], ct_hex(X[0].got[i], X[0].ngot[i]), rr.n[i], ct_hex(rr.out[i], rr.n[i]));
    }
    for (i = 0; i < (int)s360_size; i++) if (rm[i] != dm[i] && !(i >= 0x38 && i < 0x48) && !(i >= 0x700 && i < 0x704) && !(i >= CSWL && i < CSWL + 8) && !(i >= LOGA && i < LOGA + 0x100))
        bad("mem", "storage %04x is %s, expected %s", i, ct_hex(dm + i, 8), ct_hex(rm + i, 8));
    mc_outcome("%s cc%d n%d %02x%02x", C->name, rr.cc, rr.nint, rr.in[0].unit, rr.in[0].chn);
}
#endif
