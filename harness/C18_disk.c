/*
 * C18 - 2314 disk drives behind the 2844 control unit.
 * MC-GROUPS: top device model2844
 * MC-OPT: -O2
 * MC-SAN: asan
 */
#include <stdlib.h>
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include "device.h"
#include "conf.h"
#include "event.h"
extern void step_disk();
#define DC_TICK() (step_disk(), step_disk(), advance())
#include "dchan.h"
#include "model2844.h"
#include "dasd.h"

uint64_t step_count;
int SYS_RST;
const char *mc_property = "C18";
const char *mc_bounds = "2314 pack in a fresh image behind the 2844, on a simulated selector channel: format: every choice of 4 tracks (first and last cylinder and head), 1-2 records (thorough 3) of 8 key and data lengths, with and without home address, read back at once, after a seek, after a remount; length: key and data length 0-4 (thorough 0-8); short: every count below the record length for 4 key lengths, formatting and updating; update: all sequences of 2 (thorough 3) of 14 operations on a track with neighbours (update of data, of key and data, format after record 0-2, read, seek, remount); search: 6 searches x 6 arguments; seek: all sequences of 2 of 4 seek commands x 9 cylinders x 5 heads (thorough 3, the first two to 4 cylinders x 2 heads); pairs: from 4 (thorough 203) cylinders to each of 203 and back; mask: 256 file masks x 9 commands";
const char *mc_assumptions[] = {
    "the control unit and the event wheel run in the proportion of the panel loop: two control unit steps to one channel step",
    "the unit may answer address out with short busy before select out reaches it",
    "only bytes in use on a track (up to its end mark) are compared; the control unit erases the rest of a track after a format write",
    "a format write is followed by the time of a revolution before the pack is taken off",
    "key and data lengths of two bytes and counts shorter than the record only occur in parts length and short, where their overruns are the recorded findings", NULL};
void model2314_draw(struct _device *u, void *r, int n) {}
void *model2314_control(struct _device *u, int n, int x, int y) { return NULL; }
void model2314_init_graphics(struct _device *u, void *r) {}
int model2844_create(struct _option *o) { return 1; }
int model2314_create(struct _option *o) { return 1; }
void test_advance(void) {}


#define TS 7680                                  /* bytes of a track in the image: 7294 rounded up to 512 */
#define HEADS 20
#define CYLS 203
#define HDR 512
#define CS (TS * HEADS)
static struct _device *ctl; static struct _2844_context *cx;
static char path[400];
static struct _2844_context snap; static struct _dasd_t dsnap; static struct _device csnap;
/* cylinders an execution may touch */
static const int used[] = { 0, 1, 16, 17, 200, 201, 202 };
#define NU ((int)(sizeof used / sizeof *used))
static uint8_t orig[NU][CS], want[NU][CS], got[NU][CS];
static int xfd = -1; static uint8_t header[HDR]; static off_t psize;
static int uc(int c) { for (int i = 0; i < NU; i++) if (used[i] == c) return i; return -1; }
void mc_setup(void) {
    snprintf(path, sizeof path, "%s/pack", mc_scratch);
    init_event();
    ctl = model2844_init(0x90); cx = ctl->dev;
    cx->disk[1] = calloc(1, sizeof(struct _dasd_t));
    dasd_settype(cx->disk[1], "2314");
    if (dasd_attach(cx->disk[1], path, 1) != 1) mc_fail("setup:attach", "a new pack cannot be attached");
    cx->WX = 0;
    for (int i = 0; i < 20; i++) { step_2844(cx); step_count++; if (cx->WX == 0x5b6) break; }
    dc_time = 400000; dc_resp = 3000; dc_early = 1;
    snap = *cx; csnap = *ctl; dsnap = *cx->disk[1];
    xfd = open(path, O_RDWR);
    psize = lseek(xfd, 0, SEEK_END); (void)!pread(xfd, header, HDR, 0);
    for (int i = 0; i < NU; i++) if (pread(xfd, orig[i], CS, HDR + (off_t)CS * used[i]) != CS) memset(orig[i], 0xee, CS);
}
static int erasing;   /* after a format write the control unit erases up to the index */
static struct _dasd_t *dk; static const char *special;  /* name for the overrun of writes known to have it */
/* every process works on a pack of its own: a sparse copy with the cylinders in use */
static void begin(void) {
    static pid_t mine;
    init_event();
    dk = cx->disk[1];
    if (mine != getpid()) {
        mine = getpid(); snprintf(path, sizeof path, "%s/pack.%d", mc_scratch, (int)mine);
        int ofd = xfd;
        xfd = open(path, O_RDWR|O_CREAT|O_TRUNC, 0600);
        if (xfd < 0 || ftruncate(xfd, psize) || pwrite(xfd, header, HDR, 0) != HDR) { perror(path); _exit(99); }
        for (int c = 0; c < CYLS; c++) for (int h = 5; h < 8; h += 2) {
            uint8_t b[64]; off_t at = HDR + (off_t)CS * c + TS * h;
            if (pread(ofd, b, 64, at) == 64) (void)!pwrite(xfd, b, 64, at);
        }
        close(ofd);
    }
    if (dk->fd >= 0 && dk->cbuf) { dk->dirty = 0; dasd_detach(dk); }
    for (int i = 0; i < NU; i++) (void)!pwrite(xfd, orig[i], CS, HDR + (off_t)CS * used[i]);
    memset(dk, 0, sizeof *dk); dk->type = dsnap.type;
    if (dasd_attach(dk, path, 0) != 1) mc_fail("mount:status", "the pack cannot be mounted");
    *cx = snap; *ctl = csnap;
    int fd = dk->fd; void *cb = dk->cbuf; char *fn = dk->file_name;
    *dk = dsnap; dk->fd = fd; dk->cbuf = cb; dk->file_name = fn;
    memcpy(want, orig, sizeof want); erasing = 0; special = 0; dc_hang = "hang:service";
}
/* the prepared image becomes the pack */
static void load(void) {
    for (int i = 0; i < NU; i++) (void)!pwrite(xfd, want[i], CS, HDR + (off_t)CS * used[i]);
    memcpy(dk->cbuf, want[0], CS);
    dc_init(1, 0); dc_idle(10);
}
static uint8_t obuf[8000]; static uint8_t wb(int i) { return obuf[i]; }
static dgot g;
static void waitend(void) {                       /* the control unit was busy: it must report its end */
    dc.multi = 1;
    int r = dc_next(dc_time);
    if (r != DC_STAT || dc.addr != 0x90 && dc.addr != 0x91 || (dc.status & 0xff) != 0x20) mc_fail("busy:end", "control unit busy is followed by %s %02x", r == DC_STAT ? "status" : "silence", dc.status & 0xff);
    dc_take(0); dc_release("control unit end"); dc.multi = 0; dc_idle(4);
}
/* one command of a chain; statuses or'ed */
static int op(int cmd, int count, const void *out, int chain) {
    if (out && out != obuf) memcpy(obuf, out, count);
    dc_wbyte = wb;
    for (int try = 0; ; try++) {
        g = dc_run(0x91, cmd, count, DV_NONE, 0, chain);
        if (!g.busy) break;
        if (try || (dc.status & 0xff) != 0x50) mc_fail("busy:status", "command %02x answered by busy %02x", cmd, dc.status & 0xff);
        waitend();
    }
    int all = dg_or(&g) & 0xff;
    if (cmd == 0x1d || cmd == 0x15 || cmd == 0x19) erasing = 1; else if (!(cmd & 1)) erasing = 0;
    if (dc.trace || mc_replaying()) mc_note("cmd %02x count %d: status %02x %02x %02x, %d bytes", cmd, count, g.nst > 0 ? g.st[0] : 0, g.nst > 1 ? g.st[1] : 0, g.nst > 2 ? g.st[2] : 0, g.n);
    return all;
}
static void must(int cmd, int count, const void *out, int chain, int st, const char *sig) {
    int a = op(cmd, count, out, chain);
    if (a != st) {
        if (a & SNS_UNITCHK) {
            op(4, 6, 0, 0);
            if ((cmd == 0x1d || cmd == 0x0d) && a == 0x0e && g.data[0] == 4 && special) sig = special;
            mc_fail(sig, "command %02x ends with status %02x instead of %02x, sense %02x %02x %02x", cmd, a, st, g.data[0], g.data[1], g.data[2]);
        }
        mc_fail(sig, "command %02x ends with status %02x instead of %02x", cmd, a, st);
    }
    if (out && !(a & (SNS_UNITCHK|SNS_UNITEXP)) && g.n > count) mc_fail("count:write", "command %02x took %d bytes of %d", cmd, g.n, count);
}
static void seek(int c, int h, int chain) { uint8_t b[6] = { 0, 0, c >> 8, c, 0, h }; must(0x07, 6, b, chain, 0x0c, "seek:status"); }
static void mask(int m) { uint8_t b = m; must(0x1f, 1, &b, 1, 0x0c, "mask:status"); }
/* the reference track */
typedef struct { uint8_t c[2], h[2], r, kl; int dl; uint8_t b[600]; } rec;
typedef struct { int cyl, head, n; rec r[8]; } track;
static void mkrec(rec *r, const track *t, int id, int kl, int dl, int salt) {
    r->c[0] = t->cyl >> 8; r->c[1] = t->cyl; r->h[0] = 0; r->h[1] = t->head; r->r = id; r->kl = kl; r->dl = dl;
    for (int i = 0; i < kl; i++) r->b[i] = 0x10 * id + 7 * i + 1 + salt;
    for (int i = 0; i < dl; i++) r->b[kl + i] = 0x35 * id + 3 * i + 5 + salt;
}
static int ckd(const rec *r, uint8_t *b) { memcpy(b, r->c, 5); b[5] = r->kl; b[6] = r->dl >> 8; b[7] = r->dl; memcpy(b + 8, r->b, r->kl + r->dl); return 8 + r->kl + r->dl; }
static void render(const track *t) {              /* put the track into the wanted image */
    uint8_t *p = want[uc(t->cyl)] + TS * t->head, *q = p;
    *q++ = 0; *q++ = t->cyl >> 8; *q++ = t->cyl; *q++ = 0; *q++ = t->head;
    for (int i = 0; i < t->n; i++) q += ckd(&t->r[i], q);
    memset(q, 0xff, 4);
}
static int tlen(const uint8_t *p) {               /* bytes in use on a track, end mark included */
    int i = 5;
    while (i < TS - 12 && (p[i] & p[i+1] & p[i+2] & p[i+3]) != 0xff) i += 8 + p[i+5] + (p[i+6] << 8) + p[i+7];
    return i < TS - 12 ? i + 4 : TS;
}
static void quiet(void) { if (erasing) dc_idle(60000); erasing = 0; }
static void compare(void) {                       /* take the pack off: the image must be the wanted one */
    quiet();
    dasd_detach(dk);
    for (int i = 0; i < NU; i++) {
        memset(got[i], 0xee, CS); (void)!pread(xfd, got[i], CS, HDR + (off_t)CS * used[i]);
        for (int h = 0; h < HEADS; h++) {
            uint8_t *w = want[i] + TS * h, *p = got[i] + TS * h; int n = tlen(w);
            for (int k = 0; k < n; k++) if (p[k] != w[k]) mc_fail("pack:content", "cylinder %d head %d byte %d of the track on the pack is %02x, must be %02x", used[i], h, k, p[k], w[k]);
        }
    }
    uint8_t hd[8]; (void)!pread(xfd, hd, 8, 0); if (memcmp(hd, "CKD_P370", 8)) mc_fail("pack:header", "the header of the image is gone");
    mc_outcome("%d", g.n);
}
static void mount(void) { quiet(); dasd_detach(dk); dk->type = dsnap.type; if (dasd_attach(dk, path, 0) != 1) mc_fail("mount:status", "the pack cannot be mounted again"); }
static void away(int c) { seek(c == 17 ? 1 : 17, 2, 1); must(0x1a, 5, 0, 0, 0x0c, "away:status"); uint8_t w[5] = { 0, 0, c == 17 ? 1 : 17, 0, 2 }; if (g.n != 5 || memcmp(g.data, w, 5)) mc_fail("seek:position", "home address after seek is %02x%02x%02x%02x", g.data[1], g.data[2], g.data[3], g.data[4]); }
/* search for a record by its ID until found */
static void find(const rec *r) {
    for (int i = 0; ; i++) {
        int a = op(0x31, 5, r, 1);
        if (a == 0x4c) return;
        if (a != 0x0c || i > 20) { if (a & 2) op(4, 6, 0, 0); mc_fail("search:lost", "record %d is not found: status %02x sense %02x %02x", r->r, a, g.data[0], g.data[1]); }
    }
}
static void same(const char *what, const uint8_t *w, int n) {
    if (g.n != n) mc_fail("read:count", "%s gave %d bytes instead of %d", what, g.n, n);
    for (int i = 0; i < n && i < 400; i++) if (g.data[i] != w[i]) mc_fail("read:data", "%s: byte %d is %02x, must be %02x", what, i, g.data[i], w[i]);
}
/* read the whole track back: home address, R0, every record, by chained reads, then each one by search */
static void verify(const track *t) {
    uint8_t b[700], ha[5] = { 0, t->cyl >> 8, t->cyl, 0, t->head };
    seek(t->cyl, t->head, 1);
    must(0x1a, 5, 0, 1, 0x0c, "read:status"); same("read home address", ha, 5);
    must(0x16, 16, 0, 1, 0x0c, "read:status"); ckd(&t->r[0], b); same("read R0", b, 16);
    for (int i = 1; i < t->n; i++) {
        int n = ckd(&t->r[i], b);
        must(0x1e, n, 0, i < t->n - 1, t->r[i].dl ? 0x0c : 0x0d, "read:ckd"); same("read count, key and data", b, n);
        if (!t->r[i].dl && i < t->n - 1) break;                      /* unit exception ends the chain */
    }
    for (int i = 1; i < t->n; i++) {
        seek(t->cyl, t->head, 1); find(&t->r[i]);
        int n = ckd(&t->r[i], b);
        if (i & 1) { must(0x0e, n - 8, 0, 0, t->r[i].dl ? 0x0c : 0x0d, "read:kd"); same("read key and data", b + 8, n - 8); }
        else { must(0x06, t->r[i].dl, 0, 0, t->r[i].dl ? 0x0c : 0x0d, "read:d"); same("read data", b + 8 + t->r[i].kl, t->r[i].dl); }
    }
}
static void settle(int how, const track *t) { if (how == 1) away(t->cyl); if (how == 2) mount(); }
static const int KL[] = { 0, 4, 0, 0, 1, 4, 255, 8 }, DL[] = { 6, 6, 0, 1, 1, 0, 20, 300 };
static void fmt(void) {
    begin();
    static const int C[] = { 16, 0, 202, 16 }, H[] = { 5, 0, 19, 0 };
    int w = mc_choose(4, "where"), n = mc_choose(mc_thorough ? 3 : 2, "records") + 1, ha = mc_choose(2, "write home address"), how = mc_choose(3, "then");
    if (mc_thorough ? 0 : w && n > 1 && how == 0) mc_prune();
    track t = { .cyl = C[w], .head = H[w], .n = n + 1 };
    load();
    mkrec(&t.r[0], &t, 0, 0, 8, 0);
    uint8_t b[700], hab[5] = { 0, t.cyl >> 8, t.cyl, 0, t.head };
    for (int i = 1; i <= n; i++) { int k = mc_choose(n == 3 ? 4 : 8, "record"); mkrec(&t.r[i], &t, i, KL[k], DL[k], 0); }
    mc_chosen();
    seek(t.cyl, t.head, 1); mask(0xc0);
    if (ha) { must(0x19, 5, hab, 1, 0x0c, "write:ha"); }
    else { must(0x39, 4, hab + 1, 1, 0x4c, "search:ha"); }
    must(0x15, ckd(&t.r[0], b), b, 1, 0x0c, "write:r0");
    for (int i = 1; i <= n; i++) {
        int l = ckd(&t.r[i], b);
        must(0x1d, l, b, i < n, 0x0c, "write:ckd");
    }
    render(&t);
    settle(how, &t);
    verify(&t);
    compare();
}
static track base(void) {
    track t = { .cyl = 16, .head = 5, .n = 4 };
    mkrec(&t.r[0], &t, 0, 0, 8, 0); mkrec(&t.r[1], &t, 1, 4, 6, 0); mkrec(&t.r[2], &t, 2, 0, 9, 0); mkrec(&t.r[3], &t, 3, 3, 1, 0);
    return t;
}
static void neighbours(void) {                    /* records on the tracks around, to see that nothing else changes */
    track a = base(); a.head = 4; for (int i = 0; i < 4; i++) mkrec(&a.r[i], &a, i, i ? 2 : 0, 8, 0x40); render(&a);
    a.head = 6; for (int i = 0; i < 4; i++) mkrec(&a.r[i], &a, i, i ? 1 : 0, 8, 0x50); render(&a);
}
static void update(void) {
    begin();
    track t = base(); neighbours(); render(&t); load();
    int depth = mc_thorough ? 3 : 2; uint8_t b[700];
    for (int d = 0; d < depth; d++) {
        int k = mc_choose(14, "operation"), i, l;
        if (k == 0) break;
        if (k <= 3) { i = k; if (i >= t.n) mc_prune(); rec *r = &t.r[i]; seek(t.cyl, t.head, 1); mask(0xc0); find(r);
            mkrec(r, &t, i, r->kl, r->dl, 0x11 * (d + 1)); memcpy(b, t.r[i].b, 600);
            /* the key stays what it was on the pack */
            uint8_t *p = want[uc(t.cyl)] + TS * t.head + 5; for (int j = 0; j < i; j++) p += 8 + p[5] + (p[6] << 8) + p[7];
            memcpy(r->b, p + 8, r->kl);
            must(0x05, r->dl, b + r->kl, 0, 0x0c, "write:d"); }
        else if (k <= 6) { i = k - 3; if (i >= t.n) mc_prune(); rec *r = &t.r[i]; seek(t.cyl, t.head, 1); mask(0xc0); find(r);
            mkrec(r, &t, i, r->kl, r->dl, 0x13 * (d + 1)); must(0x0d, r->kl + r->dl, r->b, 0, 0x0c, "write:kd"); }
        else if (k <= 9) { i = k - 7; if (i >= t.n) mc_prune(); seek(t.cyl, t.head, 1); mask(0xc0); find(&t.r[i]);
            /* formatting after record i: the head has to pass its data first */
            if (i) must(0x06, t.r[i].dl, 0, 1, 0x0c, "read:d");
            rec *r = &t.r[i + 1]; mkrec(r, &t, i + 1, d & 1 ? 0 : 3, 5 + d, 0x17 * (d + 1)); l = ckd(r, b); t.n = i + 2;
            must(0x1d, l, b, 0, 0x0c, "write:ckd"); }
        else if (k == 10) { away(t.cyl); }
        else if (k == 11) { mount(); }
        else if (k == 12) { i = t.n - 2; seek(t.cyl, t.head, 1); find(&t.r[i]); must(0x12, 8, 0, 0, 0x0c, "read:count"); ckd(&t.r[i + 1], b); same("read count", b, 8); }
        else { i = 1; seek(t.cyl, t.head, 1); mask(0); find(&t.r[i]); ckd(&t.r[i], b); must(0x0e, t.r[i].kl + t.r[i].dl, 0, 0, 0x0c, "read:kd"); same("read key and data", b + 8, g.n); }
        render(&t);
    }
    if (mc_choose(2, "read back")) verify(&t);
    compare();
}
/* searches: each record the head passes is judged by the comparison the command names */
static void search(void) {
    begin();
    track t = base(); t.n = 5;
    static const uint8_t K[5][2] = { {0,0}, {0x20,0x10}, {0x10,0xf0}, {0x20,0x20}, {0x80,0x00} };
    for (int i = 1; i < 5; i++) { mkrec(&t.r[i], &t, i, 2, 4 + i, 0); memcpy(t.r[i].b, K[i], 2); }
    neighbours(); render(&t); load();
    int m = mc_choose(6, "search"), key = m >= 3, rel = m % 3, v = mc_choose(6, "argument");
    static const uint8_t CMD[] = { 0x31, 0x51, 0x71, 0x29, 0x49, 0x69 };
    static const uint8_t KA[6][2] = { {0x20,0x10}, {0x20,0x11}, {0x7f,0xff}, {0,0}, {0x80,0}, {0xff,0xff} };
    uint8_t arg[5] = { 0, 16, 0, 5, v }; if (key) memcpy(arg, KA[v], 2);
    int al = key ? 2 : 5;
    mc_chosen();
    uint8_t ha[4] = { 0, 16, 0, 5 };
    seek(16, 5, 1); must(0x39, 4, ha, 1, 0x4c, "search:ha");
    for (int i = key ? 1 : 0; i < 5; i++) {
        uint8_t idb[5] = { 0, 16, 0, 5, t.r[i].r }; int c = memcmp(key ? t.r[i].b : idb, arg, al);
        int w = rel == 0 ? c == 0 : rel == 1 ? c > 0 : c >= 0;
        if (key && i == 0) continue;
        must(CMD[m], al, arg, 1, w ? 0x4c : 0x0c, "search:result");
        if (w) { must(0x06, t.r[i].dl, 0, 0, 0x0c, "read:d"); same("read data after search", t.r[i].b + t.r[i].kl, t.r[i].dl); compare(); return; }
    }
    must(0x1a, 5, 0, 0, 0x0c, "read:status");
    compare();
}
static void seeks(void) {
    begin(); load();
    static const int C[] = { 0, 1, 17, 200, 201, 202, 203, 256, 0x7fff }, H[] = { 0, 1, 19, 20, 255 };
    int n = mc_thorough ? 3 : 2, cc = 0, ch = 0;
    for (int i = 0; i < n; i++) {
        static const int LC[] = { 0, 17, 201, 202 }, LH[] = { 0, 19 };
        int few = mc_thorough && i < n - 1;                /* on the way only cylinders and heads that exist */
        int k = mc_choose(4, "command"), c = few ? LC[mc_choose(4, "cylinder")] : C[mc_choose(9, "cylinder")], h = few ? LH[mc_choose(2, "head")] : H[mc_choose(5, "head")], bad;
        uint8_t b[6] = { 0, 0, c >> 8, c, 0, h };
        static const uint8_t CM[] = { 0x07, 0x0b, 0x1b, 0x13 };
        if (k == 3 && (c || h)) mc_prune();
        bad = k != 3 && (c > 202 || h > 19);
        int a = op(CM[k], 6, k == 3 ? 0 : b, !bad);
        mc_note("seek %02x to %d,%d status %02x", CM[k], c, h, a);
        if (bad != !!(a & SNS_UNITCHK)) mc_fail("seek:status", "command %02x to cylinder %d head %d: status %02x", CM[k], c, h, a);
        if (bad) { must(4, 6, 0, 0, 0x0c, "sense:status"); mc_note("sense %02x %02x %02x %02x", g.data[0], g.data[1], g.data[2], g.data[3]); compare(); return; }
        if (k == 0 || k == 1) cc = c;
        if (k == 0 || k == 2 || k == 1) ch = h;
        if (k == 3) cc = ch = 0;
    }
    uint8_t w[5] = { 0, cc >> 8, cc, 0, ch };
    must(0x1a, 5, 0, 0, 0x0c, "read:status"); same("read home address", w, 5);
    compare();
}
static void masks(void) {
    begin();
    track t = base(); neighbours(); render(&t); load();
    int m = mc_choose(256, "mask"), c = mc_choose(9, "command"); uint8_t b[700], mb = m;
    static const uint8_t CM[] = { 0x19, 0x15, 0x1d, 0x05, 0x0d, 0x07, 0x0b, 0x1b, 0x06 };
    uint8_t ha[5] = { 0, 0, 16, 0, 5 }, sk[6] = { 0, 0, 0, 16, 0, 6 };
    int legal = !(m & 0x27), wr = m >> 6, sm = m >> 3 & 3;
    seek(16, 5, 1);
    int a = op(0x1f, 1, &mb, 1);
    if (!legal) { if (!(a & 2)) mc_fail("mask:invalid", "file mask %02x is accepted", m); must(4, 6, 0, 0, 0x0c, "sense:status"); if (!(g.data[0] & 0x80)) mc_fail("mask:sense", "invalid mask %02x: sense %02x %02x", m, g.data[0], g.data[1]); compare(); return; }
    if (a != 0x0c) mc_fail("mask:status", "file mask %02x: status %02x", m, a);
    int ok = 1, l = 0;
    switch (c) {
    case 0: ok = wr == 3; l = 5; memcpy(b, ha, 5); break;
    case 1: ok = wr == 3; must(0x39, 4, ha + 1, 1, 0x4c, "search:ha"); mkrec(&t.r[0], &t, 0, 0, 8, 0x22); l = ckd(&t.r[0], b); break;
    case 2: ok = wr == 0 || wr == 3; find(&t.r[0]); mkrec(&t.r[1], &t, 1, 3, 5, 0x22); l = ckd(&t.r[1], b); break;
    case 3: case 4: ok = wr != 1; find(&t.r[1]); { uint8_t k[4]; memcpy(k, t.r[1].b, 4); mkrec(&t.r[1], &t, 1, 4, 6, 0x22); if (c == 3) memcpy(t.r[1].b, k, 4); } l = c == 3 ? 6 : 10; memcpy(b, t.r[1].b + (c == 3 ? 4 : 0), l); break;
    case 5: ok = sm == 0; l = 6; memcpy(b, sk, 6); break;
    case 6: ok = sm <= 1; l = 6; memcpy(b, sk, 6); break;
    case 7: ok = sm <= 2; l = 6; memcpy(b, sk, 6); break;
    case 8: find(&t.r[1]); l = 6; break;
    }
    a = op(CM[c], l, c == 8 ? 0 : b, 0);
    if (ok != !(a & 2)) mc_fail("mask:effect", "mask %02x: command %02x ends with status %02x", m, CM[c], a);
    if (!ok) { must(4, 6, 0, 0, 0x0c, "sense:status"); mc_note("mask %02x cmd %02x sense %02x %02x", m, CM[c], g.data[0], g.data[1]); }
    if (ok && c == 0) t.n = 0;
    if (ok && c == 1) t.n = 1;
    if (ok && c == 2) t.n = 2;
    if (ok && c < 5) render(&t);
    compare();
}
/* fields of two bytes, one record formatted after R0 */
static void lengths(void) {
    begin();
    track t = base(); neighbours(); render(&t); load(); uint8_t b[700];
    int kl = mc_choose(mc_thorough ? 9 : 5, "key length"), dl = mc_choose(mc_thorough ? 9 : 5, "data length");
    mc_chosen();
    seek(t.cyl, t.head, 1); mask(0xc0); find(&t.r[0]);
    rec *r = &t.r[1]; mkrec(r, &t, 1, kl, dl, 3); int l = ckd(r, b); t.n = 2;
    special = kl == 2 ? "key2:overrun" : dl == 2 ? "data2:overrun" : 0;
    must(0x1d, l, b, 0, 0x0c, "write:ckd");
    render(&t); verify(&t); compare();
}
/* a count shorter than the record: the rest of the field is written as zeros */
static void shortc(void) {
    begin();
    static const int K[] = { 0, 1, 3, 4 };
    int fm = mc_choose(2, "format"), kl = K[mc_choose(4, "key length")], n = mc_choose(kl + 6, "count") + 1;
    track t = base(); neighbours(); mkrec(&t.r[1], &t, 1, kl, 6, 3); if (fm) t.n = 2;
    render(&t); load(); uint8_t b[700];
    seek(t.cyl, t.head, 1); mask(0xc0);
    rec *r = &t.r[1]; mkrec(r, &t, 1, kl, 6, 0x30); memset(r->b + n, 0, kl + 6 - n); ckd(r, b);
    find(&t.r[!fm]);
    if (n < kl + 6) { special = "short:overrun"; dc_hang = "short:hang"; }
    if (fm) must(0x1d, 8 + n, b, 0, 0x0c, "write:ckd"); else must(0x0d, n, b + 8, 0, 0x0c, "write:kd");
    dc_hang = "hang:service"; special = 0;
    render(&t); verify(&t); compare();
}
/* from every cylinder to every cylinder, and back */
static void pairs(void) {
    begin(); load();
    static const int E[] = { 0, 63, 128, 202 };
    int a = mc_thorough ? mc_choose(CYLS, "from") : E[mc_choose(4, "from")], b = mc_choose(CYLS, "to");
    mc_chosen();
    for (int i = 0; i < 3; i++) {
        int c = i & 1 ? b : a, h = i & 1 ? 7 : 5; uint8_t w[5] = { 0, 0, c, 0, h };
        seek(c, h, 1); must(0x1a, 5, 0, 0, 0x0c, "read:status"); same("read home address", w, 5);
    }
    compare();
}
mc_part mc_parts[] = { {"format", fmt}, {"length", lengths}, {"short", shortc}, {"update", update}, {"search", search}, {"seek", seeks}, {"pairs", pairs}, {"mask", masks}, {0} };
