/*
 * C04 - tape images behave as a tape: records and marks, forward and backward.
 * MC-GROUPS: top device
 * MC-OPT: -O2
 */
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "mc.h"
#include "tape.h"

uint64_t step_count;
int SYS_RST;
const char *mc_property = "C04";
const char *mc_bounds =
  "small: every sequence of 5 (thorough 6) operations from {write a record of 1, 2 or 3 bytes, write mark, read forward all/one byte/none, "
  "read backward all/one byte/none, rewind, detach and attach again} on every format (TAP, E11, P7B), both densities (quick: 1600), from a new tape and from a tape "
  "with records (with and without end of medium marker); ring: the same on a read only tape (4, thorough 5); boundary: a first record ending within 9 bytes of the "
  "32768 byte buffer, followed by every sequence of 2 (thorough 3) operations; large: records of 32766..33000 and 65535..65537 bytes, depth 2 (thorough 3); reel: 7 (thorough 9) whole record operations; "
  "at the end the file is decoded by an independent reader";
const char *mc_assumptions[] = {
  "the caller follows start / frames / finish as the tape drive model does",
  "data after the last record written is undefined when a record is written in the middle of a tape",
  "seven track image records do not hold the one byte tape mark code as a record", NULL};

#define MAXR 64
typedef struct { int len; unsigned char *d; } rec_t;          /* len 0: tape mark */
static rec_t rec[MAXR];
static int nrec, pos, tail_undef, eot, bot, ring, fmt, den, eom;
static struct _tape_buffer *T;
static char fn[420];
static int seed, style;

static unsigned char gen(int s, int i) {
    unsigned char v = (unsigned char)(s * 37 + i * 11 + (i >> 8) * 5 + 1);
    return fmt == TYPE_P7B ? (i == 0 && (v & 0x7f) == 0xf ? 0x10 : v & 0x7f) : v;
}
static rec_t mk(int len) {
    rec_t r; int i; r.len = len; r.d = len ? malloc(len) : NULL;
    for (i = 0; i < len; i++) r.d[i] = gen(seed, i);
    seed++;
    return r;
}
static void clear_model(void) { int i; for (i = 0; i < nrec; i++) free(rec[i].d); nrec = pos = tail_undef = eot = eom = 0; seed = 1; }
static void __attribute__((noreturn)) prune(void) { tape_detach(T); free(T); T = NULL; mc_prune(); }
static void truncate_at(int p) { int i; for (i = p; i < nrec; i++) free(rec[i].d); nrec = p; }

static void put4(FILE *f, unsigned v) { int i; for (i = 0; i < 4; i++) fputc((v >> (8 * i)) & 0xff, f); }
static void write_file(int with_eom) {
    FILE *f = fopen(fn, "wb"); int i;
    for (i = 0; i < nrec; i++) {
        if (fmt == TYPE_P7B) {
            if (rec[i].len == 0) fputc(0x8f, f);
            else { fputc(rec[i].d[0] | 0x80, f); fwrite(rec[i].d + 1, 1, rec[i].len - 1, f); }
        } else {
            put4(f, rec[i].len);
            if (rec[i].len) {
                fwrite(rec[i].d, 1, rec[i].len, f);
                if (fmt == TYPE_TAP && (rec[i].len & 1)) fputc(0, f);
                put4(f, rec[i].len);
            }
        }
    }
    if (with_eom && fmt != TYPE_P7B) put4(f, 0xffffffffu);
    fclose(f);
}
static void check_file(void) {
    FILE *f = fopen(fn, "rb"); long n, o = 0; unsigned char *b; int i, j;
    if (!f) mc_fail("file-missing", "tape file does not exist");
    fseek(f, 0, SEEK_END); n = ftell(f); rewind(f); b = malloc(n + 8);
    if (fread(b, 1, n, f) != (size_t)n) n = -1;
    fclose(f);
    for (i = 0; i < nrec; i++) {
        if (fmt == TYPE_P7B) {
            int l = rec[i].len ? rec[i].len : 1;
            if (o + l > n) mc_fail("file-short", "file ends inside of record %d", i);
            for (j = 0; j < l; j++) {
                unsigned char e = rec[i].len ? rec[i].d[j] : 0xf;
                if (j == 0) e |= 0x80;
                if (b[o + j] != e) mc_fail("file-data", "record %d byte %d is %02x, expected %02x", i, j, b[o + j], e);
            }
            o += l;
        } else {
            unsigned l;
            if (o + 4 > n) mc_fail("file-short", "file ends before record %d", i);
            l = b[o] | b[o+1] << 8 | b[o+2] << 16 | (unsigned)b[o+3] << 24; o += 4;
            if (l != (unsigned)rec[i].len) mc_fail("file-length", "record %d length word %u, expected %d", i, l, rec[i].len);
            if (l) {
                if (o + l + 4 > (unsigned long)n) mc_fail("file-short", "file ends inside of record %d", i);
                for (j = 0; j < (int)l; j++) if (b[o + j] != rec[i].d[j]) mc_fail("file-data", "record %d byte %d is %02x, expected %02x", i, j, b[o + j], rec[i].d[j]);
                o += l; if (fmt == TYPE_TAP && (l & 1)) o++;
                if (o + 4 > n) mc_fail("file-short", "file ends before trailer of record %d", i);
                l = b[o] | b[o+1] << 8 | b[o+2] << 16 | (unsigned)b[o+3] << 24; o += 4;
                if (l != (unsigned)rec[i].len) mc_fail("file-trailer", "record %d trailing length %u, expected %d", i, l, rec[i].len);
            }
        }
    }
    if (!tail_undef) {
        if (fmt != TYPE_P7B && o + 4 == n && !memcmp(b + o, "\xff\xff\xff\xff", 4)) o += 4;
        if (o != n) mc_fail("file-extra", "%ld bytes after last record", n - o);
    }
    free(b);
}
static void expect(int r, int e, const char *what) {
    static const char *nm[] = {"error", "ok", "EOT", "BOT", "EOB", "IRG", "parity", "mark", "protected"};
    if (r != e) mc_fail("status", "%s returned %s, expected %s", what, r >= -1 && r <= 7 ? nm[r + 1] : "?", nm[e + 1]);
}
static int is_end(int r) { return r == TAPE_STATUS_EOB || r == TAPE_STATUS_EOT || r == TAPE_STATUS_BOT; }
static void chk_loadpt(void) {
    if (bot >= 0 && tape_at_loadpt(T) != bot) mc_fail("loadpoint", "load point is %d, expected %d", tape_at_loadpt(T), bot);
}
static void attach(void) {
    mc_step();
    if (tape_attach(T, fn, fmt, ring, den) != 1) mc_fail("attach", "could not attach tape");
    pos = 0; eot = 0; bot = 1;
    if (!tape_ready(T) || tape_ring(T) != ring) mc_fail("flags", "ready %d ring %d after attach", tape_ready(T), tape_ring(T));
    chk_loadpt();
}
static void do_write(int len) {
    int i, r; rec_t n;
    mc_step();
    if (len == 0) {
        r = tape_write_mark(T);
        if (!ring) { expect(r, TAPE_STATUS_WRP, "write mark on protected tape"); return; }
        expect(r, TAPE_STATUS_OK, "write mark");
        if (style & 1) expect(tape_finish_rec(T), TAPE_STATUS_OK, "finish mark");
    } else {
        r = tape_write_start(T);
        if (!ring) { expect(r, TAPE_STATUS_WRP, "write on protected tape"); return; }
        expect(r, TAPE_STATUS_OK, "write start");
    }
    n = mk(len);
    for (i = 0; i < len; i++) expect(tape_write_frame(T, n.d[i]), TAPE_STATUS_OK, "write frame");
    if (len) expect(tape_finish_rec(T), TAPE_STATUS_OK, "finish write");
    if (pos < nrec) tail_undef = 1;
    truncate_at(pos);
    if (nrec >= MAXR) prune();
    rec[nrec++] = n; pos = nrec; bot = 0; eom = 0; eot = -1; /* writing at the end: end mark may or may not stay on */
}
static void do_read(int back, int part) {
    int r, i, n; rec_t *c; unsigned char d;
    if (!back && pos == nrec && tail_undef) prune();
    mc_step();
    r = back ? tape_read_back(T) : tape_read_forw(T);
    if (back && pos == 0) { expect(r, TAPE_STATUS_BOT, "read back at load point"); bot = 1; eot = 0; chk_loadpt(); return; }
    if (!back && pos == nrec) { expect(r, TAPE_STATUS_EOT, "read at end of tape"); eot = 1; bot = nrec == 0 ? -1 : 0; chk_loadpt(); return; }
    c = back ? &rec[pos - 1] : &rec[pos];
    bot = 0;
    if (c->len == 0) {
        expect(r, TAPE_STATUS_MARK, back ? "read back over mark" : "read mark");
        if (style & 1) expect(tape_read_frame(T, &d), TAPE_STATUS_MARK, "frame of mark");
        expect(tape_finish_rec(T), TAPE_STATUS_OK, "finish after mark");
    } else {
        expect(r, TAPE_STATUS_OK, back ? "read back" : "read");
        n = part == 0 ? c->len : part == 1 ? 1 : 0;
        for (i = 0; i < n; i++) {
            unsigned char e = back ? c->d[c->len - 1 - i] : c->d[i];
            expect(tape_read_frame(T, &d), TAPE_STATUS_OK, "read frame");
            if (d != e) mc_fail(back ? "back-data" : "read-data", "%s record %d frame %d is %02x, expected %02x", back ? "backward" : "forward", pos - back, i, d, e);
        }
        if (part == 0) {
            r = tape_read_frame(T, &d);
            if (!is_end(r)) mc_fail("no-end", "read of record %d did not end after %d frames (%d)", pos - back, c->len, r);
        }
        expect(tape_finish_rec(T), TAPE_STATUS_OK, "finish read");
    }
    pos += back ? -1 : 1;
    if (back) eot = 0;
    chk_loadpt();
}
static void do_rewind(void) {
    int n = 0, r;
    mc_step();
    expect(tape_start_rewind(T), TAPE_STATUS_OK, "start rewind");
    while ((r = tape_rewind_frames(T, 3840)) == TAPE_STATUS_OK) if (n++ > 1000) mc_fail("rewind", "rewind does not end");
    expect(r, TAPE_STATUS_BOT, "rewind");
    pos = 0; eot = 0; bot = 1; chk_loadpt();
}
static int op(const int *lens, int nl) {
    int c = mc_choose(nl + 9, "op");
    if (c < nl) { mc_note(" W%d", lens[c]); do_write(lens[c]); return 0; }
    switch (c - nl) {
    case 0: mc_note(" F"); do_read(0, 0); break;
    case 1: mc_note(" B"); do_read(1, 0); break;
    case 2: mc_note(" M"); do_write(0); break;
    case 3: mc_note(" rew"); do_rewind(); break;
    case 4: mc_note(" F1"); do_read(0, 1); break;
    case 5: mc_note(" F0"); do_read(0, 2); break;
    case 6: mc_note(" B1"); do_read(1, 1); break;
    case 7: mc_note(" B0"); do_read(1, 2); break;
    case 8: mc_note(" det"); mc_step(); tape_detach(T); if (tape_ready(T)) mc_fail("flags", "ready after detach"); check_file(); attach(); break;
    }
    return 0;
}
static void start(void) {
    style = 0;
    clear_model();
    T = calloc(1, sizeof *T); T->format = TRACK9;
    snprintf(fn, sizeof fn, "%s/tape", mc_scratch);
    remove(fn);
}
static void finish(int reread) {
    uint64_t h;
    /* read everything back through the drive */
    if (reread) {
        do_rewind();
        while (pos < nrec) do_read(0, 0);
        if (!tail_undef) do_read(0, 0);
        while (pos > 0) do_read(1, 0);
        do_read(1, 0);
    }
    tape_detach(T);
    check_file();
    h = mc_hash_u(MC_HASH0, nrec * 64 + pos);
    for (int i = 0; i < nrec; i++) h = mc_hash_u(h, rec[i].len);
    mc_state(h);
    mc_outcome("fmt=%d records=%d", fmt, nrec);
    free(T); T = NULL;
}
static void run(int n, const int *lens, int nl) {
    style = mc_choose(2, "style");
    int i;
    attach();
    for (i = 0; i < n; i++) op(lens, nl);
    finish(1);
}
static void body_small(void) {
    static const int lens[] = {1, 2, 3};
    int k;
    start();
    ring = 1;
    fmt = mc_choose(3, "fmt");
    den = mc_thorough ? mc_choose(2, "density") : 1;
    k = mc_choose(fmt == TYPE_P7B ? 2 : 3, "initial");
    mc_note("fmt %d init %d:", fmt, k);
    if (k) { rec[nrec++] = mk(3); rec[nrec++] = mk(0); rec[nrec++] = mk(2); write_file(k == 2); eom = k == 2; }
    run(mc_thorough ? 6 : 5, lens, 3);
}
static void body_ring(void) {
    static const int lens[] = {2};
    start();
    ring = 0;
    fmt = mc_choose(3, "fmt"); den = mc_choose(2, "density");
    mc_note("fmt %d readonly:", fmt);
    rec[nrec++] = mk(2); rec[nrec++] = mk(0); rec[nrec++] = mk(3); write_file(0);
    run(mc_thorough ? 5 : 4, lens, 1);
}
static void body_boundary(void) {
    static const int lens[] = {1, 4};
    int d, over, from;
    start();
    ring = 1; den = 1;
    fmt = mc_choose(3, "fmt");
    d = mc_choose(19, "offset") - 9;
    from = mc_choose(2, "origin");
    over = fmt == TYPE_P7B ? 0 : 8;
    mc_note("fmt %d first record %d%s:", fmt, 32768 - over + d, from ? " written" : "");
    if (from == 0) {
        rec[nrec++] = mk(32768 - over + d); rec[nrec++] = mk(3); write_file(0);
        attach();
        if (mc_choose(2, "at")) { do_read(0, 0); }
    } else {
        attach();
        do_write(32768 - over + d);
    }
    for (d = 0; d < (mc_thorough ? 3 : 2); d++) op(lens, 2);
    finish(1);
}
static void body_large(void) {
    static const int lens[] = {32766, 32767, 32768, 33000, 65535, 65536, 65537};
    int d;
    start();
    ring = 1; den = 1;
    fmt = mc_choose(3, "fmt");
    mc_note("fmt %d:", fmt);
    attach();
    do_write(1 + mc_choose(3, "first"));
    for (d = 0; d < (mc_thorough ? 3 : 2); d++) op(lens, 7);
    finish(1);
}
static void body_reel(void) {
    /* an odd mixture around load point and end of tape, no data */
    static const int lens[] = {1};
    int i;
    start();
    ring = 1; den = 1;
    fmt = mc_choose(3, "fmt");
    mc_note("fmt %d:", fmt);
    attach();
    for (i = 0; i < (mc_thorough ? 9 : 7); i++) {
        switch (mc_choose(5, "op")) {
        case 0: mc_note(" F"); do_read(0, 0); break;
        case 1: mc_note(" B"); do_read(1, 0); break;
        case 2: mc_note(" W"); do_write(lens[0]); break;
        case 3: mc_note(" rew"); do_rewind(); break;
        case 4: mc_note(" det"); tape_detach(T); check_file(); attach(); break;
        }
    }
    finish(0);
}
mc_part mc_parts[] = { {"small", body_small, 0, 4000}, {"ring", body_ring, 0, 4000}, {"boundary", body_boundary, 0, 4000}, {"large", body_large, 0, 4000}, {"reel", body_reel, 0, 4000}, {NULL} };
