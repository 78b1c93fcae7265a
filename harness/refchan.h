/* Reference channel: what the Principles of Operation say about one START I/O and what follows, for a device of iodev.h. */
#ifndef REFCHAN_H
#define REFCHAN_H
#include <string.h>
#include "iodev.h"
#define RC_MAX 8
typedef struct {
    int cc;                             /* of START I/O */
    int nint;                           /* interruptions, first may be the CSW stored by START I/O (cc 1) */
    struct { uint32_t addr; uint8_t unit, chn; int count, key; int addr_ok, count_ok, unit_ok; } in[RC_MAX];
    int ncmd; uint8_t cmds[IO_OPS * 2];
    int nop; int n[IO_OPS]; uint8_t out[IO_OPS][IO_MAX];
    int pci;                            /* number of CCWs with PCI that became active */
    int undef;
    int nccw; struct { int cmd, flags, op; } ccws[16];  /* CCWs used, op: operation number */
    int left;                           /* operations that end before the count does: 1 input, 2 output */
} refchan;
typedef struct { int cmd, flags, count; uint32_t addr; int bad; } rccw;
static int is_in(int c) { return (c & 1) == 0; }
static int rc_early;                    /* invalid data addresses are found with the CCW, not with the data */
static rccw rc_fetch(const uint8_t *m, uint32_t a, int datachain)
{
    rccw c; const uint8_t *p = m + (a & (s360_size - 1));
    c.cmd = p[0]; c.addr = p[1] << 16 | p[2] << 8 | p[3]; c.flags = p[4]; c.count = p[6] << 8 | p[7]; c.bad = 0;
    if ((a & 7) || a >= s360_size) { c.bad = 1; return c; }
    if ((c.cmd & 0xf) == 8) return c;
    if (!datachain && (c.cmd & 0xf) == 0) c.bad = 1;
    if (c.flags & 7) c.bad = 1;
    if (c.count == 0) c.bad = 1;
    if (rc_early && c.addr >= s360_size) c.bad = 1;
    return c;
}
static void rc_int(refchan *r, uint32_t addr, int unit, int chn, int count, int key, int aok, int cok)
{
    if (r->nint >= RC_MAX) { r->undef = 1; return; }
    r->in[r->nint].addr = addr; r->in[r->nint].unit = unit; r->in[r->nint].chn = chn; r->in[r->nint].count = count; r->in[r->nint].key = key;
    r->in[r->nint].addr_ok = aok; r->in[r->nint].count_ok = cok; r->in[r->nint].unit_ok = 1; r->nint++;
}
static void rc_ccw(refchan *r, const rccw *c)
{
    if (r->nccw == 16) { r->undef = 1; return; }
    r->ccws[r->nccw].cmd = c->cmd; r->ccws[r->nccw].flags = c->flags; r->ccws[r->nccw++].op = r->nop - 1;
}
/* m: storage (changed by reads), keys: storage keys, caw at 0x48 */
static void rc_run(refchan *r, uint8_t *m, const uint8_t *keys, const iod *x)
{
    uint32_t a = m[0x49] << 16 | m[0x4a] << 8 | m[0x4b], next; int key = m[0x48] >> 4, tic, first = 1, chk, n, dev, excess, unit; rccw c; const io_op *o;
    memset(r, 0, sizeof *r);
    if (m[0x48] & 0xf) { r->cc = 1; rc_int(r, 0, 0, 0x20, 0, 0, 0, 0); return; }
    for (;;) {                                            /* commands */
        tic = 0;
        for (;;) {
            c = rc_fetch(m, a, 0); next = a + 8;
            if (c.bad) break;
            if ((c.cmd & 0xf) != 8) break;
            if (tic || first || (c.addr & 7)) { c.bad = 1; if (!first && !tic) { } break; }
            tic = 1; a = c.addr;
        }
        if (c.bad) {
            if (first) { r->cc = 1; rc_int(r, next, 0, 0x20, c.count, key, 0, 0); return; }
            rc_int(r, next, 0, 0x20, c.count, key, 1, 0); r->in[r->nint - 1].unit_ok = 0; return;   /* models differ in the unit status */
        }
        if (r->nop >= IO_OPS || r->ncmd >= IO_OPS) { r->undef = 1; return; }
        r->cmds[r->ncmd++] = c.cmd;
        o = &x->op[r->nop]; r->nop++;
        if (c.flags & CHAN_PCI_FLAG) r->pci++;
        rc_ccw(r, &c);
        if (o->init) {                                    /* not executed */
            if (first) { r->cc = 1; rc_int(r, next, o->init, 0, c.count, key, 0, 0); } else rc_int(r, next, o->init, 0, c.count, key, 1, 1);
            return;
        }
        chk = 0; excess = 0; n = c.count; dev = 0;
        if ((c.cmd & 0xf) == 3 && o->len == 0) {          /* immediate */
            unit = SNS_CHNEND | o->bad | (o->split ? 0 : SNS_DEVEND | (o->sms ? SNS_SMS : 0));
            if ((c.flags & (CHAN_CC_FLAG | CHAN_CD_FLAG)) == CHAN_CC_FLAG && !o->bad) goto chain;
            if (first) { r->cc = 1; rc_int(r, next, unit, 0, n, key, 0, 0); }
            else rc_int(r, next, unit, 0, n, key, 1, 1);
            goto devend;
        }
        while (dev < o->len) {                            /* data */
            if (n == 0) {
                if (!(c.flags & CHAN_CD_FLAG)) { excess = 1; break; }
                rccw d; int t = 0; uint32_t b = next;
                for (;;) {
                    d = rc_fetch(m, b, 1); next = b + 8;
                    if (d.bad || (d.cmd & 0xf) != 8) break;
                    if (t || (d.addr & 7)) { d.bad = 1; break; }
                    t = 1; b = d.addr;
                }
                if (d.bad) { chk |= 0x20; break; }
                d.cmd = c.cmd; c = d; n = c.count;
                if (c.flags & CHAN_PCI_FLAG) r->pci++;
                rc_ccw(r, &c);
            }
            if (c.addr >= s360_size) { chk |= 0x20; break; }
            if (is_in(c.cmd)) {
                if (!(c.flags & CHAN_SKIP_FLAG)) {
                    if (key && (keys[c.addr >> 11] >> 4) != key) { chk |= 0x10; break; }
                    m[c.addr & (s360_size - 1)] = x->data[dev % IO_MAX];
                }
            } else r->out[r->nop - 1][dev] = m[c.addr & (s360_size - 1)];
            c.addr += (c.cmd & 0xf) == 0xc ? -1 : 1; c.addr &= 0xffffff;
            dev++; n--;
        }
        r->n[r->nop - 1] = dev;
        if (n && !chk) r->left |= is_in(c.cmd) ? 1 : 2;
        if (n == 0 && (c.flags & CHAN_CD_FLAG) && dev == o->len) { r->undef = 1; }  /* ends exactly where data chaining is due */
        if (!chk && (excess || n)) if (!(c.flags & CHAN_SLI_FLAG) || (c.flags & CHAN_CD_FLAG)) chk |= 0x40;
        unit = SNS_CHNEND | o->bad | (o->split ? 0 : SNS_DEVEND | (o->sms ? SNS_SMS : 0));
        if (chk || o->bad || !(c.flags & CHAN_CC_FLAG) || (c.flags & CHAN_CD_FLAG)) {
            rc_int(r, next, unit, chk, n, key, 1, !(chk & 0x30));
devend:     if (o->split) rc_int(r, 0, SNS_DEVEND | (o->sms ? SNS_SMS : 0), 0, 0, 0, 0, 0);
            return;
        }
chain:  a = next + (o->sms ? 8 : 0); first = 0;
    }
}
#endif
