/* A reference channel for the device models: drives bus_func of every device on the string with the tag
   lines of device.h, lets the explorer choose how long the channel takes to answer, and watches the lines. */
#ifndef DCHAN_H
#define DCHAN_H
#include <string.h>
#include "mc.h"
#include "device.h"
#include "event.h"
#include "xlat.h"
#ifndef DC_TICK
#define DC_TICK() advance()
#endif
#define INS (CHAN_OPR_IN|CHAN_ADR_IN|CHAN_STA_IN|CHAN_SRV_IN)
enum { DC_NODEV, DC_BUSY, DC_STAT, DC_DATA, DC_DISC, DC_TIME };
typedef struct {
    device_t *dev[4]; int ndev;
    uint16_t out, tags, bus_out, bus_in, prev;   /* lines */
    int shortbusy;                               /* between address out and the end of selection */
    int sel;                                     /* burst (selector) operation */
    int delays;                                  /* channel answers may be late */
    uint8_t addr, status;
    uint64_t t;
    int trace;
    int multi;                                   /* several operations: a poll may find any device */
    uint16_t pbus;
    uint8_t last;                                /* last byte sent: a selector channel leaves it on the bus */
    int sup;                                     /* the channel holds status of its own: suppress out is up while no unit is connected */
} dchan;
static dchan dc;
static int dc_early;             /* the unit may show short busy before select out */
static int dc_resp = 20;          /* steps a unit may take to answer */
extern uint64_t step_count;
static void dc_viol(const char *sig, const char *txt) {
    mc_fail(sig, "%s (tags %04x before %04x bus in %03x)", txt, dc.tags, dc.prev, dc.bus_in);
}
/* one step of the machine: every device sees the lines once, then time advances */
static void dc_step(void) {
    dc.prev = dc.tags;
    dc.tags = (dc.tags & IN_TAGS) | dc.out;
    uint16_t before = dc.tags;
    for (int i = 0; i < dc.ndev; i++) dc.dev[i]->bus_func(dc.dev[i], &dc.tags, dc.bus_out, &dc.bus_in);
    int changed = dc.bus_in != dc.pbus; dc.pbus = dc.bus_in;
    dc.t++; step_count++;
    DC_TICK();
    mc_step();
    if (dc.trace && (dc.tags != dc.prev)) mc_note("%llu %04x->%04x in=%03x out=%03x", (unsigned long long)dc.t, dc.prev, dc.tags, dc.bus_in, dc.bus_out);
    uint16_t in = dc.tags & INS, was = dc.prev & INS;
    if ((dc.tags & OUT_TAGS & ~CHAN_SEL_OUT) != (before & OUT_TAGS & ~CHAN_SEL_OUT)) dc_viol("tags:out", "a device changed a line that belongs to the channel");
    if (dc.tags & ~before & CHAN_SEL_OUT) dc_viol("tags:select", "a device raised select out");
    int n = !!(in & CHAN_ADR_IN) + !!(in & CHAN_STA_IN) + !!(in & CHAN_SRV_IN);
    if (n > 1) dc_viol("tags:two", "more than one of address in, status in and service in");
    if (n && !(in & CHAN_OPR_IN) && !(dc.shortbusy && in == CHAN_STA_IN)) dc_viol("tags:oper", "an in line without operational in");
    if (n && in == was && (odd_parity[dc.bus_in & 0xff] ^ dc.bus_in) & 0x100) dc_viol("bus:parity", "bus in has even parity");
    if (changed && (in & was & (CHAN_ADR_IN|CHAN_STA_IN|CHAN_SRV_IN)) && !(dc.out & (CHAN_SRV_OUT|CHAN_CMD_OUT|CHAN_ADR_OUT))) dc_viol("bus:changed", "bus in changes while it is offered");
    /* an in line falls only after the channel answered, and rises only after it released the answer before */
    uint16_t fell = was & ~in;
    if (fell & CHAN_SRV_IN && !(dc.out & (CHAN_SRV_OUT|CHAN_CMD_OUT|CHAN_ADR_OUT))) dc_viol("tags:service-fell", "service in fell before it was answered");
    if (fell & CHAN_STA_IN && !(dc.out & (CHAN_SRV_OUT|CHAN_CMD_OUT|CHAN_ADR_OUT)) && !dc.shortbusy) dc_viol("tags:status-fell", "status in fell before it was answered");
    if (fell & CHAN_ADR_IN && !(dc.out & (CHAN_CMD_OUT|CHAN_ADR_OUT))) dc_viol("tags:address-fell", "address in fell before it was answered");
    if (in & ~was & (CHAN_SRV_IN|CHAN_STA_IN) && dc.out & (CHAN_SRV_OUT|CHAN_CMD_OUT)) dc_viol("tags:interlock", "an in line rose while the answer to the one before was still up");
}
static void dc_late(void) {
    static const int d[4] = { 0, 1, 2, 5 };
    if (dc.delays) for (int n = d[mc_deviate(4, "late")]; n; n--) dc_step();
}
static void dc_init(int sel, int delays) {
    memset(&dc, 0, sizeof dc); dc.sel = sel; dc.delays = delays; dc.bus_out = 0x100;
    for (device_t *d = chan[0]; d; d = d->next) dc.dev[dc.ndev++] = d;
    dc.out = CHAN_OPR_OUT;
}
static void dc_idle(int n) { while (n--) dc_step(); }
static uint16_t par(int b) { return (b & 0xff) | odd_parity[b & 0xff]; }
/* wait for a line; returns 0 when it does not come */
static int dc_until(uint16_t mask, uint16_t val, int max) {
    while ((dc.tags & mask) != val) { if (max-- <= 0) return 0; dc_step(); }
    return 1;
}
/* release everything after the last status of a connection */
static void dc_release(const char *what) {
    dc.out &= ~(CHAN_SRV_OUT|CHAN_CMD_OUT);
    dc.out &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT);
    dc_step();
    if (!dc_until(INS, 0, dc_resp)) mc_fail("hang:disconnect", "%s: the device does not disconnect (tags %04x)", what, dc.tags);
}
/* initial selection: DC_NODEV, DC_BUSY (short busy, dc.status) or DC_STAT (initial status is on the bus) */
static int dc_start(uint8_t addr, uint8_t cmd) {
    dc.addr = addr;
    dc.out |= CHAN_ADR_OUT; dc.bus_out = par(addr);
    if (dc_early) dc.shortbusy = 1;
    dc_step();
    if (dc.tags & INS && !(dc_early && (dc.tags & INS) == CHAN_STA_IN)) mc_fail("select:early", "a device answers before select out (tags %04x)", dc.tags);
    dc.out |= CHAN_SEL_OUT|CHAN_HLD_OUT; dc.shortbusy = 1;
    for (int i = 0; ; i++) {
        dc_step();
        if (dc.tags & CHAN_SEL_OUT) {
            dc.out &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT); dc_step(); dc.shortbusy = 0;
            if (dc.tags & INS) mc_fail("select:late", "select out passed by, then a device answers (tags %04x)", dc.tags);
            return DC_NODEV;
        }
        if (dc.tags & (CHAN_OPR_IN|CHAN_STA_IN)) break;
        if (i > dc_resp) mc_fail("hang:select", "selection is never answered");
    }
    if (!(dc.tags & CHAN_OPR_IN)) {
        dc_late();
        dc.status = dc.bus_in;
        if ((odd_parity[dc.bus_in & 0xff] ^ dc.bus_in) & 0x100) mc_fail("bus:parity", "busy status has even parity (%03x)", dc.bus_in);
        /* address out falls with select out: without select out it would mean interface disconnect */
        dc.out &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT);
        for (int i = 0; dc.tags & CHAN_STA_IN; i++) { dc_step(); if (i > dc_resp) mc_fail("hang:busy", "the busy status does not drop"); }
        dc_step(); dc.shortbusy = 0;
        return DC_BUSY;
    }
    dc.shortbusy = 0;
    dc_late();
    dc.out &= ~CHAN_ADR_OUT; dc.bus_out = 0x100;
    if (!dc_until(CHAN_ADR_IN, CHAN_ADR_IN, dc_resp)) mc_fail("hang:address", "address in does not rise (tags %04x)", dc.tags);
    if (dc.bus_in != par(addr)) mc_fail("bus:address", "selected %02x, address in shows %03x", addr, dc.bus_in);
    dc_late();
    if (!dc.sel) dc.out &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
    dc.last = cmd;
    dc.bus_out = par(cmd); dc.out |= CHAN_CMD_OUT;
    if (!dc_until(CHAN_ADR_IN, 0, dc_resp)) mc_fail("hang:command", "command out is not answered");
    dc_late();
    dc.out &= ~CHAN_CMD_OUT; dc_step(); dc.bus_out = 0x100;
    if (!dc_until(CHAN_STA_IN, CHAN_STA_IN, dc_resp)) mc_fail("hang:initial", "no initial status (tags %04x)", dc.tags);
    dc.status = dc.bus_in; return DC_STAT;
}
/* answer a status: take it (chain: suppress out) or stack it */
static void dc_take(int chain) {
    dc_late();
    dc.status = dc.bus_in;
    if (chain) dc.out |= CHAN_SUP_OUT;
    dc.out |= CHAN_SRV_OUT;
    if (!dc_until(CHAN_STA_IN, 0, dc_resp)) mc_fail("hang:status", "status in does not fall");
    dc_late();
    dc.out &= ~CHAN_SRV_OUT; dc_step();
}
static void dc_stack(void) {
    dc_late();
    dc.status = dc.bus_in;
    dc.out |= CHAN_CMD_OUT; dc.bus_out = 0x100;
    dc.out &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
    if (!dc_until(CHAN_STA_IN, 0, dc_resp)) mc_fail("hang:status", "status in does not fall");
    dc_late();
    dc_release("stacked status");
}
/* wait for the next event of the running operation; polls when the device has disconnected */
static int dc_next(int max) {
    for (;;) {
        if (dc.tags & CHAN_STA_IN) { dc.status = dc.bus_in; return DC_STAT; }
        if (dc.tags & CHAN_SRV_IN) return DC_DATA;
        if (!(dc.tags & CHAN_OPR_IN)) {
            /* disconnected */
            if (dc.sup && !(dc.out & CHAN_SUP_OUT)) { dc.out |= CHAN_SUP_OUT; dc_step(); dc_step(); continue; }
            if (dc.out & (CHAN_SEL_OUT|CHAN_HLD_OUT)) { dc.out &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT); dc_step(); continue; }
            if (dc.tags & CHAN_REQ_IN) {
                dc_late();
                if (!(dc.tags & CHAN_REQ_IN)) continue;
                dc.out |= CHAN_SEL_OUT|CHAN_HLD_OUT; dc.bus_out = 0x100;
                int k = 0;
                do { dc_step(); if (dc.tags & CHAN_SEL_OUT) mc_fail("poll:none", "request in, but no device takes the select"); if (k++ > dc_resp) mc_fail("hang:poll", "request in, but polling is not answered (tags %04x)", dc.tags); } while ((dc.tags & (CHAN_OPR_IN|CHAN_ADR_IN)) != (CHAN_OPR_IN|CHAN_ADR_IN));
                dc.out &= ~CHAN_SUP_OUT;
                if (dc.multi) { dc.addr = dc.bus_in; if (dc.bus_in != par(dc.bus_in)) mc_fail("bus:parity", "polled address has even parity (%03x)", dc.bus_in); }
                if (dc.bus_in != par(dc.addr)) mc_fail("bus:address", "polled device %02x shows %03x", dc.addr, dc.bus_in);
                dc_late();
                if (!dc.sel) dc.out &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
                dc.out |= CHAN_CMD_OUT; if (dc.sel) dc.bus_out = par(dc.last);
                if (!dc_until(CHAN_ADR_IN, 0, dc_resp)) mc_fail("hang:command", "proceed is not answered");
                dc_late();
                dc.out &= ~CHAN_CMD_OUT;
                dc_step(); dc.bus_out = 0x100;
                if (dc.tags & CHAN_REQ_IN && dc.ndev == 1 && dc.tags & CHAN_OPR_IN) { /* may stay up until served */ }
                continue;
            }
        }
        if (max-- <= 0) return DC_TIME;
        dc_step();
    }
}
static const char *dc_hang = "hang:service";
static uint8_t dc_read(void) {           /* accept a byte of a read */
    dc_late();
    uint8_t b = dc.bus_in;
    if ((odd_parity[b] ^ dc.bus_in) & 0x100) mc_fail("bus:parity", "data byte with even parity (%03x)", dc.bus_in);
    dc.out |= CHAN_SRV_OUT;
    if (!dc_until(CHAN_SRV_IN, 0, dc_resp)) mc_fail(dc_hang, "service in does not fall");
    dc_late();
    dc.out &= ~CHAN_SRV_OUT; dc_step();
    return b;
}
static void dc_write(uint8_t b) {
    dc_late();
    dc.last = b; dc.bus_out = par(b); dc.out |= CHAN_SRV_OUT;
    if (!dc_until(CHAN_SRV_IN, 0, dc_resp)) mc_fail(dc_hang, "service in does not fall");
    dc_late();
    dc.out &= ~CHAN_SRV_OUT; dc_step(); dc.bus_out = 0x100;
}
static void dc_stop(void) {
    dc_late();
    dc.bus_out = 0x100; dc.out |= CHAN_CMD_OUT;
    if (!dc_until(CHAN_SRV_IN, 0, dc_resp)) mc_fail(dc_hang, "service in does not fall");
    dc_late();
    dc.out &= ~CHAN_CMD_OUT; dc_step();
}
/* interface disconnect (halt I/O): address out without select out */
static void dc_halt(void) {
    if (dc.tags & CHAN_OPR_IN) {
        dc.out &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT); dc.bus_out = par(dc.addr);
        dc.out |= CHAN_ADR_OUT; dc_step();
        dc.out &= ~(CHAN_SRV_OUT|CHAN_CMD_OUT);
        for (int i = 0; dc.tags & INS; i++) { dc_step(); if (i > 2 * dc_resp) mc_fail("hang:halt", "halt: operational in does not fall (tags %04x)", dc.tags); }
        dc_late();
        dc.out &= ~CHAN_ADR_OUT; dc_step(); dc.bus_out = 0x100;
    }
}
/* several operations at once on a multiplexor channel */
typedef struct {
    uint8_t addr, cmd; int count; const uint8_t *out;
    int started, done, busy, init, nst, n; uint8_t st[12], data[300];
} djob;
static void dj_start(djob *j) {
    int r = dc_start(j->addr, j->cmd);
    j->started = 1;
    if (r == DC_NODEV) mc_fail("select:refused", "unit %02x does not answer", j->addr);
    if (r == DC_BUSY) { j->busy = 1; j->done = 1; j->init = dc.status & 0xff; return; }
    j->init = dc.status & 0xff; j->st[j->nst++] = j->init;
    if (j->init & SNS_BSY) j->busy = j->done = 1;
    dc_take(0);
    if (j->init & (SNS_DEVEND|SNS_UNITCHK|SNS_BSY) || (j->cmd & 0x0f) == 0) { j->done = 1; dc_release("initial status"); }
}
/* job b was started on the unit where a still runs: busy, or the status that was pending for a */
static void dj_pending(djob *a, djob *b) {
    if (b->init & (SNS_CHNEND|SNS_DEVEND)) {
        if (b->cmd && !(b->init & SNS_BSY)) mc_fail("busy:missing", "unit %02x gives its pending status %02x to command %02x without busy: the command seems accepted", b->addr, b->init, b->cmd);
        if (!b->cmd && b->init & SNS_BSY) mc_fail("busy:test", "unit %02x adds busy to pending status %02x for test I/O", b->addr, b->init);
        if (a->nst < 12) a->st[a->nst++] = b->init & ~SNS_BSY;
        if (b->init & SNS_DEVEND) a->done = 1;
        b->busy = b->done = 1;
    }
    if (!b->busy) mc_fail("busy:accepted", "command %02x is accepted while %02x runs on the unit (initial status %02x)", b->cmd, a->cmd, b->init);
}
/* one event of whichever operation the devices present; returns 0 when time runs out */
static int dj_event(djob *js, int n, int max, int late) {
    int i, r = dc_next(max);
    if (r == DC_TIME) return 0;
    djob *j = NULL;
    for (i = 0; i < n; i++) if (js[i].addr == dc.addr && js[i].started && !js[i].done) j = &js[i];
    if (!j) mc_fail("poll:stray", "unit %02x asks for service, but has no operation (%s)", dc.addr, r == DC_STAT ? "status" : "data");
    for (i = 0; i < late; i++) dc_step();
    if (r == DC_DATA) {
        if (!(dc.tags & CHAN_SRV_IN)) return 1;
        if (j->n >= j->count) { dc_stop(); return 1; }
        if (j->cmd & 1) { dc_write(j->out ? j->out[j->n] : 0x40); j->n++; }
        else { uint8_t b = dc_read(); if (j->n < 300) j->data[j->n++] = b; }
        return 1;
    }
    uint8_t s = dc.bus_in;
    if (j->nst < 12) j->st[j->nst++] = s; else mc_fail("status:many", "unit %02x: too many statuses", j->addr);
    dc_take(0);
    if (s & SNS_DEVEND) { j->done = 1; dc_release("ending status"); }
    return 1;
}
static int dj_or(const djob *j) { int a = 0; for (int i = 0; i < j->nst; i++) a |= j->st[i]; return a; }
/* a whole command with one disturbance: status stacked, halt I/O, reset, or a late byte */
typedef struct { int busy, init, nst; uint8_t st[8]; int n; uint8_t data[400]; int halted; } dgot;
enum { DV_NONE, DV_STACK, DV_HALT, DV_RESET };
static uint8_t (*dc_wbyte)(int);
static int dc_time = 12000;
static void dc_reset(void) {
    dc.out = 0; dc.bus_out = 0x100; dc.shortbusy = 1;
    /* every in line falls because of the reset */
    for (int i = 0; i < 5; i++) {
        dc.tags = (dc.tags & IN_TAGS) | dc.out; dc.prev = dc.tags;
        for (int k = 0; k < dc.ndev; k++) dc.dev[k]->bus_func(dc.dev[k], &dc.tags, dc.bus_out, &dc.bus_in);
        dc.t++; step_count++; DC_TICK(); mc_step();
    }
    if (dc.tags & (INS|CHAN_REQ_IN)) mc_fail("reset:lines", "lines %04x are up in reset", dc.tags);
    dc.shortbusy = 0; dc.out = CHAN_OPR_OUT; dc_idle(5);
}
static dgot dc_run(uint8_t addr, uint8_t cmd, int count, int ev, int k, int chain) {
    dgot g; memset(&g, 0, sizeof g);
    int r = dc_start(addr, cmd), evn = 0, de = 0, first = 1;
    if (r == DC_NODEV) mc_fail("select:refused", "command %02x: the unit does not answer", cmd);
    dc.out &= ~CHAN_SUP_OUT;                             /* a chained selection is over */
    g.init = dc.status & 0xff;
    if (r == DC_BUSY) { g.busy = 1; return g; }
    for (;;) {
        if (!first) r = dc_next(dc_time); else r = DC_STAT;
        if (r == DC_TIME) mc_fail("hang:end", "command %02x: no ending status", cmd);
        if (ev == DV_RESET && evn++ == k && !first) { dc_reset(); g.halted = 3; return g; }
        if (ev == DV_HALT && !first && dc.tags & CHAN_OPR_IN && evn++ == k) { dc_halt(); g.halted = 1; continue; }
        if (r == DC_STAT) {
            uint8_t s = dc.bus_in;
            if (ev == DV_STACK && evn++ == k) {
                if (s == 0) mc_prune();
                dc_stack(); g.halted = 2;
                dc.out |= CHAN_SUP_OUT; dc_idle(3);
                for (int i = 0; i < 40; i++) { dc_step(); if (dc.tags & (CHAN_REQ_IN|INS)) mc_fail("stack:suppress", "stacked status is offered while suppress out is up (tags %04x)", dc.tags); }
                dc.out &= ~CHAN_SUP_OUT;
                r = dc_next(60);
                if (r == DC_TIME && !(s & SNS_DEVEND)) r = dc_next(dc_time);
                if (r != DC_STAT) mc_fail("stack:lost", "the stacked status %02x is not offered again (%d)", s, r);
                if ((dc.bus_in & s) != s) mc_fail("stack:changed", "status %02x was stacked, now %02x", s, dc.bus_in & 0xff);
                s = dc.bus_in;
                if (first) g.init = s;
            }
            if (g.nst < 8) g.st[g.nst++] = s; else mc_fail("status:many", "command %02x: more than 8 statuses", cmd);
            if (s & SNS_DEVEND) de = 1;
            int over = de || (g.nst == 1 && ((cmd & 0x0f) == 0 || s & (SNS_BSY|SNS_UNITCHK)));
            dc_take(chain && over && !(s & (SNS_UNITCHK|SNS_UNITEXP|SNS_BSY)));
            if (dc.sel && (s & SNS_CHNEND)) dc.out &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
            first = 0;
            if (over) { dc_release("ending status"); break; }
            continue;
        }
        if (g.n >= count) { dc_stop(); continue; }
        if (cmd & 1) { dc_write(dc_wbyte(g.n)); g.n++; } else { uint8_t b = dc_read(); if (g.n < 400) g.data[g.n++] = b; }
    }
    if (dc.out & CHAN_SUP_OUT) return g;                 /* command chaining: the next selection follows at once */
    dc_idle(12);
    if (dc.tags & (INS|CHAN_REQ_IN)) mc_fail("status:extra", "command %02x is over, yet the device raises %04x", cmd, dc.tags);
    return g;
}
static int dg_or(const dgot *g) { int a = 0; for (int i = 0; i < g->nst; i++) a |= g->st[i]; return a; }
#endif
