#include <string.h>
#include <stdio.h>
#include "xlat.h"
#include "logger.h"
#include "iodev.h"
#define PAR(b) ((uint16_t)(((b) & 0xff) | odd_parity[(b) & 0xff]))
enum { IDLE, BUSY, SEL, COMMAND, STATUS, STATUS_ACC, STATUS_WAIT, END, END_ACC, WAIT_DE, OPR, DATA1, DATA2 };
static void v(iod *x, const char *s) { if (!x->viol[0]) snprintf(x->viol, sizeof x->viol, "%s", s); }
static int is_out(int c) { return (c & 1) != 0; }         /* data goes to the device */
static void finish(iod *x)                                /* end of data */
{
    io_op *o = &x->op[x->cur];
    x->rdy = 0;
    x->cend = 1; x->status |= SNS_CHNEND | o->bad;
    if (o->split == 0) { x->status |= SNS_DEVEND; x->done = 1; if (o->sms) x->status |= SNS_SMS; }
    else x->delay = o->split;
}
static void command(iod *x, int c)
{
    io_op *o;
    if (x->ncmd < (int)sizeof x->cmds) x->cmds[x->ncmd++] = c;
    if (x->active) { x->status = SNS_BSY; return; }
    if (c == 0) { x->cmd = 0; return; }
    x->cur = x->nop < IO_OPS ? x->nop++ : IO_OPS - 1;
    o = &x->op[x->cur];
    if (o->init) { x->status = o->init; x->cmd = 0; if (o->init & SNS_DEVEND) x->cend = x->done = 1; return; }
    x->cmd = c; x->active = 1; x->rdy = x->cnt = x->done = x->cend = 0; x->status = 0; x->delay = o->first; x->chaining = 0; x->d.stacked = 0;
    if ((c & 0xf) == 3 && o->len == 0) {                  /* immediate */
        x->cend = 1; x->status = SNS_CHNEND | o->bad; x->delay = o->split;
        if (o->split == 0) { x->status |= SNS_DEVEND; x->done = 1; x->active = 0; if (o->sms) x->status |= SNS_SMS; }
    }
}
/* time passes */
void iod_tick(iod *x)
{
    io_op *o = &x->op[x->cur];
    if (x->cmd == 0 || x->rdy || x->done) return;
    if (x->delay > 0) { x->delay--; return; }
    if (x->cend) {                                        /* device end */
        if (x->status & SNS_CHNEND) return;               /* channel end not presented yet */
        x->status |= SNS_DEVEND; if (o->sms) x->status |= SNS_SMS;
        x->done = 1; x->d.request = 1; return;
    }
    x->d.request = 1;
    if (x->cnt >= o->len || x->stopped[x->cur]) { finish(x); return; }
    if (!is_out(x->cmd)) x->byte = x->data[x->cnt % IO_MAX];
    x->rdy = 1;
}
int iod_quiet(const iod *x) { return x->st == IDLE && !x->d.request && !x->d.stacked && !x->active && x->cmd == 0; }
void iod_attention(iod *x, int status) { x->status |= status; x->d.request = 1; }
static void release(iod *x, uint16_t *t) { *t &= ~(CHAN_OPR_IN | CHAN_ADR_IN | CHAN_STA_IN | CHAN_SRV_IN); x->conn = 0; x->d.selected = 0; }
static void ended(iod *x) { x->cmd = 0; x->active = 0; x->cend = x->done = x->rdy = 0; x->d.stacked = 0; x->d.request = 0; }
static void accepted(iod *x) { if (x->status && x->nacc < 32) x->acc[x->nacc++] = x->status; }
static void func(struct _device *d, uint16_t *t, uint16_t bo, uint16_t *bi)
{
    iod *x = d->dev;
    int a = d->addr & 0xff;
    if (x->st != IDLE || d->request || (*t & CHAN_ADR_OUT)) log_device("iodev %03x state %d tags %04x bus %03x status %02x\n", d->addr, x->st, *t, bo, x->status);
    if ((*t & (CHAN_OPR_OUT | CHAN_SUP_OUT)) == 0) {      /* reset */
        if (x->conn) release(x, t);
        x->st = IDLE; x->d.request = x->d.stacked = 0; x->cmd = x->active = x->rdy = x->done = x->cend = 0; x->status = 0; x->reset++;
        return;
    }
    if ((x->st == OPR || x->st == DATA1 || x->st == DATA2 || x->st == END || x->st == WAIT_DE) && (*t & CHAN_ADR_OUT) && !(*t & (CHAN_SRV_OUT | CHAN_CMD_OUT))) {
        x->halted++; *t &= ~CHAN_SEL_OUT; release(x, t);             /* halt */
        if (x->active && !x->cend) { x->stopped[x->cur] = 1; finish(x); }
        if (x->status) d->request = 1;
        x->st = IDLE; return;
    }
    switch (x->st) {
    case IDLE:
        if (!(*t & CHAN_OPR_OUT)) break;
        if (*t & CHAN_OPR_IN) { if (d->request || d->stacked) *t &= ~CHAN_REQ_IN; break; }
        if (d->request || d->stacked) { if (!(*t & CHAN_ADR_OUT) && (!(*t & CHAN_SUP_OUT) || (x->rdy && !x->cend))) *t |= CHAN_REQ_IN; else *t &= ~CHAN_REQ_IN; }
        if (!(*t & CHAN_SEL_OUT)) break;
        if (*t & CHAN_ADR_OUT) {
            if ((bo & 0xff) != a) break;
            *t &= ~(CHAN_SEL_OUT | CHAN_REQ_IN);
            if (bo != PAR(bo)) v(x, "address with wrong parity");
            if (x->active && !x->done && !(x->status & SNS_CHNEND)) { *bi = PAR(SNS_BSY); *t |= CHAN_STA_IN; x->st = BUSY; break; }
            *t |= CHAN_OPR_IN; *bi = PAR(a); x->st = SEL; x->conn = 1; d->selected = 1;
            break;
        }
        if ((!(*t & CHAN_SUP_OUT) || (x->rdy && !x->cend)) && (d->request || d->stacked)) {          /* suppress out holds back status only */
            *t &= ~(CHAN_SEL_OUT | CHAN_REQ_IN); *t |= CHAN_OPR_IN; *bi = PAR(a); x->conn = 2; d->selected = 1; x->st = SEL;
        }
        break;
    case SEL:
        *t &= ~CHAN_SEL_OUT; *bi = PAR(a);
        if (!(*t & CHAN_ADR_OUT)) { *t |= CHAN_ADR_IN; x->st = COMMAND; }
        break;
    case COMMAND:
        *t &= ~CHAN_SEL_OUT; d->request = 0; *bi = PAR(a);
        if (*t & CHAN_CMD_OUT) {
            *t &= ~CHAN_ADR_IN;
            if (x->conn == 1 && bo != PAR(bo)) v(x, "command with wrong parity");
            x->ing = 0;
            if (x->conn == 2) { x->st = x->active && !x->cend ? DATA1 : END; break; }
            x->st = STATUS;
            if (x->status == 0) command(x, bo & 0xff);
            else if (bo & 0xff) { if (x->ncmd < (int)sizeof x->cmds) x->cmds[x->ncmd++] = bo; x->status |= SNS_BSY; }
            break;
        }
        if ((*t & CHAN_ADR_OUT) && !(*t & CHAN_HLD_OUT)) {            /* halt */
            release(x, t); x->halted++;
            if (x->active && !x->cend) { x->stopped[x->cur] = 1; finish(x); }
            if (x->status) d->request = 1;
            x->st = STATUS_WAIT;
        }
        break;
    case STATUS:                                                       /* initial status */
        *t &= ~(CHAN_SEL_OUT | CHAN_ADR_IN); *bi = PAR(x->status); *t |= CHAN_STA_IN; x->st = STATUS_ACC;
        break;
    case STATUS_ACC:
        *t &= ~CHAN_SEL_OUT; *bi = PAR(x->status);
        if (*t & CHAN_CMD_OUT) {
            if (x->status & SNS_BSY) x->status &= ~SNS_BSY;
            d->stacked = x->status != 0; x->st = STATUS_WAIT; release(x, t); break; }
        if (*t & CHAN_SRV_OUT) {
            x->chaining = (*t & CHAN_SUP_OUT) != 0;
            accepted(x);
            if ((x->status & SNS_BSY) && !x->d.stacked && !(x->status & ~SNS_BSY) && x->active) { x->status = 0; release(x, t); x->st = STATUS_WAIT; break; }
            x->status = 0; d->stacked = 0; *t &= ~CHAN_STA_IN;
            if (x->done || x->cmd == 0) { ended(x); *t &= ~CHAN_OPR_IN; x->conn = 0; x->st = STATUS_WAIT; break; }
            if (x->cend) { if (!(*t & CHAN_HLD_OUT)) *t &= ~CHAN_OPR_IN; x->st = STATUS_WAIT; break; }
            x->disc = !x->burst && !x->rdy;
            x->st = OPR;
            break;
        }
        if (*t & CHAN_ADR_OUT) { x->st = IDLE; release(x, t); }
        break;
    case STATUS_WAIT:
        *t &= ~CHAN_SEL_OUT;
        if (!(*t & (CHAN_CMD_OUT | CHAN_SRV_OUT | CHAN_ADR_OUT))) {
            if (!(*t & CHAN_HLD_OUT) || !x->active || d->stacked) { release(x, t); x->st = IDLE; }
            else x->st = WAIT_DE;
        }
        break;
    case BUSY:
        *bi = PAR(SNS_BSY);
        if (!(*t & CHAN_SEL_OUT)) {
            *t &= ~CHAN_STA_IN; d->selected = 0; x->st = IDLE;
            if (*t & CHAN_ADR_OUT) { x->halted++; if (!x->cend) { x->stopped[x->cur] = 1; finish(x); d->request = 1; } }
        }
        *t &= ~CHAN_SEL_OUT;
        break;
    case END:                                                          /* ending status */
        *t &= ~CHAN_SEL_OUT;
        if (*t & (CHAN_CMD_OUT | CHAN_SRV_OUT)) break;
        *bi = PAR(x->status); *t |= CHAN_STA_IN; x->st = END_ACC;
        break;
    case END_ACC:
        *t &= ~CHAN_SEL_OUT; *bi = PAR(x->status);
        if (*t & CHAN_CMD_OUT) { d->stacked = 1; x->st = STATUS_WAIT; release(x, t); break; }
        if (*t & CHAN_SRV_OUT) {
            accepted(x);
            x->chaining = (*t & CHAN_SUP_OUT) != 0;
            x->status = 0; d->stacked = 0; x->st = STATUS_WAIT;
            if (x->done || x->cmd == 0) { *t &= ~(CHAN_STA_IN | CHAN_OPR_IN); ended(x); break; }
            *t &= ~CHAN_STA_IN;
            if (!(*t & CHAN_HLD_OUT)) *t &= ~CHAN_OPR_IN; else x->st = WAIT_DE;
        }
        break;
    case WAIT_DE:
        *t &= ~CHAN_SEL_OUT;
        if (!(*t & CHAN_HLD_OUT)) { release(x, t); x->st = IDLE; break; }
        if (x->done) { d->request = 0; x->st = END; }
        break;
    case OPR:
        d->request = 0; *t &= ~CHAN_SEL_OUT;
        if (x->rdy) { x->st = DATA1; break; }
        if (x->cend) { x->st = END; break; }
        if (x->disc) { x->disc = 0; if (!(*t & CHAN_HLD_OUT)) { release(x, t); x->st = IDLE; } }
        break;
    case DATA1:
        *t &= ~CHAN_SEL_OUT;
        if (*t & (CHAN_SRV_OUT | CHAN_SUP_OUT | CHAN_CMD_OUT)) break;
        *t |= CHAN_SRV_IN; *bi = is_out(x->cmd) ? PAR(0) : PAR(x->byte); x->st = DATA2;
        break;
    case DATA2:
        *t &= ~CHAN_SEL_OUT; *bi = is_out(x->cmd) ? PAR(0) : PAR(x->byte);
        if (*t & (CHAN_SRV_OUT | CHAN_CMD_OUT)) {
            if ((*t & (CHAN_SRV_OUT | CHAN_CMD_OUT)) == (CHAN_SRV_OUT | CHAN_CMD_OUT)) v(x, "service out and command out together");
            *t &= ~CHAN_SRV_IN; x->rdy = 0; x->delay = x->op[x->cur].gap;
            if (*t & CHAN_CMD_OUT) { x->stopped[x->cur] = 1; finish(x); }
            else {
                if (is_out(x->cmd)) { if (bo != PAR(bo)) v(x, "data with wrong parity"); if (x->cnt < IO_MAX) x->got[x->cur][x->cnt] = bo; }
                x->cnt++; x->ngot[x->cur] = x->cnt;
                if (x->cnt >= x->op[x->cur].len && x->op[x->cur].gap == 0) finish(x);
                x->disc = !x->burst && !x->group;
                if (x->group && !x->burst && ++x->ing >= x->group && !x->cend && !(*t & CHAN_HLD_OUT)) { release(x, t); x->st = IDLE; x->ing = 0; break; }
            }
            x->st = OPR;
            if (*t & CHAN_ADR_OUT) {                                   /* halt */
                x->halted++; release(x, t); x->st = IDLE;
                if (!x->cend) { x->stopped[x->cur] = 1; finish(x); }
                d->request = 1;
            }
        }
        break;
    }
}
void iod_init(iod *x, uint16_t addr)
{
    int i;
    memset(x, 0, sizeof *x);
    x->d.bus_func = func; x->d.dev = x; x->d.addr = addr; x->d.mask = 0xff; x->d.n_units = 1; x->d.type_name = "iodev";
    for (i = 0; i < IO_MAX; i++) x->data[i] = 0xf1 ^ i * 7;
}
