/* A scripted device for the channels: follows the tag protocol of device.h, records what it is told. */
#ifndef IODEV_H
#define IODEV_H
#include <stdint.h>
#include "device.h"
#define IO_MAX 544
#define IO_OPS 8
typedef struct {                       /* one operation (command) */
    int len;                           /* bytes the device sends or takes */
    int split;                         /* 0: channel end and device end together; n: device end n cycles later */
    int gap;                           /* cycles before each byte */
    int first;                         /* cycles before the first byte or the end */
    int sms;                           /* status modifier with device end */
    uint8_t bad;                       /* unit check, unit exception with channel end */
    uint8_t init;                      /* initial status instead of the command (busy, unit check ...) */
} io_op;
typedef struct {
    device_t d;
    int burst;                         /* stays connected between bytes */
    int group;                         /* bytes per connection, then lets go at once; 0: lets go some time after each byte */
    io_op op[IO_OPS];
    uint8_t data[IO_MAX];              /* bytes sent */
    /* record */
    int nop, ncmd; uint8_t cmds[IO_OPS * 2];
    int ngot[IO_OPS]; uint8_t got[IO_OPS][IO_MAX]; int stopped[IO_OPS];
    int nacc; uint8_t acc[32];         /* statuses accepted by the channel (except zero) */
    char viol[120];
    /* private */
    int st, cmd, active, rdy, cnt, done, cend, delay, cur, disc, ing, halted, reset;
    uint8_t status, byte, chaining;
    int conn;
} iod;
void iod_init(iod *x, uint16_t addr);
void iod_tick(iod *x);
int  iod_quiet(const iod *x);           /* nothing more to come */
void iod_attention(iod *x, int status);
#endif
