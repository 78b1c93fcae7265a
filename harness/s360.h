/* Reference System/360 interpreter, written from the Principles of Operation. */
#ifndef S360_H
#define S360_H
#include <stdint.h>
#ifndef S360_MEM
#define S360_MEM 65536         /* largest storage */
#endif
extern uint32_t s360_size;      /* storage of the machine, S360_MEM if not set otherwise */
typedef struct {
    uint32_t r[16], f[8];
    uint8_t  *m;                /* S360_MEM bytes */
    uint8_t  keys[S360_MEM >> 11];          /* storage key of every 2K block */
    uint8_t  sysmask, key, amwp, cc, pm, ilc;
    uint32_t ia;
    int      fp, fetchprot;     /* features present */
    /* outcome of the last instruction */
    int      pgm;               /* program interruption code, 0 none */
    uint32_t codes;             /* set of acceptable codes (bit mask) */
    int      svc;               /* supervisor call code or -1 */
    int      un_cc;             /* condition code unpredictable */
    uint32_t un_regs;           /* unpredictable registers */
    uint32_t un_fp;
    uint32_t un_lo, un_hi;      /* unpredictable storage */
    int      un_lo_ok;
    int      laxmp;             /* model need not detect all invalid digits of a multiplicand */
    int      undef;             /* instruction or operands with undefined results: do not compare */
    uint32_t st_lo, st_hi;      /* last storage operand written */
} s360;
void s360_step(s360 *s);        /* execute one instruction, including interruption */
void s360_swap(s360 *s, uint32_t old, uint32_t new_, int code); /* interruption */
static inline uint32_t s360_w(const s360 *s, uint32_t a) { const uint8_t *p = s->m + a; return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static inline void s360_sw(s360 *s, uint32_t a, uint32_t v) { uint8_t *p = s->m + a; p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
#endif
