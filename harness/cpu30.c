#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include "device.h"
#include "logger.h"
#include "cpu.h"
#include "conf.h"
#include "xlat.h"
#include "model2030.h"
#include "s360.h"
#include "cpuif.h"
extern int load_line(char *);
void *setup_fp2030(char *r) { return NULL; }
void model1052_out(void *c, uint16_t o) { }
void model1052_in(void *c, uint16_t *o) { }
void model1052_func(void *c, uint16_t *a, uint16_t b, uint16_t *d) { }
void *model1052_init_ctx(uint16_t p) { return NULL; }
extern char __start_snap2030[], __stop_snap2030[]; static char *fresh;      /* everything the simulated processor keeps between cycles */
static uint32_t *mem; static uint32_t mmax;
#define P(b) ((b) | odd_parity[(b) & 0xff])
static void setup(void)
{
    static char l[] = "2030F";
    static const struct CPU_2030 z;
    title = NULL; load_line(l); mem = M; mmax = mem_max; title = NULL;
    cpu_2030 = z;
    SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1;
    do { cycle_2030(); } while (cpu_2030.WX != 0x328);
    fresh = malloc(__stop_snap2030 - __start_snap2030); memcpy(fresh, __start_snap2030, __stop_snap2030 - __start_snap2030);
}
/* select a model with other storage (letter as in the configuration), returns its size or 0 */
static uint32_t model(char l)
{
    static uint32_t *mm[26], mx[26]; int k = l - 'A';
    if (!mm[k]) { char line[8] = "2030?"; line[4] = l; title = NULL; M = NULL; if (load_line(line) && M) { mm[k] = M; mx[k] = mem_max; } title = NULL; }
    if (!mm[k]) return 0;
    M = mem = mm[k]; mem_max = mmax = mx[k];
    return mmax + 1;
}
static void put(const s360 *s)
{
    int i;
    M = mem; mem_max = mmax;
    memcpy(__start_snap2030, fresh, __stop_snap2030 - __start_snap2030);
    M = mem; mem_max = mmax;
    CHK_SW = 2; RATE_SW = 1; PROC_SW = 1; INT_TMR = 1; timer_event = 0; INTR = 0;
    for (i = 0; i < (int)s360_size; i++) M[i] = P(s->m[i]);
    for (i = 0; i < 64; i++) cpu_2030.LS[0x700 + (i & 3) + (i >> 2) * 16] = P(s->r[i >> 2] >> (24 - 8 * (i & 3)) & 0xff);
    for (i = 0; i < 32; i++) cpu_2030.LS[0x708 + (i & 7) + (i >> 3) * 32] = P(s->f[i >> 2] >> (24 - 8 * (i & 3)) & 0xff);
    for (i = 0; i < 32; i++) cpu_2030.MP[0xe0 | i] = s->keys[i] >> 4;
    cpu_2030.LS[0x7b8] = P(0); cpu_2030.MASK = 0; cpu_2030.LS[0x7b9] = P(0); cpu_2030.ASCII = 0; cpu_2030.Q_REG &= 0xf;
    cpu_2030.LS[0x7bb] = P(0x80 >> (s->cc & 3)); cpu_2030.LS[0x78c] = P(0);
}
static void get(s360 *s)
{
    int i;
    for (i = 0; i < (int)s360_size; i++) s->m[i] = M[i];
    memset(s->r, 0, sizeof s->r); memset(s->f, 0, sizeof s->f);
    for (i = 0; i < 64; i++) s->r[i >> 2] |= (uint32_t)(cpu_2030.LS[0x700 + (i & 3) + (i >> 2) * 16] & 0xff) << (24 - 8 * (i & 3));
    for (i = 0; i < 32; i++) s->f[i >> 2] |= (uint32_t)(cpu_2030.LS[0x708 + (i & 7) + (i >> 3) * 32] & 0xff) << (24 - 8 * (i & 3));
    for (i = 0; i < 32; i++) s->keys[i] = cpu_2030.MP[0xe0 | i] << 4;
}
static uint32_t cur_ia;      /* I and J hold operand addresses later: address of the instruction when it was read */
static uint32_t get_ia(void) { return cur_ia; }
static int waiting(void) { return cpu_2030.wait; }
static unsigned microaddr(void) { return cpu_2030.WX; }
static void cycle(void) { if (cpu_2030.WX == 0x109) cur_ia = cpu_2030.MN_REG & ~1; cycle_2030(); }
static int stopped(void) { return cpu_2030.allow_man_operation; }
static void start(uint32_t ia)
{
    cpu_2030.I_REG = P(ia >> 8); cpu_2030.J_REG = P(ia & 0xff);
    cpu_2030.LS[0x7a9] = P(ia >> 8); cpu_2030.LS[0x7aa] = P(ia & 0xff);
    cpu_2030.WX = 0x102; START = 1;
}
static int run(uint32_t ia, long max)
{
    long n;
    start(ia);
    for (n = 0; n < max; n++) {
        cycle_2030();
        START = 0;
        if (cpu_2030.wait) return n;
    }
    return -1;
}
static long runev(uint32_t ia, long max)
{
    long n, quiet = 0, lastw = 0; int e = 0;
    start(ia); cur_ia = ia;
    for (n = 0; n < max; n++) {
        if (cpu_2030.WX == 0x109) cur_ia = cpu_2030.MN_REG & ~1;
        while (e < cpu_nev && cpu_evs[e].t <= n) {
            cpu_evs[e].ia = get_ia();
            switch (cpu_evs[e++].kind) {
            case EV_KEY: INTR = 1; break;
            case EV_TIMER: timer_event = 1; break;
            case EV_STOP: STOP = 1; break;
            case EV_START: START = 1; break;
            }
            quiet = 0;
        }
        cycle_2030();
        START = 0;
        if (cpu_2030.wait && e == cpu_nev) { if (!quiet) lastw = n; if (++quiet > cpu_settle) return lastw; } else quiet = 0;
    }
    return -1;
}
const cpu_if cpu30 = { "2030", 0, 0, 20000, setup, put, get, run, runev, get_ia, stopped, start, cycle, waiting, microaddr, model };
