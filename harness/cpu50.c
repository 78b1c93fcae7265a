#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include "device.h"
#include "logger.h"
#include "cpu.h"
#include "conf.h"
#include "model2050.h"
#include "s360.h"
#include "cpuif.h"
void cycle_2050();
cpu_ev cpu_evs[8]; int cpu_nev; long cpu_settle = 100;
extern int load_line(char *);
void *setup_fp2050(char *r) { return NULL; }
extern char __start_snap2050[], __stop_snap2050[]; static char *fresh;      /* everything the simulated processor keeps between cycles */
static uint32_t *mem; static uint32_t mmax;
static void setup(void)
{
    static char l[] = "2050F";
    static const struct CPU_2050 z;
    title = NULL; load_line(l); mem = M; mmax = mem_max; title = NULL;
    cpu_2050 = z;
    SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1;
    do { cycle_2050(); } while (cpu_2050.ROAR != 0x150);
    fresh = malloc(__stop_snap2050 - __start_snap2050); memcpy(fresh, __start_snap2050, __stop_snap2050 - __start_snap2050);
}
/* select a model with other storage (letter as in the configuration), returns its size or 0 */
static uint32_t model(char l)
{
    static uint32_t *mm[26], mx[26]; int k = l - 'A';
    if (!mm[k]) { char line[8] = "2050?"; line[4] = l; title = NULL; M = NULL; if (load_line(line) && M) { mm[k] = M; mx[k] = mem_max; } title = NULL; }
    if (!mm[k]) return 0;
    M = mem = mm[k]; mem_max = mmax = mx[k];
    return mmax + 1;
}
static void put(const s360 *s)
{
    int i;
    M = mem; mem_max = mmax;
    memcpy(__start_snap2050, fresh, __stop_snap2050 - __start_snap2050);
    M = mem; mem_max = mmax;
    CHK_SW = 2; RATE_SW = 1; PROC_SW = 1; INT_TMR = 0; timer_event = 0; INTR = 0;
    for (i = 0; i < (int)s360_size / 4; i++) { uint32_t w; memcpy(&w, s->m + 4 * i, 4); M[i] = __builtin_bswap32(w); }
    for (i = 0; i < 16; i++) cpu_2050.LS[0x30 + i] = s->r[i];
    for (i = 0; i < 8; i++) cpu_2050.LS[0x20 + i] = s->f[i];
    for (i = 0; i < S360_MEM >> 11; i++) cpu_2050.MP[i] = s->keys[i] >> 4;
}
static void get(s360 *s)
{
    int i;
    for (i = 0; i < (int)s360_size / 4; i++) { uint32_t w = __builtin_bswap32(M[i]); memcpy(s->m + 4 * i, &w, 4); }
    for (i = 0; i < 16; i++) s->r[i] = cpu_2050.LS[0x30 + i];
    for (i = 0; i < 8; i++) s->f[i] = cpu_2050.LS[0x20 + i];
    for (i = 0; i < S360_MEM >> 11; i++) s->keys[i] = cpu_2050.MP[i] << 4;
}
static uint32_t get_ia(void) { return cpu_2050.IA_REG & 0xffffff; }
static int waiting(void) { return cpu_2050.wait; }
static unsigned microaddr(void) { return cpu_2050.ROAR; }
static void cycle(void) { cycle_2050(); }
static int stopped(void) { return cpu_2050.allow_man_operation; }
static void start(uint32_t ia)
{
    cpu_2050.IA_REG = ia; cpu_2050.ROAR = 0x190; cpu_2050.REFETCH = 1; cpu_2050.mem_state = 0; START = 1;
}
static int run(uint32_t ia, long max)
{
    long n;
    start(ia);
    for (n = 0; n < max; n++) {
        cycle_2050();
        START = 0;
        if (cpu_2050.wait) return n;
    }
    return -1;
}
static long runev(uint32_t ia, long max)
{
    long n, quiet = 0, lastw = 0; int e = 0;
    start(ia);
    for (n = 0; n < max; n++) {
        while (e < cpu_nev && cpu_evs[e].t <= n) {
            cpu_evs[e].ia = get_ia();
            switch (cpu_evs[e++].kind) {
            case EV_KEY: INTR = 1; break;
            case EV_TIMER: timer_event = 1; break;
            case EV_STOP: STOP = 1; break;
            case EV_START: START = 1; break;
            }
            quiet = 0;
        }
        cycle_2050();
        START = 0;
        if (cpu_2050.wait && e == cpu_nev) { if (!quiet) lastw = n; if (++quiet > cpu_settle) return lastw; } else quiet = 0;
    }
    return -1;
}
const cpu_if cpu50 = { "2050", 1, 0, 4000, setup, put, get, run, runev, get_ia, stopped, start, cycle, waiting, microaddr, model };
