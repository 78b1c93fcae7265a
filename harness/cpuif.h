/* Uniform access to the two processors, architected state only. */
#ifndef CPU_ADAPTER_H
#define CPU_ADAPTER_H
#include "s360.h"
typedef struct {
    const char *name;
    int fp, fetchprot;
    int maxcycles;                      /* microcycles allowed per instruction */
    void (*setup)(void);                /* once per process */
    void (*put)(const s360 *s);         /* load storage, keys and registers */
    void (*get)(s360 *s);               /* read them back, s->m is filled */
    int  (*run)(uint32_t ia, long max); /* start at ia in supervisor state; run until wait state. cycles or -1 */
    /* the same with events: key pressed or timer tick at given microcycles. Ends when waiting (or stopped) and all events are over for a while */
    long (*runev)(uint32_t ia, long max);
    uint32_t (*ia)(void);               /* current instruction address register */
    int (*stopped)(void);               /* manual state */
    void (*start)(uint32_t ia);         /* begin as run does */
    void (*cycle)(void);                /* one microcycle */
    int (*waiting)(void);
    unsigned (*microaddr)(void);
    uint32_t (*model)(char letter);     /* select the model with this much storage; its size or 0 */
} cpu_if;
typedef struct { long t; int kind; uint32_t ia; } cpu_ev;   /* ia: instruction address when it happened */
enum { EV_KEY = 1, EV_TIMER, EV_STOP, EV_START };
extern cpu_ev cpu_evs[]; extern int cpu_nev;
extern long cpu_settle;
extern const cpu_if cpu50, cpu30;
#endif
