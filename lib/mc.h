/*
 * mc - a small stateless model checker for C code run in-process.
 *
 * A "part" is a body function that drives the real code and asks mc_choose()
 * for every decision (operation, argument, environment answer, delay).  The
 * explorer runs the body once for every possible sequence of answers, i.e. it
 * enumerates the whole choice tree of the part, in parallel, and records:
 *   executions  - complete runs of the body on the real code
 *   transitions - mc_step() calls (operations applied to the real code)
 *   states      - distinct values passed to mc_state()
 */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>

typedef struct {
    const char *name;
    void (*body)(void);
    int  isolate;          /* 1: every execution in its own process */
    int  timeout_ms;       /* per execution, 0 = default 20000 */
} mc_part;

/* 0..n-1 */
int  mc_choose(int n, const char *label);
/* choose, value 0 is the default answer; any other answer costs one deviation */
int  mc_deviate(int n, const char *label);
void mc_deviation_bound(int bound);     /* call at start of body */
/* Report a violation of the property in this execution. sig identifies the kind. */
void mc_fail(const char *sig, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
/* abandon this execution: not a legal behaviour of the environment */
void mc_chosen(void);
void mc_prune(void) __attribute__((noreturn));
void mc_step(void);                     /* one operation applied to the real code */
void mc_steps(uint64_t n);
/* observed state; returns 1 when it was seen before */
int  mc_state(uint64_t h);
/* explicit-state search: returns 1 when this state was already expanded with at least
   `left` steps remaining, by any execution (caller then returns/prunes). While a recorded
   prefix is being replayed it always returns 0. */
int  mc_seen(uint64_t h, int left);
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t mc_hash(uint64_t h, const void *p, size_t n);
static inline uint64_t mc_hash_u(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h;
}
#define MC_HASH0 0xcbf29ce484222325ULL
extern int mc_thorough;                 /* tier */
extern const char *mc_scratch;          /* private scratch directory of this process */
int  mc_worker_id(void);
int  mc_replaying(void);

/* Provided by the harness. */
extern const char *mc_property;
extern mc_part mc_parts[];              /* ends with name == NULL */
extern const char *mc_bounds;           /* text describing alphabet and bounds */
extern const char *mc_assumptions[];    /* NULL terminated */
/* optional, called once in every process before exploring */
void mc_setup(void);
#endif
