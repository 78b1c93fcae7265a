#define _GNU_SOURCE
#include "mc.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <setjmp.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sched.h>

#define MAXCH   4096
#define NOTESZ  16384
#define MAXW    16
#define MAXPFX  (1<<18)
#define PFXLEN  24
#define TBITS   23
#define MAXKNOWN 512

int mc_thorough;
const char *mc_scratch;
static char scratch_buf[300];

typedef struct {
    int      choice[MAXCH];
    int      arity[MAXCH];
    int      len;               /* choices taken so far in current execution */
    int      plen;              /* length of the work item prefix */
    int      item;              /* work item index, -1 none */
    int      running;           /* an execution is in progress */
    uint64_t exec_no;           /* executions within this item */
    uint64_t executions, transitions, pruned;
    int      maxlen;
    int      failed;            /* mc_fail was called */
    char     sig[256];
    char     msg[2048];
    char     notes[NOTESZ];
    int      notelen;
    pid_t    pid;
    double   beat;
} slot_t;

typedef struct { uint16_t len; int c[PFXLEN]; int a[PFXLEN]; } pfx_t;

typedef struct {
    slot_t   slot[MAXW];
    volatile int next_item;
    int      n_items;
    pfx_t    items[MAXPFX];
    volatile uint64_t states;
    volatile uint64_t table_full;
    int      sample_n;
    char     sample[6][NOTESZ];
    int      n_outcome;
    char     outcome[64][96];
    uint64_t outcome_cnt[64];
    volatile int stop;
    int      overflow;
    volatile int lock;
} shared_t;

static shared_t *sh;
static volatile uint64_t *tab;          /* seen states */
static volatile uint8_t  *tableft;
static slot_t *me;
static int   my_id;
static mc_part *part;
static jmp_buf jb;
static int   mode;                      /* 0 explore, 1 split, 2 replay */
static int   fixed_len;                 /* choices to replay from me->choice */
static double split_prod;
static double split_target = 2048;
static int   dev_used, dev_bound;
static int   n_workers = 8;
static int   n_known;
static char  known[MAXKNOWN][256];
static uint64_t known_hits[MAXKNOWN];
static double budget = 1e9;
static double t0;

extern void mc_setup(void) __attribute__((weak));

static double now(void) {
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void lock(void) { while (__sync_lock_test_and_set(&sh->lock, 1)) sched_yield(); }
static void unlock(void) { __sync_lock_release(&sh->lock); }

uint64_t mc_hash(uint64_t h, const void *p, size_t n) {
    const uint8_t *b = p; uint64_t v;
    while (n >= 8) { memcpy(&v, b, 8); h = mc_hash_u(h, v); b += 8; n -= 8; }
    v = 0; if (n) memcpy(&v, b, n);
    return mc_hash_u(h, v ^ ((uint64_t)n << 56));
}
int mc_worker_id(void) { return my_id; }
int mc_replaying(void) { return mode == 2; }
void mc_step(void) { me->transitions++; }
void mc_steps(uint64_t n) { me->transitions += n; }

static uint64_t tab_find(uint64_t h, int *fresh) {
    uint64_t m = (1ULL << TBITS) - 1, i = (h ^ (h >> 29)) & m, n;
    if (h == 0) h = 1;
    for (n = 0; n < 512; n++, i = (i + 1) & m) {
        uint64_t v = tab[i];
        if (v == h) { *fresh = 0; return i; }
        if (v == 0) {
            if (__sync_bool_compare_and_swap(&tab[i], 0, h)) {
                __sync_fetch_and_add(&sh->states, 1); *fresh = 1; return i;
            }
            if (tab[i] == h) { *fresh = 0; return i; }
        }
    }
    sh->table_full = 1; *fresh = 1; return ~0ULL;
}
int mc_state(uint64_t h) { int f; tab_find(h, &f); return !f; }
int mc_seen(uint64_t h, int left) {
    int f; uint64_t i;
    if (mode == 2 || mode == 1 || me->len < fixed_len) return 0;
    if (left > 254) left = 254;
    i = tab_find(h, &f);
    if (i == ~0ULL) return 0;
    if (!f && tableft[i] >= left + 1) return 1;
    if (tableft[i] < left + 1) tableft[i] = left + 1;
    return 0;
}

static void take(int n, const char *label, int c) {
    if (me->len >= MAXCH) { fprintf(stderr, "mc: too many choices\n"); _exit(77); }
    me->choice[me->len] = c; me->arity[me->len] = n; me->len++;
    if (me->len > me->maxlen) me->maxlen = me->len;
    (void)label;
}
/* hint: the long part of the execution begins, few choices or none follow. Lets the workers share such executions */
void mc_chosen(void) { if (mode == 1 && me->len >= fixed_len && me->len > 0) longjmp(jb, 2); }

int mc_choose(int n, const char *label) {
    if (n <= 0) { fprintf(stderr, "mc: choose(%d) %s\n", n, label); _exit(77); }
    if (n == 1) return 0;
    if (me->len < fixed_len) {
        int c = me->choice[me->len];
        if ((me->arity[me->len] != n && me->arity[me->len]) || c >= n) {      /* arity 0: replay file written by hand */
            fprintf(stderr, "mc: divergence while replaying choice %d (%s): arity %d, recorded %d\n",
                    me->len, label, n, me->arity[me->len]);
            _exit(78);
        }
        me->len++;
        split_prod *= n;
        return c;
    }
    if (mode == 1 && (split_prod >= split_target || (split_prod >= 32 && split_prod * n > 8 * split_target) || me->len >= PFXLEN)) longjmp(jb, 2);
    split_prod *= n;
    take(n, label, 0);
    return 0;
}
void mc_deviation_bound(int b) { dev_bound = b; dev_used = 0; }
int mc_deviate(int n, const char *label) {
    int c;
    if (dev_used >= dev_bound) return 0;
    c = mc_choose(n, label);
    if (c) dev_used++;
    return c;
}
void mc_fail(const char *sig, const char *fmt, ...) {
    va_list ap;
    snprintf(me->sig, sizeof me->sig, "%s", sig);
    va_start(ap, fmt); vsnprintf(me->msg, sizeof me->msg, fmt, ap); va_end(ap);
    if (getenv("MC_TRIAGE")) {
        FILE *f = fopen(getenv("MC_TRIAGE"), "a"); int i;
        if (f) { fprintf(f, "%s  %s | %s |", sig, me->msg, me->notes); for (i = 0; i < me->len; i++) fprintf(f, " %d", me->choice[i]); fputc('\n', f); fclose(f); }
    }
    me->failed = 1;
    longjmp(jb, 1);
}
void mc_prune(void) { longjmp(jb, 3); }
void mc_note(const char *fmt, ...) {
    va_list ap; int r, room = NOTESZ - 1 - me->notelen;
    if (room <= 1) return;
    va_start(ap, fmt); r = vsnprintf(me->notes + me->notelen, room, fmt, ap); va_end(ap);
    if (r > 0) me->notelen += r < room ? r : room - 1;
}
void mc_outcome(const char *fmt, ...) {
    char b[96]; va_list ap; int i;
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (i = 0; i < sh->n_outcome; i++)
        if (!strcmp(sh->outcome[i], b)) { __sync_fetch_and_add(&sh->outcome_cnt[i], 1); return; }
    lock();
    for (i = 0; i < sh->n_outcome; i++) if (!strcmp(sh->outcome[i], b)) break;
    if (i == sh->n_outcome && i < 64) { strcpy(sh->outcome[i], b); __sync_synchronize(); sh->n_outcome++; }
    if (i < 64) sh->outcome_cnt[i]++;
    unlock();
}

/* next choice vector in DFS order with the first `keep` choices kept; 0 when done */
static int advance_choices(slot_t *s, int keep) {
    int i = s->len;
    while (i > keep) {
        i--;
        if (s->choice[i] + 1 < s->arity[i]) { s->choice[i]++; s->len = i + 1; return 1; }
    }
    return 0;
}

static void arm(int ms) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = ms / 1000; it.it_value.tv_usec = (ms % 1000) * 1000;
    setitimer(ITIMER_REAL, &it, NULL);
}
static int cur_timeout;
static void on_alarm(int s) {
    /* called when armed window elapses: did the execution change since? */
    static uint64_t last_exec = ~0ULL; static int last_item = -9;
    (void)s;
    if (me->running && last_exec == me->exec_no && last_item == me->item) {
        snprintf(me->sig, sizeof me->sig, "hang");
        snprintf(me->msg, sizeof me->msg, "execution did not finish within %d ms", cur_timeout);
        me->failed = 2;
        _exit(70);
    }
    last_exec = me->exec_no; last_item = me->item;
    arm(cur_timeout);
}

/* run the body once with the first `fix` choices replayed. 0 ok, 1 fail, 2 split, 3 pruned */
static int run_once(int fix) {
    int r;
    fixed_len = fix; me->len = 0; me->notelen = 0; me->notes[0] = 0;
    me->failed = 0; me->sig[0] = 0; me->msg[0] = 0;
    split_prod = 1; dev_used = 0; dev_bound = 1 << 30;
    me->exec_no++;
    me->running = 1;
    r = setjmp(jb);
    if (r == 0) part->body();
    me->running = 0;
    if (me->len > me->maxlen) me->maxlen = me->len;
    if (me->len < fix) {
        fprintf(stderr, "mc: body of %s ended after %d of %d replayed choices\n", part->name, me->len, fix);
        _exit(78);
    }
    return r;
}
static int isolated_once(int fix, int *st) {
    pid_t p = fork();
    if (p == 0) {
        int r = run_once(fix);
        _exit(r == 1 ? 71 : r == 3 ? 73 : 0);
    }
    while (waitpid(p, st, 0) < 0 && errno == EINTR) ;
    if (WIFEXITED(*st)) {
        if (WEXITSTATUS(*st) == 0) return 0;
        if (WEXITSTATUS(*st) == 71) return 1;
        if (WEXITSTATUS(*st) == 73) return 3;
        if (WEXITSTATUS(*st) == 77 || WEXITSTATUS(*st) == 78) _exit(WEXITSTATUS(*st));
    }
    return 9;   /* crash */
}

static int is_known(const char *sig) {
    int i;
    for (i = 0; i < n_known; i++) {
        size_t l = strlen(known[i]);
        if (l && known[i][l-1] == '*' ? !strncmp(known[i], sig, l - 1) : !strcmp(known[i], sig)) return i;
    }
    return -1;
}
static volatile uint64_t *sh_known;

static void proc_init(int id) {
    struct sigaction sa;
    my_id = id; me = &sh->slot[id];
    snprintf(scratch_buf, sizeof scratch_buf, "%s/w%d", getenv("MC_SCRATCH"), id);
    mkdir(scratch_buf, 0700); mc_scratch = scratch_buf;
    memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, NULL);
    cur_timeout = part->timeout_ms ? part->timeout_ms : 20000;
    arm(cur_timeout);
    if (mc_setup) mc_setup();
}

static void count_exec(int r) {
    me->executions++;
    if (r == 3) me->pruned++;
    if (sh->sample_n < 6 && (me->executions == 1 || me->executions == 97)) {
        lock();
        if (sh->sample_n < 6) {
            char *o = sh->sample[sh->sample_n]; int i, n;
            n = snprintf(o, NOTESZ, "%s:", part->name);
            for (i = 0; i < me->len && n < 700; i++) n += snprintf(o + n, NOTESZ - n, " %d/%d", me->choice[i], me->arity[i]);
            snprintf(o + n, 900, " | %s", me->notes);
            sh->sample_n++;
        }
        unlock();
    }
}

/* explore everything below item; resume: current choices are the last tried */
static void explore_item(int resume) {
    int fix, r, st = 0;
    if (!resume) {
        pfx_t *p = &sh->items[me->item];
        memcpy(me->choice, p->c, sizeof p->c); memcpy(me->arity, p->a, sizeof p->a);
        me->len = me->plen = p->len; me->exec_no = 0; fix = p->len;
    } else {
        if (!advance_choices(me, me->plen)) return;
        fix = me->len;
    }
    for (;;) {
        if (sh->stop) _exit(0);
        if (part->isolate) { r = isolated_once(fix, &st); } else r = run_once(fix);
        if (r == 9) {
            if (!me->failed) { snprintf(me->sig, sizeof me->sig, "crash"); snprintf(me->msg, sizeof me->msg, "code under test crashed (status 0x%x)", st); }
            me->failed = 1; r = 1;
        }
        if (r == 1) {
            int k = is_known(me->sig);
            if (k < 0) _exit(71);
            __sync_fetch_and_add(&sh_known[k], 1);
        }
        count_exec(r);
        if ((me->executions & 63) == 0 && now() - t0 > budget) { sh->stop = 2; _exit(0); }
        if (!advance_choices(me, me->plen)) return;
        fix = me->len;
    }
}

static void worker(int id, int resume) {
    proc_init(id); mode = 0;
    if (resume) { count_exec(1); explore_item(1); }
    for (;;) {
        int it = __sync_fetch_and_add(&sh->next_item, 1);
        if (it >= sh->n_items || sh->stop) break;
        me->item = it;
        explore_item(0);
    }
    me->item = -1;
    _exit(0);
}

/* split phase in a child; returns wait status */
static int split_phase(void) {
    pid_t p; int st;
    sh->n_items = 0; sh->next_item = 0;
    p = fork();
    if (p == 0) {
        int fix = 0, r, s2 = 0;
        proc_init(0); mode = 1; me->item = -1; me->plen = 0; me->len = 0;
        for (;;) {
            if (part->isolate) {
                /* run in a child that reports its choices through the shared slot */
                pid_t q = fork();
                if (q == 0) { r = run_once(fix); _exit(r == 1 ? 71 : r == 2 ? 72 : r == 3 ? 73 : 0); }
                while (waitpid(q, &s2, 0) < 0 && errno == EINTR) ;
                if (WIFEXITED(s2) && (WEXITSTATUS(s2) == 77 || WEXITSTATUS(s2) == 78)) _exit(WEXITSTATUS(s2));
            } else r = run_once(fix);
            {
                pfx_t *x = &sh->items[sh->n_items];
                if (sh->n_items >= MAXPFX - 1) _exit(79);
                if (me->len > PFXLEN) {     /* finished or failed beyond prefix size: should not happen */
                    me->len = PFXLEN;
                }
                x->len = me->len;
                memcpy(x->c, me->choice, sizeof(int) * me->len); memcpy(x->a, me->arity, sizeof(int) * me->len);
                sh->n_items++;
            }
            if (!advance_choices(me, 0)) break;
            fix = me->len;
        }
        _exit(0);
    }
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    return st;
}

static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static char replay_path[400];
static void write_replay(slot_t *s) {
    FILE *f; int i; const char *dir = getenv("MC_REPLAY_DIR");
    char clean[64]; int j = 0;
    for (i = 0; part->name[i] && j < 60; i++) clean[j++] = (part->name[i] == '/' || part->name[i] == ' ') ? '_' : part->name[i];
    clean[j] = 0;
    mkdir(dir, 0755);
    snprintf(replay_path, sizeof replay_path, "%s/%s-%s.replay", dir, mc_property, clean);
    f = fopen(replay_path, "w");
    if (!f) return;
    fprintf(f, "property %s\npart %s\ntier %s\nsig %s\nmsg %s\nlen %d\n", mc_property, part->name,
            mc_thorough ? "thorough" : "quick", s->sig, s->msg, s->len);
    for (i = 0; i < s->len; i++) fprintf(f, "%d/%d%c", s->choice[i], s->arity[i], i % 20 == 19 ? '\n' : ' ');
    fprintf(f, "\nnotes\n%s\n", s->notes);
    fclose(f);
}

/* re-run the failing choice vector alone in a fresh process: 1 when it fails again */
static int confirm(slot_t *s, int whole_item) {
    pid_t p; int st;
    static slot_t save; save = *s;
    p = fork();
    if (p == 0) {
        int r = 0;
        proc_init(MAXW - 1);
        cur_timeout = (part->timeout_ms ? part->timeout_ms : 20000) * 3; arm(cur_timeout);
        memcpy(me->choice, save.choice, sizeof save.choice); memcpy(me->arity, save.arity, sizeof save.arity);
        me->item = -2;
        if (!whole_item) {
            mode = 2;
            r = run_once(save.len);
        } else {
            uint64_t n;
            int fix = save.plen;
            mode = 0;
            me->plen = save.plen; me->len = save.plen;
            if (save.item >= 0) { pfx_t *x = &sh->items[save.item];
                memcpy(me->choice, x->c, sizeof x->c); memcpy(me->arity, x->a, sizeof x->a); }
            for (n = 0; n < save.exec_no + 4; n++) {
                r = run_once(fix);
                if (r == 1 && is_known(me->sig) < 0) break;
                if (!advance_choices(me, me->plen)) break;
                fix = me->len;
            }
        }
        _exit(r == 1 ? 71 : 0);
    }
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0)) return 0;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) return 0;
    return 1;
}

static int do_replay(const char *file) {
    FILE *f = fopen(file, "r"); char line[4096], pn[256] = ""; int len = 0, i, st;
    static int c[MAXCH], a[MAXCH];
    pid_t p;
    if (!f) { perror(file); return 2; }
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "part ", 5)) { line[strcspn(line, "\n")] = 0; snprintf(pn, sizeof pn, "%s", line + 5); }
        if (!strncmp(line, "tier thorough", 13)) mc_thorough = 1;
        if (sscanf(line, "len %d", &len) == 1) break;
    }
    for (i = 0; i < len; i++) if (fscanf(f, "%d/%d", &c[i], &a[i]) != 2) { fprintf(stderr, "bad replay\n"); return 2; }
    fclose(f);
    for (part = mc_parts; part->name; part++) if (!strcmp(part->name, pn)) break;
    if (!part->name) { fprintf(stderr, "no part %s\n", pn); return 2; }
    p = fork();
    if (p == 0) {
        int r;
        proc_init(0); cur_timeout = 60000; arm(cur_timeout); mode = 2;
        memcpy(me->choice, c, sizeof c); memcpy(me->arity, a, sizeof a);
        r = run_once(len);
        _exit(r == 1 ? 71 : 0);
    }
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    printf("part %s\n%s\nresult: %s: %s %s (status 0x%x)\n", pn, sh->slot[0].notes,
           WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "no violation" : "VIOLATION", sh->slot[0].sig, sh->slot[0].msg, st);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
}

int main(int argc, char **argv) {
    const char *ev = getenv("MC_EVIDENCE"), *kf = getenv("MC_KNOWN"), *only = NULL, *replay = NULL;
    uint64_t tex = 0, ttr = 0, tpr = 0, tst = 0; int i, viol = 0, capped = 0, err = 0, maxdepth = 0;
    char partbuf[16384] = ""; int pb = 0;
    const char *seed = getenv("VERIF_SEED");
    static char samples[12][NOTESZ]; int ns = 0;

    mc_thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
    if (getenv("MC_WORKERS")) n_workers = atoi(getenv("MC_WORKERS"));
    if (n_workers > MAXW - 1) n_workers = MAXW - 1;
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--part")) only = argv[++i];
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
        else if (!strcmp(argv[i], "--list")) { for (part = mc_parts; part->name; part++) puts(part->name); return 0; }
    }
    if (!getenv("MC_SCRATCH")) {
        char *t = malloc(64); strcpy(t, "/tmp/mcXXXXXX"); setenv("MC_SCRATCH", mkdtemp(t), 1);
    }
    if (!getenv("MC_REPLAY_DIR")) setenv("MC_REPLAY_DIR", "/tmp", 1);
    budget = mc_thorough ? 840 : 600;
    if (getenv("MC_BUDGET")) budget = atof(getenv("MC_BUDGET"));
    t0 = now();
    if (getenv("MC_SPLIT")) split_target = atof(getenv("MC_SPLIT"));
    sh = mmap(NULL, sizeof *sh, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    tab = mmap(NULL, sizeof(uint64_t) << TBITS, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    tableft = mmap(NULL, (size_t)1 << TBITS, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    sh_known = mmap(NULL, sizeof(uint64_t) * MAXKNOWN, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED || tab == MAP_FAILED || tableft == MAP_FAILED) { perror("mmap"); return 2; }
    if (kf && replay == NULL) {
    if (getenv("MC_ALL")) strcpy(known[n_known++], "*");
        /* lines: KNOWN property=<id> sig=<sig> : text */
        FILE *f = fopen(kf, "r"); char line[2048], id[32], sg[256];
        while (f && fgets(line, sizeof line, f))
            if (sscanf(line, "known: property=%31s sig=%255s", id, sg) == 2 && !strcmp(id, mc_property) && n_known < MAXKNOWN)
                strcpy(known[n_known++], sg);
        if (f) fclose(f);
    }
    if (replay) return do_replay(replay);

    for (part = mc_parts; part->name && !viol && !err; part++) {
        int st, alive; double p0 = now();
        mc_part part_iso;
        mc_part *part_orig = part;
again:
        uint64_t ex, tr, pr; int items, md;
        ex = tr = pr = 0; md = 0;
        if (only && strcmp(only, part->name)) continue;
        memset((void *)sh->slot, 0, sizeof sh->slot);
        sh->stop = 0; sh->sample_n = 0; sh->states = 0; sh->n_outcome = 0; memset(sh->outcome_cnt, 0, sizeof sh->outcome_cnt);
        madvise((void *)tab, sizeof(uint64_t) << TBITS, MADV_REMOVE); madvise((void *)tableft, (size_t)1 << TBITS, MADV_REMOVE);
        st = split_phase();
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            slot_t *s = &sh->slot[0];
            if (WIFEXITED(st) && WEXITSTATUS(st) >= 77 && WEXITSTATUS(st) <= 79) {
                fprintf(stderr, "mc: internal error %d in split of %s\n", WEXITSTATUS(st), part->name);
                if (!part->isolate && WEXITSTATUS(st) == 78) { part_iso = *part; part_iso.isolate = 1; part = &part_iso; goto again; }
                err = 1; break;
            }
            if (!s->failed) { snprintf(s->sig, sizeof s->sig, "crash"); snprintf(s->msg, sizeof s->msg, "code under test crashed (status 0x%x)", st); }
            if (!confirm(s, 0)) { err = 1; fprintf(stderr, "mc: crash in split of %s did not reproduce\n", part->name); break; }
            write_replay(s); viol = 1;
            printf("part %s: %s: %s\n%s\n", part->name, s->sig, s->msg, s->notes);
            break;
        }
        items = sh->n_items;
        /* states seen in the split phase do not count as expanded */
        madvise((void *)tab, sizeof(uint64_t) << TBITS, MADV_REMOVE); madvise((void *)tableft, (size_t)1 << TBITS, MADV_REMOVE);
        sh->states = 0; sh->n_outcome = 0; memset(sh->outcome_cnt, 0, sizeof sh->outcome_cnt);
        memset((void *)sh->slot, 0, sizeof sh->slot);
        sh->next_item = 0;
        fflush(NULL);
        alive = 0;
        for (i = 0; i < n_workers && i < items; i++) {
            pid_t p = fork();
            if (p == 0) worker(i, 0);
            sh->slot[i].pid = p; alive++;
        }
        while (alive > 0) {
            pid_t p = waitpid(-1, &st, 0); slot_t *s = NULL;
            if (p < 0) { if (errno == EINTR) continue; break; }
            for (i = 0; i < n_workers; i++) if (sh->slot[i].pid == p) s = &sh->slot[i];
            if (!s) continue;
            alive--;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) >= 77 && WEXITSTATUS(st) <= 79) {
                err = 1; sh->stop = 1; fprintf(stderr, "mc: internal error %d in %s\n", WEXITSTATUS(st), part->name); continue;
            }
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { err = 1; sh->stop = 1; fprintf(stderr, "mc: worker killed in %s\n", part->name); continue; }
            if (viol) continue;
            if (!s->failed) {
                snprintf(s->sig, sizeof s->sig, "crash");
                snprintf(s->msg, sizeof s->msg, "code under test crashed (status 0x%x)", st);
            }
            if (!s->running && s->failed == 0) { err = 1; sh->stop = 1; fprintf(stderr, "mc: worker died outside the body in %s\n", part->name); continue; }
            {
                int k = is_known(s->sig);
                if (k >= 0) {
                    pid_t q;
                    sh_known[k]++;
                    q = fork(); if (q == 0) worker(i = (int)(s - sh->slot), 1);
                    s->pid = q; alive++;
                    continue;
                }
            }
            {
                static slot_t copy; copy = *s;
                if (confirm(&copy, 0) || confirm(&copy, 1)) {
                    sh->stop = 1; viol = 1;
                    write_replay(&copy);
                    printf("part %s: %s: %s\n%s\n", part->name, copy.sig, copy.msg, copy.notes);
                } else if (!strcmp(copy.sig, "hang")) {
                    /* slow machine: finished when run alone; go on from here */
                    pid_t q; q = fork(); if (q == 0) worker((int)(s - sh->slot), 1);
                    s->pid = q; alive++;
                } else {
                    sh->stop = 1; err = 1;
                    fprintf(stderr, "mc: failure in %s did not reproduce: %s: %s\n%s\n", part->name, copy.sig, copy.msg, copy.notes);
                }
            }
        }
        for (i = 0; i < MAXW - 1; i++) {
            ex += sh->slot[i].executions; tr += sh->slot[i].transitions; pr += sh->slot[i].pruned;
            if (sh->slot[i].maxlen > md) md = sh->slot[i].maxlen;
        }
        if (err && !part->isolate) {
            /* executions influenced each other: start over with every execution in a fresh process */
            fprintf(stderr, "mc: %s: retrying with isolated executions\n", part->name);
            part_iso = *part; part_iso.isolate = 1; part = &part_iso; err = 0;
            goto again;
        }
        if (sh->stop == 2) capped = 1;
        printf("  %-28s executions=%llu transitions=%llu states=%llu%s depth=%d items=%d outcomes=%d %.1fs%s\n", part->name,
               (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)sh->states, sh->table_full ? "+" : "",
               md, items, sh->n_outcome, now() - p0, sh->stop == 2 ? " CAPPED" : "");
        if (getenv("MC_VERBOSE")) for (i = 0; i < sh->n_outcome; i++) printf("      %10llu %s\n", (unsigned long long)sh->outcome_cnt[i], sh->outcome[i]);
        fflush(stdout);
        pb += snprintf(partbuf + pb, sizeof partbuf - pb, "%s{\"part\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"abandoned\":%llu,\"max_choices\":%d,\"distinct_outcomes\":%d,\"complete\":%s,\"wall_s\":%.2f}",
               pb ? "," : "", part->name, (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)sh->states, (unsigned long long)pr, md, sh->n_outcome,
               sh->stop ? "false" : "true", now() - p0);
        if (pb > (int)sizeof partbuf - 512) pb = sizeof partbuf - 512;
        tex += ex; ttr += tr; tpr += pr; tst += sh->states;
        if (md > maxdepth) maxdepth = md;
        for (i = 0; i < sh->sample_n && i < 2 && ns < 12; i++) strcpy(samples[ns++], sh->sample[i]);
        if (!viol && !err) part = part_orig;
    }
    for (i = 0; i < n_known; i++)
        if (sh_known[i]) printf("KNOWN-FINDING: property=%s %s (%llu executions)\n", mc_property, known[i], (unsigned long long)sh_known[i]);
    if (ev) {
        FILE *f = fopen(ev, "w");
        if (f) {
            fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"model_checking\",\n\"coverage\":{", mc_property,
                    mc_thorough ? "thorough" : "quick", seed ? atoi(seed) : 0);
            fprintf(f, "\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,\"abandoned_executions\":%llu,\n\"exhaustive\":%s,\"max_choice_depth\":%d,\n",
                    (unsigned long long)tst, (unsigned long long)ttr, (unsigned long long)(tex - tpr), (unsigned long long)tpr,
                    (!capped && !viol && !err) ? "true" : "false", maxdepth);
            fprintf(f, "\"bounds\":"); jstr(f, mc_bounds);
            fprintf(f, ",\n\"parts\":[%s],\n\"samples\":[", partbuf);
            for (i = 0; i < ns; i++) { if (i) fputc(',', f); jstr(f, samples[i]); }
            fprintf(f, "],\n\"known_findings\":[");
            { int first = 1; for (i = 0; i < n_known; i++) if (sh_known[i]) { if (!first) fputc(',', f); first = 0; jstr(f, known[i]); } }
            fprintf(f, "]},\n\"assumptions\":[");
            for (i = 0; mc_assumptions[i]; i++) { if (i) fputc(',', f); jstr(f, mc_assumptions[i]); }
            fprintf(f, "],\n\"wall_s\":%.2f,\"violations\":%d}\n", now() - t0, viol);
            fclose(f);
        }
    }
    if (viol) { printf("VIOLATION property=%s replay=%s\n", mc_property, replay_path); return 1; }
    if (err) return 2;
    return 0;
}
