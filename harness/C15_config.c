/*
 * C15 - configuration file: lines mean what they say, devices end up where they are put.
 * MC-GROUPS: top device model1443 model2415
 * MC-OPT: -O2
 * MC-CFLAGS: --param asan-globals=0
 */
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include "mc.h"
#include "conf.h"
#include "device.h"
#include "logger.h"
#include "tape.h"
#include "model1443.h"
#include "model2415.h"

uint64_t step_count;
int SYS_RST;
void model1443_draw(struct _device *u, void *r, int n) { }
void *model1443_control(struct _device *u, int n, int x, int y) { return NULL; }
void model1443_init(struct _device *u, void *r) { }
void model2415_draw(struct _device *u, void *r, int n) { }
void *model2415_control(struct _device *u, int n, int x, int y) { return NULL; }
void model2415_init(struct _device *u, void *r) { }
extern struct _control model_1443, model_2415;
struct _control *volatile keep[] = {&model_1443, &model_2415};
extern char *line_ptr;
extern struct _disk *disk;
void del_chan(struct _device *, uint16_t); void add_disk(void (*)(void *), void *); void del_disk(void *); void step_disk(void);

const char *mc_property = "C15";
const char *mc_bounds = "model: every line of up to 6 (thorough 7) tokens from {letter, letters, digits, '-', '/', blank, tab, '#', '=', ','} read as device word, then as address; option: every line of up to 6 (thorough 7) tokens from "
  "{word, digits, '-', blank, newline, ',', '=', '\"', '#', '/', '.'} read as list of options with every value also read as integer and as index; length: words, addresses, values and quoted values of every length 1..30 and 1000..1030, alone and followed by another option; "
  "file: every configuration file of up to 3 (thorough 4) lines from 15 kinds of lines (with and without newline at the end of the last); registry: every sequence of up to 5 (thorough 6) operations add, delete, find on 4 devices and "
  "6 addresses including channels that don't exist, disks: every sequence of 6 (thorough 7) operations add, delete, step on 3 disks; units: every configuration of up to 3 (thorough 4) lines of real 1443, 2415 and 2415 unit lines; log: every loglevel line of up to 3 (thorough 4) words";
const char *mc_assumptions[] = {"lines are shorter than 1023 characters", "the meaning of words longer than 19 characters, of an unterminated quote and of characters outside of the documented syntax is left open, except that reading them ends and touches nothing else", NULL};

/* ---- reference reader ---- */
typedef struct { int ok, open; char w[64]; int flags, dash, slash; char model; } rmodel;
static int isbl(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
static int endl(char c) { return c == '#' || c == '\0' || c == '\n'; }
static int lead(const char *s) { int v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + *s++ - '0'; return v; }
static const char *r_model(const char *s, rmodel *m) {
    char seg[3][64]; int cur = 0, n[3] = {0, 0, 0}, i;
    memset(m, 0, sizeof *m); memset(seg, 0, sizeof seg);
    while (isbl(*s)) s++;
    if (endl(*s)) return s;
    while (isalnum((unsigned char)*s) || *s == '-' || *s == '/') {
        if (*s == '-') { if (m->flags & 1) { return s; } m->flags |= 1; cur = 1; }
        else if (*s == '/') { if (m->flags & 2) { return s; } m->flags |= 2; cur = 2; }
        else { if (n[cur] >= 19) { m->open = 1; return s; } seg[cur][n[cur]++] = toupper(*s); }
        s++;
    }
    m->ok = 1;
    if (n[0] == 0) m->open = 1;
    for (i = 0; i < n[0] && isdigit((unsigned char)seg[0][i]); i++);
    if (i > 0 && i == n[0] - 1 && isalpha((unsigned char)seg[0][i])) { m->model = seg[0][i]; seg[0][i] = 0; }
    strcpy(m->w, seg[0]);
    if (m->flags & 1) { m->dash = lead(seg[1]); if (n[1] > 9) m->open = 1; }
    if (m->flags & 2) { m->slash = lead(seg[2]); if (n[2] > 9) m->open = 1; }
    return s;
}
static const char *r_addr(const char *s, int *ok, int *addr, int *open) {
    int n = 0; *addr = 0; *ok = 0;
    while (isbl(*s)) s++;
    if (endl(*s)) return s;
    for (; isxdigit((unsigned char)*s); s++, n++) *addr = *addr * 16 + (isdigit((unsigned char)*s) ? *s - '0' : toupper(*s) - 'A' + 10), *addr &= 0xfffffff;
    if (n > 4) *open = 1;
    *ok = n > 0;
    return s;
}
typedef struct { int ok, open, flags; char w[64]; char v[1400]; } ropt;
static const char *r_opt(const char *s, ropt *o) {
    int n = 0; memset(o, 0, sizeof *o);
    while (isbl(*s) || *s == ',') s++;
    if (endl(*s)) return s;
    while (isalnum((unsigned char)*s) || *s == '-') { if (n >= 19) { o->open = 1; return s; } o->w[n++] = toupper(*s++); }
    o->ok = 1;
    if (n == 0) { o->open = 1; return s; }
    if (*s != '=') return s;
    s++;
    while (isbl(*s)) s++;
    if (endl(*s)) { o->open = 1; return s; }          /* '=' without a value */
    o->flags = 1; n = 0;
    if (*s == '"') {
        s++;
        for (;;) {
            if (*s == 0 || *s == '\n') { o->open = 1; return s; }
            if (*s == '"') {
                if (s[1] == '"') { o->v[n++] = '"'; s += 2; continue; }
                s++;
                if (!(isbl(*s) || *s == ',' || *s == 0)) o->open = 1;
                break;
            }
            if (n >= 1022) { o->open = 1; return s; }
            o->v[n++] = *s++;
        }
    } else {
        while (!(isbl(*s) || *s == ',' || *s == 0)) {
            if (*s == '"' || *s == '#' || n >= 1022) o->open = 1;
            if (n < 1300) o->v[n++] = toupper(*s);
            s++;
        }
        if (n == 0) o->open = 1;
    }
    return s;
}
/* the line in a buffer of exactly its own size */
static char *put(const char *s) { char *p = malloc(strlen(s) + 1); strcpy(p, s); line_ptr = p; return p; }
static const char *esc(const char *s) {
    static char b[400]; int n = 0;
    for (; *s && n < 380; s++) if (*s == '\n') { b[n++] = '\\'; b[n++] = 'n'; } else if (*s == '\t') { b[n++] = '\\'; b[n++] = 't'; } else b[n++] = *s;
    b[n] = 0; return b;
}
static char *idx[] = {"AB", "7", "X", NULL};
static int term(const char *p, int n) { int i; for (i = 0; i < n; i++) if (!p[i]) return 1; return 0; }
static uint64_t h;
/* read the options of the line from where line_ptr is; s is the same place for the reference */
static void chk_opts(const char *s, const char *line, int open) {
    struct _option *o = malloc(sizeof *o); ropt r; int k, max = strlen(line) + 1, v, g;
    memset(o, 0x5a, sizeof *o);
    for (k = 0; ; k++) {
        mc_step();
        if (k > max) mc_fail("option-hang", "reading the options of '%s' does not end", esc(line));
        g = get_option(o);
        if (!g) { if (!open) { r_opt(s, &r); if (r.ok && !r.open) mc_fail("option-lost", "'%s': option %s not seen", esc(line), r.w); } break; }
        if (!term(o->opt, sizeof o->opt)) mc_fail("option-overrun", "'%s': option name not ended within its field", esc(line));
        if (!term(o->string, sizeof o->string)) mc_fail("value-overrun", "'%s': value not ended within its field", esc(line));
        if (open) continue;
        s = r_opt(s, &r);
        if (r.open) { open = 1; continue; }
        if (!r.ok) mc_fail("option-extra", "'%s': option %s out of nothing", esc(line), o->opt);
        if (strcmp(o->opt, r.w)) mc_fail("option-name", "'%s': option %s, expected %s", esc(line), o->opt, r.w);
        if (o->flags != r.flags) mc_fail("option-flag", "'%s': option %s value flag %d, expected %d", esc(line), r.w, o->flags, r.flags);
        if (strcmp(o->string, r.v)) mc_fail("option-value", "'%s': option %s value '%s', expected '%s'", esc(line), r.w, o->string, r.v);
        h = mc_hash(mc_hash(h, r.w, strlen(r.w)), r.v, strlen(r.v));
        {   /* as a number, and as one of a list */
            int num = strlen(r.v) > 0 && strlen(r.v) < 10, i, e = -1; const char *p;
            for (p = r.v; *p; p++) if (!isdigit((unsigned char)*p)) num = 0;
            if (strlen(r.v) < 10) {
                v = 12345; g = get_integer(o, &v);
                if (g != num) mc_fail("integer", "'%s': value '%s' as a number %s", esc(line), r.v, g ? "accepted" : "refused");
                if (num && v != lead(r.v)) mc_fail("integer-value", "'%s': value '%s' read as %d", esc(line), r.v, v);
            }
            for (i = 0; idx[i]; i++) if (!strcmp(idx[i], r.v)) e = i;
            g = get_index(o, idx);
            if (g != e) mc_fail("index", "'%s': value '%s' is choice %d, expected %d", esc(line), r.v, g, e);
        }
    }
    free(o);
}
static void body_model(void) {
    static const char *tok[] = {"x", "Ab", "7", "24", "-", "/", " ", "\t", "#", "=", ","};
    char s[64] = ""; int n = mc_thorough ? 7 : 6, i, c, aok, addr, open = 0;
    struct _option *o = malloc(sizeof *o); rmodel m; char *p; const char *q;
    for (i = 0; i < n; i++) { c = mc_choose(12, "token"); if (c == 11) break; strcat(s, tok[c]); }
    mc_note(" line '%s'", esc(s));
    p = put(s); memset(o, 0x5a, sizeof *o);
    q = r_model(s, &m);
    mc_step();
    c = get_model(o);
    h = MC_HASH0;
    if (m.open) { if (c && !term(o->opt, 20)) mc_fail("model-overrun", "'%s'", esc(s)); goto addr; }
    if (c != m.ok) mc_fail("model-found", "'%s': device word %s, expected %s", esc(s), c ? "accepted" : "none", m.ok ? "accepted" : "none");
    if (c) {
        if (!term(o->opt, 20)) mc_fail("model-overrun", "'%s'", esc(s));
        if (strcmp(o->opt, m.w)) mc_fail("model-word", "'%s': device word %s, expected %s", esc(s), o->opt, m.w);
        if (o->model != m.model) mc_fail("model-letter", "'%s': model letter %d, expected %d", esc(s), o->model, m.model);
        if (o->flags != m.flags) mc_fail("model-flags", "'%s': flags %d, expected %d", esc(s), o->flags, m.flags);
        if ((m.flags & 1) && o->dash_num != m.dash) mc_fail("model-dash", "'%s': -%d, expected %d", esc(s), o->dash_num, m.dash);
        if ((m.flags & 2) && o->slash_num != m.slash) mc_fail("model-slash", "'%s': /%d, expected %d", esc(s), o->slash_num, m.slash);
        h = mc_hash(h, &m, sizeof m);
    }
    if (c) chk_opts(q, s, 0);
addr:
    free(p); p = put(s);
    r_addr(s, &aok, &addr, &open);
    mc_step();
    c = get_addr(o);
    if (c != aok) mc_fail("addr-found", "'%s': address %s", esc(s), c ? "accepted" : "not seen");
    if (c && !open && o->addr != addr) mc_fail("addr", "'%s': address %x, expected %x", esc(s), o->addr, addr);
    free(p); free(o);
    mc_state(mc_hash_u(h, addr));
    mc_outcome("model %d %d %d addr %d", m.ok, m.open, m.flags, aok);
}
static void body_option(void) {
    static const char *tok[] = {"ab", "X", "7", "-", " ", "\n", ",", "=", "\"", "#", "/", "."};
    char s[64] = ""; int n = mc_thorough ? 7 : 6, i, c, nl = 0; char *p;
    for (i = 0; i < n; i++) {
        c = mc_choose(13, "token"); if (c == 12) break;
        if (nl) mc_prune();                 /* a newline is the last character of a line */
        strcat(s, tok[c]); nl = c == 5;
    }
    mc_note(" line '%s'", esc(s));
    p = put(s); h = MC_HASH0;
    chk_opts(s, s, 0);
    free(p);
    mc_state(h);
    mc_outcome("option %d", i);
}
/* words and values of all lengths around the sizes of the fields */
static void body_length(void) {
    int kind = mc_choose(7, "kind"), c = mc_choose(61, "length"), len = c < 30 ? c + 1 : 970 + c, after = mc_choose(3, "after"), i, aok, addr, open = 0;
    char s[2400] = "", *p; struct _option *o = malloc(sizeof *o); rmodel m; const char *q;
    static const char *pre[] = {"", "24", "a-", "a/", "x=", "x=\"", ""};
    strcpy(s, pre[kind]);
    p = s + strlen(s);
    for (i = 0; i < len; i++) *p++ = kind <= 1 ? 'a' + i % 6 : kind <= 3 ? '1' : kind == 6 ? 'a' + i % 6 : 'c' + i % 20;
    if (kind == 5) { *p++ = '"'; }
    *p = 0;
    if (after == 1) strcat(s, " rest=7"); else if (after == 2) strcat(s, "\n");
    mc_note(" kind %d length %d after %d", kind, len, after);
    p = put(s); memset(o, 0x5a, sizeof *o); h = MC_HASH0;
    if (kind <= 3) {
        q = r_model(s, &m);
        mc_step();
        c = get_model(o);
        if (c && !term(o->opt, 20)) mc_fail("model-overrun", "device word of %d characters runs over its field", len);
        if (!m.open) {
            if (c != 1 || strcmp(o->opt, m.w) || o->model != m.model || o->flags != m.flags || ((m.flags & 1) && o->dash_num != m.dash) || ((m.flags & 2) && o->slash_num != m.slash))
                mc_fail("model-long", "device word of %d characters read wrong", len);
            chk_opts(q, s, 0);
        } else if (c) chk_opts(s, s, 1);
    } else if (kind <= 5) chk_opts(s, s, 0);
    else {
        r_addr(s, &aok, &addr, &open);
        mc_step();
        c = get_addr(o);
        if (!open && (c != 1 || o->addr != addr)) mc_fail("addr-long", "address of %d digits read wrong", len);
    }
    free(p); free(o);
    mc_state(mc_hash_u(h, kind * 4000 + len * 3 + after));
    mc_outcome("length kind %d", kind);
}
/* ---- files ---- */
static char rec[4000];
/* the messages of the reader are of no interest, and there are millions of them */
void mc_setup(void) { FILE *n = fopen("/dev/null", "w"); if (n) stderr = n; }
static int t_create(char kind, struct _option *o, int addr) {
    struct _option opts; char b[1400]; int k = 0, r = 1;
    snprintf(b, sizeof b, "%c:%s:%c:%d", kind, o->opt, o->model ? o->model : '.', o->flags);
    strcat(rec, b);
    if (o->flags & 1) { snprintf(b, sizeof b, "-%d", o->dash_num); strcat(rec, b); }
    if (o->flags & 2) { snprintf(b, sizeof b, "/%d", o->slash_num); strcat(rec, b); }
    if (addr) { snprintf(b, sizeof b, "@%x", o->addr); strcat(rec, b); }
    while (get_option(&opts)) {
        if (++k > 300) mc_fail("file-hang", "reading the options of a line does not end");
        snprintf(b, sizeof b, " %s%s%s", opts.opt, opts.flags ? "=" : "", opts.flags ? opts.string : ""); strcat(rec, b);
        if (!strcmp(opts.opt, "BAD")) { r = 0; break; }
    }
    strcat(rec, ";");
    return r;
}
int model9030_create(struct _option *o) { return t_create('c', o, 0); }
int model9415_create(struct _option *o) { return t_create('t', o, 1); }
int model9442_create(struct _option *o) { return t_create('d', o, 1); }
int model9314_create(struct _option *o) { return t_create('u', o, 1); }
int logTEST_create(struct _option *o) { return t_create('l', o, 0); }
DEV_LIST_STRUCT(9030, CPU_TYPE, CHAR_OPT|NUM_MOD);
DEV_LIST_STRUCT(9415, CTRL_TYPE, CHAR_OPT|NUM_MOD);
DEV_LIST_STRUCT(9442, DEV_TYPE, 0);
DEV_LIST_STRUCT(9314, UNIT_TYPE, 0);
LOG_OPT_STRUCT(TEST);
static struct { const char *text, *rec; int ret; } menu[] = {
    {"# 9442 00a", "", 1}, {"", "", 1}, {"  \t # x", "", 1},
    {"9030F/1 port=9", "c:9030:F:2/1 PORT=9;", 1}, {"9030", "c:9030:.:0;", 1},
    {"9415-6   0c0", "t:9415:.:1-6@c0;", 1}, {"9415u 0C1 file=\"a b\" ring", "t:9415:U:0@c1 FILE=a b RING;", 1},
    {"9415 1c8,x=1,y", "t:9415:.:0@1c8 X=1 Y;", 1}, {"9442 \t00a format=auto # rest of line", "d:9442:.:0@a FORMAT=AUTO;", 1},
    {"9314 1a0 file=\"q # \"\"r\"\"\" new", "u:9314:.:0@1a0 FILE=q # \"r\" NEW;", 1},
    {"logtest one, two three", "l:LOGTEST:.:0 ONE TWO THREE;", 1},
    {"8888 00b zz", "", 1}, {"9442", "", 0}, {"9442 # 00a", "", 0}, {"9442 00b x bad y", "d:9442:.:0@b X BAD;", 0},
};
#define NMENU ((int)(sizeof menu / sizeof menu[0]))
static void body_file(void) {
    int n = mc_thorough ? 4 : 3, i, c, ret = 1, eol, cut = 0; char p[420], want[4000] = ""; FILE *f;
    snprintf(p, sizeof p, "%s/cfg", mc_scratch);
    f = fopen(p, "wb");
    eol = mc_choose(3, "eol");             /* \n, \r\n, none at the end */
    for (i = 0; i < n; i++) {
        c = mc_choose(NMENU + 1, "line"); if (c == NMENU) break;
        if (i && eol == 2) fputs("\n", f);
        fputs(menu[c].text, f); if (eol != 2) fputs(eol == 1 ? "\r\n" : "\n", f);
        mc_note(" '%s'", menu[c].text);
        if (!cut) { strcat(want, menu[c].rec); if (!menu[c].ret) { ret = 0; cut = 1; } }
    }
    fclose(f);
    rec[0] = 0; mc_step();
    c = load_config(p);
    remove(p);
    if (c != ret) mc_fail("file-result", "configuration %s, expected %s", c ? "accepted" : "refused", ret ? "accepted" : "refused");
    if (strcmp(rec, want)) mc_fail("file-devices", "read as %s expected %s", rec, want);
    mc_state(mc_hash(MC_HASH0, rec, strlen(rec)));
    mc_outcome("file lines=%d ret=%d", i, ret);
}
/* one line, as tests and tools hand it over */
static void body_lines(void) {
    int i, c, r; char *p;
    for (i = 0; i < 2; i++) {
        c = mc_choose(NMENU, "line"); mc_note(" '%s'", menu[c].text);
        p = malloc(strlen(menu[c].text) + 1); strcpy(p, menu[c].text);
        rec[0] = 0; mc_step();
        r = load_line(p);
        if (r != menu[c].ret) mc_fail("line-result", "'%s' %s", menu[c].text, r ? "accepted" : "refused");
        if (strcmp(rec, menu[c].rec)) mc_fail("line-device", "'%s' read as %s expected %s", menu[c].text, rec, menu[c].rec);
        free(p);
    }
    mc_state(c); mc_outcome("line %d", r);
}
static void body_missing(void) {
    char p[420]; snprintf(p, sizeof p, "%s/none", mc_scratch); mc_step();
    if (load_config(p) != 0) mc_fail("file-missing", "missing configuration file accepted");
    mc_state(1); mc_outcome("missing");
}
/* ---- device lists ---- */
static void clear(void) { int i; for (i = 0; i < 6; i++) chan[i] = NULL; disk = NULL; }
static void body_registry(void) {
    static const uint16_t ad[] = {0x00a, 0x00b, 0x1c0, 0x1c5, 0x5ff, 0x7c0};
    static struct _device d[4]; int n = mc_thorough ? 6 : 5, i, j, k, c; int on[4] = {-1, -1, -1, -1};
    int l[6][4], ln[6] = {0}; struct _device *p;
    /* what lies behind the channel table, in the struct the linker put there, must not change: the table is copied whole */
    clear(); memset(d, 0, sizeof d);
    for (i = 0; i < n; i++) {
        c = mc_choose(4 * 6 + 4 + 1, "op");
        if (c == 28) break;
        mc_step();
        if (c < 24) {
            int dv = c / 6, a = ad[c % 6], ch = a >> 8;
            if (on[dv] >= 0) mc_prune();
            mc_note(" add%d@%x", dv, a);
            add_chan(&d[dv], a);
            if (ch < 6) { l[ch][ln[ch]++] = dv; on[dv] = a; }
        } else {
            int dv = c - 24, a = on[dv];
            mc_note(" del%d", dv);
            del_chan(&d[dv], a >= 0 ? a : 0x00a);
            if (a >= 0) {
                int ch = a >> 8;
                for (j = 0; l[ch][j] != dv; j++);
                for (; j + 1 < ln[ch]; j++) l[ch][j] = l[ch][j + 1];
                ln[ch]--; on[dv] = -1;
            }
        }
        for (j = 0; j < 6; j++) {
            for (p = chan[j], k = 0; p; p = p->next, k++) {
                if (k >= ln[j]) mc_fail("list-extra", "channel %d has more than %d devices", j, ln[j]);
                if (p != &d[l[j][k]]) mc_fail("list-order", "channel %d device %d is not the one added", j, k);
                if (p->addr != on[l[j][k]]) mc_fail("list-addr", "device address %x, added at %x", p->addr, on[l[j][k]]);
            }
            if (k != ln[j]) mc_fail("list-lost", "channel %d has %d devices, expected %d", j, k, ln[j]);
        }
        for (j = 0; j < 6; j++) {
            static const uint16_t mk[] = {0xff, 0xf8, 0xff0};
            for (k = 0; k < 3; k++) {
                int ch = ad[j] >> 8, q; struct _device *e = NULL;
                if (ch < 6) for (q = 0; q < ln[ch] && !e; q++) if ((on[l[ch][q]] & mk[k]) == (ad[j] & mk[k])) e = &d[l[ch][q]];
                p = find_chan(ad[j], mk[k]);
                if (p != e) mc_fail("find", "device at %x mask %x: %s", ad[j], mk[k], p ? e ? "another one found" : "found one that is not there" : "not found");
            }
        }
        {
            uint64_t s = MC_HASH0; for (j = 0; j < 4; j++) s = mc_hash_u(s, on[j]);
            for (j = 0; j < 6; j++) s = mc_hash(s, l[j], ln[j] * sizeof(int));
            mc_state(s);
        }
    }
    clear();
    mc_outcome("registry %d", i);
}
static int dn[3]; static int dseq[20], ndseq;
static void stepfn(void *p) { int *q = p; (*q)++; if (ndseq < 20) dseq[ndseq++] = q - dn; }
static void body_disks(void) {
    int n = mc_thorough ? 7 : 6, i, j, c, present[3] = {0}; 
    clear();
    for (i = 0; i < n; i++) {
        c = mc_choose(7, "op"); mc_step();
        if (c < 3) { if (present[c]) mc_prune(); mc_note(" add%d", c); add_disk(stepfn, &dn[c]); present[c] = 1; }
        else if (c < 6) { mc_note(" del%d", c - 3); del_disk(&dn[c - 3]); present[c - 3] = 0; }
        else {
            mc_note(" step"); dn[0] = dn[1] = dn[2] = 0; ndseq = 0;
            step_disk();
            for (j = 0; j < 3; j++) if (dn[j] != present[j]) mc_fail("disk-step", "disk %d stepped %d times, expected %d", j, dn[j], present[j]);
        }
        mc_state(present[0] + present[1] * 2 + present[2] * 4);
    }
    mc_outcome("disks %d%d%d", present[0], present[1], present[2]);
}
/* ---- the devices themselves ---- */
static const char *udir;
static struct { const char *text; int kind, addr, arg; } um[] = {
    /* kind 1 printer, 2 tape controller with arg units, 3 tape unit (arg: bit0 ring, bit1 7 track, bit2 attached, bits 4.. format), 4 refused */
    {"1443 00b", 1, 0x00b, 0}, {"1443 10e", 1, 0x10e, 0}, {"1443 00b nothing", 4, 0, 0},
    {"2415-6 0c0", 2, 0x0c0, 6}, {"2415-1 1c0", 2, 0x1c0, 2}, {"2415 0c0", 2, 0x0c0, 6}, {"2415-5 0c8 7track", 2, 0x0c8, 4},
    {"2415u 0c0", 3, 0x0c0, 0}, {"2415u 0c1 file=\"%s/t1\" format=e11 ring", 3, 0x0c1, 1 | 4 | 16}, {"2415u 0c5 file=\"%s/t1\" format=P7B 7track,noring 800", 3, 0x0c5, 2 | 4 | 32 | 8},
    {"2415u 1c1 file=\"%s/t1\" ring", 3, 0x1c1, 1 | 4}, {"2415u 0c1 file=\"%s/none\" noring", 3, 0x0c1, 0}, {"2415u 0c1 what", 4, 0, 0}, {"2415u 0c2 format=nine", 4, 0, 0}, {"2415u 0c2 format", 4, 0, 0},
};
#define NUM ((int)(sizeof um / sizeof um[0]))
typedef struct { int kind, addr, units; struct { int on, arg; } u[8]; } rdev;
static void body_units(void) {
    int n = mc_thorough ? 4 : 3, i, j, c, nd = 0, k, ok = 1; rdev r[8]; char s[500], p[420]; struct _device *d;
    FILE *f; char *line;
    clear(); memset(r, 0, sizeof r);
    udir = mc_scratch; snprintf(p, sizeof p, "%s/t1", udir); f = fopen(p, "wb"); fwrite("\1\0\0\0A\0\1\0\0\0\0\0\0\0", 1, 14, f); fclose(f);
    for (i = 0; i < n && ok; i++) {
        int e;
        c = mc_choose(NUM + 1, "line"); if (c == NUM) break;
        snprintf(s, sizeof s, um[c].text, udir);
        mc_note(" '%s'", um[c].text);
        e = um[c].kind != 4;
        if (c >= 12) for (j = 0; j < nd; j++) if (r[j].kind == 2 && r[j].addr == 0x0c0 && (r[j].u[1].on || r[j].u[2].on)) mc_prune();
        if (um[c].kind == 1 || um[c].kind == 2) {
            for (j = 0; j < nd; j++) if (r[j].addr == um[c].addr) mc_prune();       /* one device for an address */
            r[nd].kind = um[c].kind; r[nd].addr = um[c].addr; r[nd].units = um[c].kind == 1 ? 1 : um[c].arg; nd++;
        } else if (um[c].kind == 3) {
            for (j = 0; j < nd && !(r[j].kind == 2 && (r[j].addr & 0xff8) == (um[c].addr & 0xff8)); j++);
            if (j == nd) e = 0;             /* no controller */
            else {
                k = um[c].addr & 7; if (r[j].u[k].on) mc_prune();
                if (k >= r[j].units) mc_prune();
                r[j].u[k].on = 1; r[j].u[k].arg = um[c].arg;
            }
        }
        line = malloc(strlen(s) + 1); strcpy(line, s); mc_step();
        if (load_line(line) != e) mc_fail("unit-result", "'%s' %s", s, e ? "refused" : "accepted");
        free(line);
        ok = e;                             /* the simulator ends at the first error */
    }
    for (j = 0; j < 6; j++) {
        d = chan[j];
        for (k = 0; k < nd; k++) {
            int q;
            if (r[k].addr >> 8 != j) continue;
            if (d == NULL) mc_fail("unit-missing", "no device for %03x on channel %d", r[k].addr, j);
            if (d->addr != r[k].addr || strcmp(d->type_name, r[k].kind == 1 ? "1443" : "2415") || d->n_units != r[k].units)
                mc_fail("unit-device", "device %s at %03x with %d units, expected %s at %03x with %d", d->type_name, d->addr, d->n_units, r[k].kind == 1 ? "1443" : "2415", r[k].addr, r[k].units);
            if (d->bus_func == NULL || d->dev == NULL) mc_fail("unit-func", "device %03x has no function", d->addr);
            if (r[k].kind == 2) for (q = 0; q < 8; q++) {
                struct _2415_context *x = d->dev; struct _tape_buffer *t = q < (int)(sizeof x->tape / sizeof x->tape[0]) ? x->tape[q] : NULL; int a = r[k].u[q].arg;
                if ((t != NULL) != r[k].u[q].on) mc_fail("unit-drive", "drive %d of %03x %s", q, d->addr, t ? "there though not configured" : "missing");
                if (!t) continue;
                if (tape_ready(t) != !!(a & 4)) mc_fail("unit-ready", "drive %d ready %d", q, tape_ready(t));
                if (tape_9_track(t) != !(a & 2)) mc_fail("unit-track", "drive %d 9 track %d", q, tape_9_track(t));
                if ((a & 4) && tape_ring(t) != (a & 1)) mc_fail("unit-ring", "drive %d ring %d, expected %d", q, tape_ring(t), a & 1);
                if ((a & 4) && (t->format & TAPE_FMT) != a >> 4) mc_fail("unit-format", "drive %d format %d, expected %d", q, t->format & TAPE_FMT, a >> 4);
                if ((a & 4) && !(t->format & DEN_1600) != !!(a & 8)) mc_fail("unit-density", "drive %d density", q);
            }
            d = d->next;
        }
        if (d) mc_fail("unit-extra", "device %s at %03x was not configured", d->type_name, d->addr);
    }
    for (j = 0; j < 6; j++) for (d = chan[j]; d; d = d->next) if (d->dev && !strcmp(d->type_name, "2415")) {
        struct _2415_context *x = d->dev; for (k = 0; k < 6; k++) if (x->tape[k]) { tape_detach(x->tape[k]); free(x->tape[k]); }
    }
    clear();
    mc_state(mc_hash(MC_HASH0, r, sizeof r)); mc_outcome("units %d ok=%d", nd, ok);
}
static void body_log(void) {
    static struct { const char *w; int m; } lw[] = {{"info", LOG_INFO}, {"WARN", LOG_WARN}, {"error", LOG_ERROR}, {"Trace", LOG_TRACE}, {"itrace", LOG_ITRACE}, {"micro", LOG_MICRO},
        {"reg", LOG_REG}, {"mem", LOG_MEM}, {"mpxchn", LOG_MPXCHN}, {"selchn", LOG_SELCHN}, {"device", LOG_DEVICE}, {"console", LOG_CONSOLE}, {"tape", LOG_TAPE}, {"disk", LOG_DISK},
        {"card", LOG_CARD}, {"dmicro", LOG_DMICRO}, {"dreg", LOG_DREG}, {"event", LOG_EVENT}, {"freg", LOG_FREG}, {"bogus", 0}, {"info=1", 0}, {"%n", 0}};
    int n = mc_thorough ? 4 : 3, i, c, m = 0, r = 1, sep = mc_choose(3, "separator"); char s[200] = "loglevel"; char *p;
    log_level = 0;
    for (i = 0; i < n; i++) {
        c = mc_choose(23, "word"); if (c == 22) break;
        strcat(s, i == 0 ? " " : sep == 0 ? " " : sep == 1 ? "," : " , "); strcat(s, lw[c].w);
        m |= lw[c].m; if (!lw[c].m) r = 0;
    }
    mc_note(" '%s'", s);
    p = malloc(strlen(s) + 1); strcpy(p, s); mc_step();
    c = load_line(p); free(p);
    if (c != r) mc_fail("log-result", "'%s' %s", s, c ? "accepted" : "refused");
    if (log_level != m) mc_fail("log-level", "'%s' sets %x, expected %x", s, log_level, m);
    mc_state(m); mc_outcome("log %d", r); log_level = 0;
}
mc_part mc_parts[] = { {"model", body_model, 0, 2000}, {"option", body_option, 0, 2000}, {"length", body_length, 0, 2000}, {"file", body_file, 0, 2000}, {"lines", body_lines}, {"missing", body_missing},
    {"registry", body_registry}, {"disks", body_disks}, {"units", body_units, 0, 2000}, {"log", body_log, 0, 2000}, {NULL} };
