/*
 * C02 - card hopper and stacker: conservation and order of cards.
 * MC-GROUPS: top device
 * MC-OPT: -O2
 */
#include <stdlib.h>
#include <string.h>
#include "mc.h"
#include "card.h"

uint64_t step_count;
int SYS_RST;
const char *mc_property = "C02";
const char *mc_bounds = "hopper: every sequence of 5 (thorough 6) operations, at most 1 (thorough 3) of them on ~1000 cards, from {load text deck of 2, load binary deck of 3, load a deck of 1001, load a missing file, "
  "add 1/999/1001 blank cards, read a card, read 998 cards, empty}; stacker: every sequence of 5 (thorough 7), after 998..1000 stacked cards of 3 (thorough 5), operations from {stack a text card, stack a binary card,  save to file 1, "
  "save to file 2, save to an impossible path, close, empty}; cards carry serial numbers in their punches and every card is compared with a reference queue";
const char *mc_assumptions[] = {"cards are compared as 80 column images", "save writes the cards not yet written to a file", NULL};

typedef uint16_t image_t[80];
static struct card_context *ctx;
#define QMAX 20000
static int q[QMAX], qh, qt;             /* reference queue of serial numbers, -1 blank */
static int serial;
static char path[4][400];

static void mk_img(int s, image_t im) {
    int i;
    for (i = 0; i < 80; i++) im[i] = 0;
    if (s < 0) return;
    /* digits as text punches */
    for (i = 0; i < 6; i++) { int d = s % 10; s /= 10; im[i] = d == 0 ? 0x200 : 0x200 >> d; }
    im[79] = 0x900;
}
static int text_serial(const char *dst, int n, int first) {
    FILE *f = fopen(dst, "wb"); int i, j;
    for (i = 0; i < n; i++) {
        char l[82]; int s = first + i;
        memset(l, ' ', 80);
        for (j = 0; j < 6; j++) { l[j] = '0' + s % 10; s /= 10; }
        l[79] = 'A'; l[80] = '\n';
        fwrite(l, 1, 81, f);
    }
    fclose(f);
    return n;
}
static void bin_serial(const char *dst, int n, int first) {
    FILE *f = fopen(dst, "wb"); int i, j;
    for (i = 0; i < n; i++) {
        image_t im; unsigned char b[160];
        mk_img(first + i, im);
        for (j = 0; j < 80; j++) { b[2*j] = (im[j] & 0xf) << 4; b[2*j+1] = im[j] >> 4; }
        fwrite(b, 1, 160, f);
    }
    fclose(f);
}
void mc_setup(void) {
    snprintf(path[0], 400, "%s/t2", mc_scratch); text_serial(path[0], 2, 100);
    snprintf(path[1], 400, "%s/b3", mc_scratch); bin_serial(path[1], 3, 200);
    snprintf(path[2], 400, "%s/t1001", mc_scratch); text_serial(path[2], 1001, 1000);
    snprintf(path[3], 400, "%s/missing", mc_scratch);
}
static void push(int s) { if (qt >= QMAX) mc_prune(); q[qt++] = s; }
static void cmp_img(image_t im, int s, const char *what) {
    static image_t tab[4000]; static char have[4000];
    image_t e; int i;
    if (s >= 0 && s < 4000) {
        if (!have[s]) { mk_img(s, tab[s]); have[s] = 1; }
        if (!memcmp(tab[s], im, sizeof e)) return;
    }
    mk_img(s, e);
    for (i = 0; i < 80; i++)
        if (im[i] != e[i]) mc_fail("wrong-card", "%s: column %d is %03x, expected %03x (card #%d)", what, i + 1, im[i], e[i], s);
}
static void read1(void) {
    image_t im; int r;
    memset(im, 0x55, sizeof im);
    mc_step();
    r = read_card(ctx, &im);
    if (qh == qt) { if (r != 0) mc_fail("phantom-card", "read a card from an empty hopper"); return; }
    if (r != 1) mc_fail("lost-card", "hopper reports empty but %d cards are expected", qt - qh);
    cmp_img(im, q[qh++], "read");
}
static void check_size(void) {
    if (hopper_size(ctx) != qt - qh) mc_fail("hopper-count", "hopper holds %d cards, reference %d", hopper_size(ctx), qt - qh);
}
static void freectx(void) {
    struct card_context *c = ctx;
    ctx = NULL;
    close_deck(c); free(c->images); free(c);
}
static void body_hopper(void) {
    int n = mc_thorough ? 6 : 5, i, j, big = mc_thorough ? 3 : 1;
    ctx = init_card_context();
    qh = qt = 0;
    for (i = 0; i < n; i++) {
        int c, nop = big > 0 ? 10 : 6;
        c = mc_choose(nop, "op");
        
        if (c >= 6) big--;
        switch (c) {
        case 0: mc_note(" read"); read1(); break;
        case 1: mc_note(" loadtext2"); ctx->mode = MODE_AUTO; mc_step();
            if (read_deck(ctx, path[0]) != 1) mc_fail("load", "deck did not load");
            for (j = 0; j < 2; j++) push(100 + j); break;
        case 2: mc_note(" loadbin3"); ctx->mode = MODE_BIN; mc_step();
            if (read_deck(ctx, path[1]) != 1) mc_fail("load", "deck did not load");
            for (j = 0; j < 3; j++) push(200 + j); break;
        case 3: mc_note(" blank1"); mc_step(); blank_deck(ctx, 1); push(-1); break;
        case 4: mc_note(" empty"); mc_step(); empty_cards(ctx); qh = qt = 0; break;
        case 6: mc_note(" load1001"); ctx->mode = MODE_TEXT; mc_step();
            if (read_deck(ctx, path[2]) != 1) mc_fail("load", "deck did not load");
            for (j = 0; j < 1001; j++) push(1000 + j); break;
        case 5: mc_note(" loadmissing"); mc_step();
            if (read_deck(ctx, path[3]) != -1) mc_fail("load-missing", "loading a missing file did not fail"); break;
        case 7: mc_note(" blank999"); mc_step(); blank_deck(ctx, 999); for (j = 0; j < 999; j++) push(-1); break;
        case 8: mc_note(" blank1001"); mc_step(); blank_deck(ctx, 1001); for (j = 0; j < 1001; j++) push(-1); break;
        case 9: mc_note(" read998"); for (j = 0; j < 998; j++) read1(); break;
        }
        check_size();
        mc_state(mc_hash_u(mc_hash_u(MC_HASH0, qt - qh), mc_hash(qh, &q[qh], sizeof(int) * (qt - qh))));
    }
    while (qh < qt) read1();
    read1();
    check_size();
    freectx();
    mc_outcome("cards=%d", qt);
}

/* ---- stacker ---- */
static int st[QMAX], st_mode;         /* serials in stacker */
static int n_st, n_written;
static struct { int exists, n, s[QMAX]; } fl[2];
static int openf;

static void wr(void) {
    while (openf >= 0 && n_written < n_st) { fl[openf].s[fl[openf].n++] = st[n_written++]; }
}
static void stack1(int binary) {
    image_t im;
    mk_img(serial, im);
    if (binary) im[40] = 0xfff;       /* not a text punch */
    st[n_st++] = serial | (binary ? 1 << 20 : 0);
    serial++;
    mc_step();
    if (stack_card(ctx, &im) != 0) mc_fail("stack", "card was refused");
    wr();
}
static void check_file(int k) {
    struct card_context *c2; image_t im, e; int i, j;
    char p[420];
    if (!fl[k].exists) return;
    snprintf(p, sizeof p, "%s/out%d", mc_scratch, k);
    c2 = init_card_context(); c2->mode = st_mode == 0 ? MODE_AUTO : MODE_BIN;
    if (fl[k].n == 0) {
        FILE *f = fopen(p, "rb");
        if (!f) mc_fail("file-missing", "saved deck %d does not exist", k);
        if (fgetc(f) != EOF) mc_fail("file-extra", "deck file %d should hold no cards", k);
        fclose(f);
    } else {
        if (read_deck(c2, p) != 1) mc_fail("reload", "saved deck %d does not load", k);
        if (hopper_size(c2) != fl[k].n) mc_fail("saved-count", "file %d: saved %d cards, file holds %d", k, fl[k].n, hopper_size(c2));
        for (i = 0; i < fl[k].n; i++) {
            read_card(c2, &im);
            mk_img(fl[k].s[i] & 0xfffff, e);
            if (fl[k].s[i] >> 20) e[40] = 0xfff;
            if (memcmp(im, e, sizeof e)) for (j = 0; j < 80; j++)
                if (im[j] != e[j]) mc_fail("saved-card", "file %d card %d column %d: %03x, expected %03x", k, i, j + 1, im[j], e[j]);
        }
    }
    close_deck(c2); free(c2->images); free(c2);
}
static void stacker(int n, int prefill) {
    int i, j, r;
    char p[420];
    ctx = init_card_context();
    st_mode = mc_choose(2, "mode");
    ctx->mode = st_mode == 0 ? MODE_AUTO : MODE_BIN;
    n_st = n_written = 0; openf = -1; serial = 1;
    memset(&fl[0].exists, 0, 8); memset(&fl[1].exists, 0, 8);
    for (i = 0; i < 2; i++) { snprintf(p, sizeof p, "%s/out%d", mc_scratch, i); remove(p); }
    if (prefill) { prefill = 998 + mc_choose(3, "prefill"); mc_note(" stack%d", prefill); for (j = 0; j < prefill; j++) stack1(0); }
    for (i = 0; i < n; i++) {
        int c = mc_choose(7, "op");
        switch (c) {
        case 0: mc_note(" stack"); stack1(0); break;
        case 1: mc_note(" stackbin"); stack1(1); break;
        case 2: case 3:
            mc_note(" save%d", c - 2);
            snprintf(p, sizeof p, "%s/out%d", mc_scratch, c - 2);
            mc_step();
            if (save_deck(ctx, p) != 0) mc_fail("save", "save failed");
            openf = c - 2; fl[openf].exists = 1; fl[openf].n = 0; wr(); break;
        case 4: mc_note(" close"); mc_step(); close_deck(ctx); openf = -1; break;
        case 5: mc_note(" empty"); mc_step(); empty_cards(ctx); n_st = n_written = 0; break;
        case 6: mc_note(" savebad"); mc_step();
            snprintf(p, sizeof p, "%s/nodir/x", mc_scratch);
            r = save_deck(ctx, p);
            if (r != -1) mc_fail("save-bad", "saving to an impossible path returned %d", r);
            openf = -1; break;
        }
        if (stack_size(ctx) != n_st) mc_fail("stack-count", "stacker shows %d cards, reference %d", stack_size(ctx), n_st);
        mc_state(mc_hash_u(mc_hash_u(MC_HASH0, n_st * 7 + n_written), (openf + 1) * 100000 + fl[0].n * 3 + fl[1].n));
    }
    close_deck(ctx);
    check_file(0); check_file(1);
    freectx();
    mc_outcome("stacked=%d files=%d,%d", n_st, fl[0].n, fl[1].n);
}
static void body_stacker(void) { stacker(mc_thorough ? 7 : 5, 0); }
static void body_big(void) { stacker(mc_thorough ? 5 : 3, 1); }
mc_part mc_parts[] = { {"hopper", body_hopper}, {"stacker", body_stacker}, {"stacker-1000", body_big}, {NULL} };
