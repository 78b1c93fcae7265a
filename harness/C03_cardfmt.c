/*
 * C03 - card formats: loading a file and saving it again are faithful.
 * MC-GROUPS: top device
 * MC-OPT: -O2
 */
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include "mc.h"
#include "card.h"

uint64_t step_count;
int SYS_RST;
const char *mc_property = "C03";
const char *mc_bounds = "codes: all 256 EBCDIC codes, all 4096 column punches, all 95 printable ASCII characters; "
  "roundtrip: 5 formats x all 4096 punches x 4 columns x 3 backgrounds, each followed by a second card; pair: 24x24 punches at 79 column positions x 5 formats; "
  "text: all token strings up to length 6 (thorough 7) over {A,z,~,space,tab,newline,CRLF,0x80,0} plus 7 special prefixes and lines of 78..82 characters followed by up to 3 tokens; "
  "binary/ebcdic: every byte value in 4 byte positions, all record lengths 1..161 of the last record; refill: all line lengths 1..81 x first line lengths 0..80 in decks larger than two read buffers; many: decks of up to 630 cards in 4 formats saved and read back; mixed: one text line of every length followed by 420 (thorough 560) column binary cards";
const char *mc_assumptions[] = {"the documented heuristic (160 bytes whose even bytes have a zero low nibble are column binary) is taken as specified",
  "cards whose first column is a tilde are not required to survive text formats (documented escape)",
  "a carriage return only occurs before a newline", NULL};

typedef uint16_t image_t[80];
static char path[400];
void mc_setup(void) { snprintf(path, sizeof path, "%s/deck", mc_scratch); }

/* IBM 029 key punch graphics */
static int ref_hol(int c) {
    static const struct { char c; uint16_t h; } sp[] = {
        {' ', 0}, {'&', 0x800}, {'-', 0x400}, {'/', 0x300}, {'.', 0x842}, {'<', 0x822}, {'(', 0x812}, {'+', 0x80a}, {'|', 0x806},
        {'!', 0x482}, {'$', 0x442}, {'*', 0x422}, {')', 0x412}, {';', 0x40a}, {'^', 0x406}, {',', 0x242}, {'%', 0x222}, {'_', 0x212},
        {'>', 0x20a}, {'?', 0x206}, {':', 0x082}, {'#', 0x042}, {'@', 0x022}, {'\'', 0x012}, {'=', 0x00a}, {'"', 0x006}, {0, 0} };
    int i;
    if (c >= '0' && c <= '9') return 0x200 >> (c - '0');
    if (c >= 'A' && c <= 'I') return 0x800 | (0x100 >> (c - 'A'));
    if (c >= 'J' && c <= 'R') return 0x400 | (0x100 >> (c - 'J'));
    if (c >= 'S' && c <= 'Z') return 0x200 | (0x080 >> (c - 'S'));
    if (c >= 'a' && c <= 'i') return 0xa00 | (0x100 >> (c - 'a'));
    if (c >= 'j' && c <= 'r') return 0xc00 | (0x100 >> (c - 'j'));
    if (c >= 's' && c <= 'z') return 0x600 | (0x080 >> (c - 's'));
    for (i = 0; sp[i].c; i++) if (sp[i].c == c) return sp[i].h;
    return -1;
}
static int ref_ebc(int c) {     /* EBCDIC code of the graphic */
    static const struct { char c; uint8_t e; } sp[] = {
        {' ', 0x40}, {'&', 0x50}, {'-', 0x60}, {'/', 0x61}, {'.', 0x4b}, {'<', 0x4c}, {'(', 0x4d}, {'+', 0x4e}, {'|', 0x4f},
        {'!', 0x5a}, {'$', 0x5b}, {'*', 0x5c}, {')', 0x5d}, {';', 0x5e}, {'^', 0x5f}, {',', 0x6b}, {'%', 0x6c}, {'_', 0x6d},
        {'>', 0x6e}, {'?', 0x6f}, {':', 0x7a}, {'#', 0x7b}, {'@', 0x7c}, {'\'', 0x7d}, {'=', 0x7e}, {'"', 0x7f}, {0, 0} };
    int i;
    if (c >= '0' && c <= '9') return 0xf0 + c - '0';
    if (c >= 'A' && c <= 'I') return 0xc1 + c - 'A';
    if (c >= 'J' && c <= 'R') return 0xd1 + c - 'J';
    if (c >= 'S' && c <= 'Z') return 0xe2 + c - 'S';
    if (c >= 'a' && c <= 'i') return 0x81 + c - 'a';
    if (c >= 'j' && c <= 'r') return 0x91 + c - 'j';
    if (c >= 's' && c <= 'z') return 0xa2 + c - 's';
    for (i = 0; sp[i].c; i++) if (sp[i].c == c) return sp[i].e;
    return -1;
}
static void drop(struct card_context *c) { close_deck(c); free(c->images); free(c); }

static void put_file(const void *p, size_t n) {
    FILE *f = fopen(path, "wb");
    if (!f || fwrite(p, 1, n, f) != n) { fprintf(stderr, "mc: scratch write failed\n"); exit(77); }
    fclose(f);
}
static size_t get_file(unsigned char *p, size_t max) {
    FILE *f = fopen(path, "rb"); size_t n;
    if (!f) mc_fail("no-file", "saved deck is missing");
    n = fread(p, 1, max, f); fclose(f); return n;
}
static int looks_binary(const unsigned char *p, size_t n) {
    int i, t = 0;
    if (n < 159) return 0;      /* the loop of the documented test needs 160 bytes */
    for (i = 0; i < 160 && i < (int)n; i += 2) t |= p[i];
    return (t & 0xf) == 0;
}

static void body_codes(void) {
    int c = mc_choose(4, "table"), i;
    drop(init_card_context());
    mc_step();
    if (c == 0) {
        int e = mc_choose(256, "ebcdic"), h = ebcdic_to_hol(e);
        mc_note("ebcdic %02x -> %03x", e, h);
        if (h & ~0xfff) mc_fail("code", "EBCDIC %02x has punch %x", e, h);
        for (i = 0; i < 256; i++) if (i != e && ebcdic_to_hol(i) == h) mc_fail("not-injective", "EBCDIC %02x and %02x share punch %03x", e, i, h);
        if (hol_to_ebcdic(h) != e) mc_fail("not-inverse", "EBCDIC %02x -> %03x -> %02x", e, h, hol_to_ebcdic(h));
    } else if (c == 1) {
        int h = mc_choose(4096, "punch"), e = hol_to_ebcdic(h), a = hol_to_ascii(h);
        mc_note("punch %03x", h);
        if (e != 0x100 && (e > 0xff || ebcdic_to_hol(e) != h)) mc_fail("not-inverse", "punch %03x -> EBCDIC %02x -> %03x", h, e, ebcdic_to_hol(e));
        if (a != 0xff && ref_hol(a) >= 0 && ref_hol(a) != h) mc_fail("ascii", "punch %03x is read as '%c'", h, a);
    } else {
        int a = 32 + mc_choose(95, "ascii"), h = ref_hol(a);
        if (h < 0) return;      /* no standard graphic */
        mc_note("graphic %c", a);
        if (c == 2) {
            if (ebcdic_to_hol(ref_ebc(a)) != h) mc_fail("code", "EBCDIC %02x ('%c') is punched %03x, standard is %03x", ref_ebc(a), a, ebcdic_to_hol(ref_ebc(a)), h);
        } else {
            if (hol_to_ascii(h) != a && !(a == '^' && hol_to_ascii(h) == '{'))
                mc_fail("ascii", "punch %03x of '%c' is read as %02x", h, a, hol_to_ascii(h));
            if (a != '+' && a != '*' && !(ascii_to_hol(a) & 0xf000) && ref_ebc(a) >= 0 && isalnum(a) && ascii_to_hol(a) != h)
                mc_fail("ascii", "'%c' is punched %03x", a, ascii_to_hol(a));
        }
    }
}

static int is_text(const image_t im) { int i; for (i = 0; i < 80; i++) if (hol_to_ascii(im[i]) == 0xff) return 0; return 1; }
static int is_ebc(const image_t im) { int i; for (i = 0; i < 80; i++) if (hol_to_ebcdic(im[i]) == 0x100) return 0; return 1; }

static void roundtrip(int mode, image_t *im, int n) {
    struct card_context *c = init_card_context(), *d;
    static unsigned char raw[4096]; size_t len; int i, j, rmode = mode;
    image_t got;
    for (i = 0; i < n; i++) {
        int t = is_text(im[i]), e = is_ebc(im[i]);
        if (mode == MODE_TEXT && !t) return;
        if (mode == MODE_EBCDIC && !e) return;
        if ((mode == MODE_TEXT || (mode == MODE_AUTO && t)) && hol_to_ascii(im[i][0]) == '~') return;
    }
    c->mode = mode;
    for (i = 0; i < n; i++) { mc_step(); if (stack_card(c, &im[i])) mc_fail("stack", "card refused"); }
    if (save_deck(c, path)) mc_fail("save", "save failed");
    drop(c);
    len = get_file(raw, sizeof raw);
    if (mode == MODE_AUTO) {
        unsigned k;
        for (k = 0; k < len; k++) if (looks_binary(raw + k, len - k)) rmode = MODE_TEXT;
    }
    if (mode == MODE_BIN && len != 160u * n) mc_fail("format", "binary deck of %d cards has %zu bytes", n, len);
    if (mode == MODE_EBCDIC && len != 80u * n) mc_fail("format", "EBCDIC deck of %d cards has %zu bytes", n, len);
    d = init_card_context(); d->mode = rmode;
    mc_step();
    if (read_deck(d, path) != 1) mc_fail("load", "saved deck does not load");
    if (hopper_size(d) != n) mc_fail("count", "saved %d cards, loaded %d", n, hopper_size(d));
    for (i = 0; i < n; i++) {
        if (!read_card(d, &got)) mc_fail("count", "card %d missing", i);
        for (j = 0; j < 80; j++)
            if (got[j] != im[i][j]) mc_fail("roundtrip", "format %s card %d column %d: saved %03x, loaded %03x", card_fmt_type[mode], i + 1, j + 1, im[i][j], got[j]);
    }
    drop(d);
    mc_state(mc_hash(mode, raw, len));
}
static void body_roundtrip(void) {
    static const int pos[4] = {0, 1, 40, 79}; static const uint16_t bg[3] = {0, 0x900, 0xfff};
    image_t im[2]; int i, mode = mc_choose(5, "mode"), p = pos[mc_choose(4, "column")], b = mc_choose(3, "background"), v = mc_choose(4096, "punch");
    for (i = 0; i < 80; i++) { im[0][i] = bg[b]; im[1][i] = i < 10 ? 0x200 >> i : 0; }
    im[0][p] = v;
    mc_note("%s column %d punch %03x background %03x", card_fmt_type[mode], p + 1, v, bg[b]);
    roundtrip(mode, im, 2);
}
static void body_pair(void) {
    static const uint16_t v[24] = {0, 0x900, 0x200, 0x206, 0xf02, 0x082, 0x006, 0x001, 0x00f, 0x0f0, 0xf00, 0xfff, 0x007, 0x00d, 0x80a, 0x212,
        0xb03, 0x801, 0x806, 0x102, 0xe03, 0xf07, 0x800, 0x400};
    image_t im[2]; int mode = mc_choose(5, "mode"), p = mc_choose(79, "column"), a = mc_choose(24, "first"), b = mc_choose(24, "second");
    memset(im, 0, sizeof im);
    im[0][p] = v[a]; im[0][p + 1] = v[b]; im[1][p + 1] = v[a]; im[1][p] = v[b];
    mc_note("%s columns %d,%d = %03x,%03x and swapped", card_fmt_type[mode], p + 1, p + 2, v[a], v[b]);
    roundtrip(mode, im, 2);
}

/* reference reading of a text deck */
static int ref_text(const unsigned char *s, int n, image_t *out, int max) {
    int i = 0, k = 0;
    if (n == 0) return -1;
    while (i < n) {
        int e = i, col = 0, j, blank = 1;
        uint16_t *im = out[k];
        while (e < n && s[e] != '\n') e++;
        if (k >= max) return -1;
        memset(im, 0, sizeof(image_t));
#define SPECIAL(t) (e - i >= 4 && s[i] == '~' && tolower(s[i+1]) == t[0] && tolower(s[i+2]) == t[1] && tolower(s[i+3]) == t[2])
        for (j = i + 1; j < e; j++) if (!strchr(" \t\r", s[j]) || s[j] == 0) blank = 0;
        if (s[i] == '~' && blank && e > i) ;
        else if (SPECIAL("raw")) {
            int d = 0;
            for (j = i + 4; j < e && col < 80 && s[j] >= '0' && s[j] <= '7'; j++) {
                im[col] = im[col] * 8 + s[j] - '0';
                if (++d == 4) { d = 0; col++; }
            }
        } else if (SPECIAL("eor")) im[0] = 7;
        else if (SPECIAL("eof")) im[0] = 015;
        else if (SPECIAL("eoi")) im[0] = 017;
        else for (j = i; j < e; j++) {
            int c = s[j];
            if (c == '\r' || c == 0) continue;
            if (c == '\t') { col = (col & ~7) + 8; continue; }
            if (col >= 80) continue;
            im[col++] = c == '~' ? 0xf02 : ref_hol(c) >= 0 ? ref_hol(c) : 0xfff;
        }
        k++;
        i = e < n ? e + 1 : e;
    }
    return k;
}
static void check_text(int mode, const unsigned char *s, int n) {
    image_t exp[32], got; struct card_context *c; int k, i, j;
    if (n == 0) return;
    k = ref_text(s, n, exp, 32);
    put_file(s, n);
    c = init_card_context(); c->mode = mode;
    mc_step();
    if (read_deck(c, path) != 1) mc_fail("load", "text deck does not load");
    if (hopper_size(c) != k) mc_fail("count", "text deck has %d lines, %d cards were loaded", k, hopper_size(c));
    for (i = 0; i < k; i++) {
        read_card(c, &got);
        for (j = 0; j < 80; j++)
            if (got[j] != exp[i][j]) mc_fail("text", "card %d column %d: %03x, expected %03x", i + 1, j + 1, got[j], exp[i][j]);
    }
    drop(c);
    mc_state(mc_hash(mc_hash_u(MC_HASH0, k), exp, sizeof(image_t) * k));
    mc_outcome("cards=%d", k);
}
static void note_s(const unsigned char *s, int n) { int i; mc_note("\""); for (i = 0; i < n && i < 300; i++) if (s[i] < 32 || s[i] > 126 || s[i] == '\\') mc_note("\\%03o", s[i]); else mc_note("%c", s[i]); mc_note("\""); }
static void body_text(void) {
    static const char *tok[] = {"A", "\n", "~", " ", "\t", "\r\n", "z", "\200", "0"};
    static const int ltok[] = {1, 1, 1, 1, 1, 2, 1, 1, 1};
    unsigned char s[64]; int n = 0, i, max = mc_thorough ? 7 : 6, mode = mc_choose(2, "mode");
    for (i = 0; i < max; i++) {
        int c = mc_choose(10, "token");
        if (c == 0) break;
        memcpy(s + n, tok[c - 1], ltok[c - 1]); n += ltok[c - 1];
    }
    note_s(s, n);
    check_text(mode, s, n);
}
static void body_special(void) {
    static const char *pre[] = {"~raw", "~eor", "~EOF", "~eoi", "~Raw7777", "A\n~raw000", "~eo"};
    static const char *tok[] = {"7", "\n", "0", " ", "A", "~", "\r\n", "8"};
    unsigned char s[64]; int n = 0, i, max = mc_thorough ? 7 : 5, c = mc_choose(7, "prefix");
    strcpy((char *)s, pre[c]); n = strlen(pre[c]);
    for (i = 0; i < max; i++) {
        c = mc_choose(9, "token");
        if (c == 0) break;
        strcpy((char *)s + n, tok[c - 1]); n += strlen(tok[c - 1]);
    }
    note_s(s, n);
    check_text(i & 1, s, n);
}
static void body_long(void) {
    static const char *tok[] = {"A", "\n", "\t", "\r\n", " "}; static const char *pre[] = {"", "X\n", "~raw", "\t"};
    unsigned char s[1024]; int n = 0, i, p = mc_choose(4, "prefix"), f = mc_choose(3, "fill"), len = mc_choose(96, "length");
    if (p == 2) len += 270; else len += 0;
    strcpy((char *)s, pre[p]); n = strlen(pre[p]);
    for (i = 0; i < len; i++) s[n++] = f == 0 ? '5' : f == 1 ? ' ' : '0' + i % 8;
    for (i = 0; i < 3; i++) {
        int c = mc_choose(6, "token");
        if (c == 0) break;
        strcpy((char *)s + n, tok[c - 1]); n += strlen(tok[c - 1]);
    }
    note_s(s, n);
    if (looks_binary(s, n)) return;
    { int k, t = 0; for (k = 0; k < n; k++) if (looks_binary(s + k, n - k)) t = 1;
      check_text(t ? MODE_TEXT : (i & 1), s, n); }
}
static void body_binary(void) {
    static const int pos[6] = {0, 1, 2, 79, 158, 159};
    unsigned char b[400]; int full = mc_choose(2, "full records first"), kind = mc_choose(2, "format"), rec = kind ? 80 : 160, last, n, v, p, i, j, bad;
    image_t got; struct card_context *c;
    p = pos[mc_choose(6, "byte")]; v = mc_choose(256, "value"); last = rec;
    if (v < 162) { int l = mc_choose(2, "short"); if (l) { last = v; if (last == 0 || last > rec) return; } }
    for (i = 0; i < 400; i++) b[i] = (i & 1) ? i : 0x30;
    n = full * rec;
    if (p < last) b[n + p] = v;
    if (kind == 0) for (i = 0; i < n; i += 2) b[i] &= 0xf0;
    n += last;
    mc_note("%s full=%d byte %d = %02x last=%d", kind ? "EBCDIC" : "BIN", full, p, v, last);
    put_file(b, n);
    c = init_card_context(); c->mode = kind ? MODE_EBCDIC : MODE_BIN;
    mc_step();
    if (read_deck(c, path) != 1) mc_fail("load", "deck does not load");
    if (hopper_size(c) != full + 1) mc_fail("count", "%d bytes gave %d cards", n, hopper_size(c));
    for (i = 0; i <= full; i++) {
        unsigned char *r = b + i * rec;
        read_card(c, &got);
        if (i == full && last < rec) { if (kind == 0 && got[0] != 0xfff) mc_fail("short", "short binary record is not flagged"); continue; }
        bad = 0;
        if (kind == 0) for (j = 0; j < 160; j += 2) if (r[j] & 0xf) bad = 1;
        for (j = 0; j < 80; j++) {
            int e = kind ? ebcdic_to_hol(r[j]) : (r[2*j] >> 4) | (r[2*j+1] << 4);
            if (j == 0 && bad) e = 0xfff;
            if (got[j] != e) mc_fail("binary", "card %d column %d: %03x, expected %03x", i + 1, j + 1, got[j], e);
        }
    }
    drop(c);
    mc_state(mc_hash(kind, b, n));
}
static void body_refill(void) {
    static unsigned char s[20000]; int L = 1 + mc_choose(81, "line length"), F = mc_choose(81, "first line"), n = 0, k = 0, i; image_t got;
    struct card_context *c;
    if (!mc_thorough && L != 81 && L != 80 && (L * 7 + F) % 13) return;
    for (i = 0; i < F; i++) s[n++] = 'B';
    s[n++] = '\n'; k++;
    while (n < 17000) {
        for (i = 0; i < L - 1; i++) s[n++] = '0' + (k + i) % 10;
        s[n++] = '\n'; k++;
    }
    mc_note("lines of %d after one of %d, %d cards", L, F, k);
    put_file(s, n);
    c = init_card_context(); c->mode = MODE_TEXT;
    mc_step();
    if (read_deck(c, path) != 1) mc_fail("load", "deck does not load");
    if (hopper_size(c) != k) mc_fail("count", "deck of %d lines gave %d cards", k, hopper_size(c));
    read_card(c, &got);
    for (i = 0; i < 80; i++) if (got[i] != (i < F ? 0x880 : 0)) mc_fail("text", "first card column %d is %03x", i + 1, got[i]);
    for (k = 1; read_card(c, &got); k++)
        for (i = 0; i < 80; i++) if (got[i] != (i < L - 1 ? 0x200 >> ((k + i) % 10) : 0)) mc_fail("text", "card %d column %d is %03x", k + 1, i + 1, got[i]);
    drop(c);
}
/* decks of many cards: a card may lie at any place of the read buffer */
static int pun(int k, int j, int mode) { return mode == MODE_BIN ? (k * 37 + j * 11 + 5) & 0xfff : j == 79 ? 0x400 >> (k % 10) : 0x200 >> ((k + j) % 10); }
static void body_many(void) {
    static const int M[4] = { MODE_TEXT, MODE_EBCDIC, MODE_BIN, MODE_OCTAL };
    int mode = M[mc_choose(4, "format")], b = mc_choose(90, "block"), n = mc_thorough ? b * 7 + 1 + mc_choose(7, "more") : b * 7 + 1 + b % 7, k, j;
    struct card_context *a, *c; image_t im, got;
    if (mode == MODE_TEXT || mode == MODE_EBCDIC || mode == MODE_OCTAL) { if (!mc_thorough && b % 3) return; }
    mc_note("mode %d, %d cards", mode, n);
    a = init_card_context(); a->mode = mode; c = init_card_context(); c->mode = mode;
    for (k = 0; k < n; k++) { for (j = 0; j < 80; j++) im[j] = pun(k, j, mode); stack_card(a, &im); }
    mc_step();
    if (save_deck(a, path) != 0) { }
    if (read_deck(c, path) != 1) mc_fail("load", "deck does not load");
    if (hopper_size(c) != n) mc_fail("count", "deck of %d cards gave %d cards", n, hopper_size(c));
    for (k = 0; k < n; k++) {
        if (read_card(c, &got) != 1) mc_fail("count", "card %d missing", k + 1);
        for (j = 0; j < 80; j++) if ((got[j] & 0xfff) != pun(k, j, mode)) mc_fail("many", "mode %d, %d cards: card %d column %d is %03x, expected %03x", mode, n, k + 1, j + 1, got[j], pun(k, j, mode));
    }
    drop(a); drop(c);
}
/* a line of text, then a deck of column binary, recognised one by one */
static void body_mixed(void) {
    static unsigned char s[100000]; int F = mc_choose(81, "first line"), n, N = mc_thorough ? 560 : 420, k, i; struct card_context *c; image_t got;
    for (n = 0; n < F; n++) s[n] = 'B';
    s[n++] = '\n';
    for (k = 0; k < N; k++) for (i = 0; i < 80; i++) { int p = pun(k, i, MODE_BIN); s[n++] = (p & 0xf) << 4; s[n++] = p >> 4; }
    mc_note("line of %d, then %d binary cards", F, N);
    put_file(s, n);
    c = init_card_context(); c->mode = MODE_AUTO;
    mc_step();
    if (read_deck(c, path) != 1) mc_fail("load", "deck does not load");
    if (hopper_size(c) != N + 1) mc_fail("count", "%d cards", hopper_size(c));
    read_card(c, &got);
    for (i = 0; i < 80; i++) if (got[i] != (i < F ? 0x880 : 0)) mc_fail("text", "first card column %d is %03x", i + 1, got[i]);
    for (k = 0; read_card(c, &got); k++)
        for (i = 0; i < 80; i++) if (got[i] != pun(k, i, MODE_BIN)) mc_fail("mixed", "line of %d: binary card %d column %d is %03x", F, k + 1, i + 1, got[i]);
    drop(c);
}
mc_part mc_parts[] = { {"codes", body_codes}, {"roundtrip", body_roundtrip}, {"pair", body_pair}, {"text", body_text}, {"special", body_special},
   {"long", body_long}, {"binary", body_binary}, {"refill", body_refill}, {"many", body_many}, {"mixed", body_mixed}, {NULL} };
