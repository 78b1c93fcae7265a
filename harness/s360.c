/*
 * Reference System/360 interpreter (processing unit only).
 * Written from "IBM System/360 Principles of Operation", independent of the simulator.
 */
#include <string.h>
#include "s360.h"
typedef unsigned __int128 u128;
typedef uint32_t u32; typedef uint64_t u64; typedef int32_t s32; typedef int64_t s64;
enum { OPR = 1, PRIV, EXEC, PROT, ADDR, SPEC, DATA, FOVF, FDIV, DOVF, DDIV, EOVF, EUND, SIGNIF, PDIV };
#define A24 0xffffffu

static void psw_load(s360 *s, u32 a) {
    u32 h = s360_w(s, a), l = s360_w(s, a + 4);
    s->sysmask = h >> 24; s->key = (h >> 20) & 15; s->amwp = (h >> 16) & 15;
    s->ilc = l >> 30; s->cc = (l >> 28) & 3; s->pm = (l >> 24) & 15; s->ia = l & A24;
}
void s360_swap(s360 *s, u32 old, u32 new_, int code) {
    s360_sw(s, old, (u32)s->sysmask << 24 | (u32)s->key << 20 | (u32)s->amwp << 16 | (code & 0xffff));
    s360_sw(s, old + 4, (u32)s->ilc << 30 | (u32)s->cc << 28 | (u32)s->pm << 24 | (s->ia & A24));
    psw_load(s, new_);
}
/* ---- storage access checks ---- */
static void want(s360 *s, int c) { s->codes |= 1u << c; }
uint32_t s360_size = S360_MEM;
static int bad(const s360 *s, u32 a) { return a >= s360_size; }
static void acc(s360 *s, u32 a, u32 len, int store, int align) {
    u32 i;
    if (align > 1 && (a & (align - 1))) want(s, SPEC);
    for (i = 0; i < len; i++) {
        u32 b = (a + i) & A24;
        if (bad(s, b)) want(s, ADDR);
        else if (s->key != 0 && (s->keys[b >> 11] >> 4) != s->key && (store || (s->fetchprot && (s->keys[b >> 11] & 8)))) want(s, PROT);
    }
    if (store) { s->st_lo = a; s->st_hi = a + len; }
}
static void un_store(s360 *s) { s->un_lo = s->st_lo; s->un_hi = s->st_hi; }
static u32 rb(s360 *s, u32 a) { return s->m[a & (s360_size - 1)]; }
static void wb(s360 *s, u32 a, u32 v) { s->m[a & (s360_size - 1)] = v; }
static u32 rw(s360 *s, u32 a) { return rb(s, a) << 24 | rb(s, a + 1) << 16 | rb(s, a + 2) << 8 | rb(s, a + 3); }
static void ww(s360 *s, u32 a, u32 v) { wb(s, a, v >> 24); wb(s, a + 1, v >> 16); wb(s, a + 2, v >> 8); wb(s, a + 3, v); }

/* ---- decimal ---- */
typedef struct { int neg; u128 v; int ok, sok; } dec;   /* up to 31 digits fit 128 bits */
static const u128 ten(int n) { u128 r = 1; while (n-- > 0) r *= 10; return r; }
static dec rd_dec(s360 *s, u32 a, int len) {
    dec d = {0, 0, 1, 1}; int i;
    for (i = 0; i < len; i++) {
        u32 b = rb(s, a + i), h = b >> 4, l = b & 15;
        if (h > 9) d.ok = 0;
        d.v = d.v * 10 + h;
        if (i < len - 1) { if (l > 9) d.ok = 0; d.v = d.v * 10 + l; }
        else { if (l < 10) d.ok = d.sok = 0; d.neg = l == 0xb || l == 0xd; }
    }
    return d;
}
static void wr_dec(s360 *s, u32 a, int len, u128 v, int neg) {
    int i, asc = s->amwp & 8;
    u32 sg = asc ? (neg ? 0xb : 0xa) : (neg ? 0xd : 0xc);
    for (i = len - 1; i >= 0; i--) {
        u32 lo, hi;
        if (i == len - 1) lo = sg; else { lo = (u32)(v % 10); v /= 10; }
        hi = (u32)(v % 10); v /= 10;
        wb(s, a + i, hi << 4 | lo);
    }
}
/* ---- fixed point helpers ---- */
static int cc_s(s32 v) { return v == 0 ? 0 : v < 0 ? 1 : 2; }
static u32 add32(s360 *s, u32 a, u32 b, int cin, int *ovf) {
    u64 r = (u64)a + b + cin;
    *ovf = ((a ^ ~b) & (a ^ (u32)r)) >> 31;
    (void)s; return (u32)r;
}
static u32 ar(s360 *s, u32 a, u32 b, int sub) {
    int o; u32 r = add32(s, a, sub ? ~b : b, sub, &o);
    s->cc = o ? 3 : cc_s((s32)r);
    if (o && (s->pm & 8)) s->pgm = FOVF;
    return r;
}
static u32 al(s360 *s, u32 a, u32 b, int sub) {
    u64 r = (u64)a + (sub ? (u64)(u32)~b + 1 : b);
    s->cc = ((u32)r != 0) | (r >> 32 ? 2 : 0);
    return (u32)r;
}
static int cmp_s(s32 a, s32 b) { return a == b ? 0 : a < b ? 1 : 2; }
static int cmp_u(u32 a, u32 b) { return a == b ? 0 : a < b ? 1 : 2; }

/* ---- floating point (hexadecimal) ---- */
typedef struct { int neg, e; u64 m; } fpn;          /* m: 14 digits for long, 6 for short */
static fpn unp(u32 hi, u32 lo, int lng) {
    fpn x; x.neg = hi >> 31; x.e = (hi >> 24) & 127; x.m = lng ? ((u64)(hi & A24) << 32 | lo) : (hi & A24);
    return x;
}
static void fput(s360 *s, int r, fpn x, int lng) {
    u32 h = (u32)(x.neg != 0) << 31 | (u32)(x.e & 127) << 24;
    if (lng) { s->f[r] = h | (u32)(x.m >> 32 & A24); s->f[r + 1] = (u32)x.m; }
    else s->f[r] = h | (u32)(x.m & A24);
}
static void fzero(s360 *s, int r, int lng) { s->f[r] = 0; if (lng) s->f[r + 1] = 0; }
/* deliver result with exponent checks */
static void fres(s360 *s, int r, fpn x, int lng) {
    if (x.e > 127) { x.e &= 127; s->pgm = EOVF; }
    else if (x.e < 0) {
        if (s->pm & 2) { x.e &= 127; s->pgm = EUND; }
        else { fzero(s, r, lng); return; }
    }
    fput(s, r, x, lng);
}
static void fadd(s360 *s, int r, u32 hi, u32 lo, int lng, int sub, int norm, int cmp) {
    fpn a = unp(s->f[r], lng ? s->f[r + 1] : 0, lng), b = unp(hi, lo, lng);
    int dig = lng ? 14 : 6, e, neg;
    u64 am = a.m, bm = b.m; s64 sum; u64 mag;
    u64 top = (u64)1 << (4 * dig);
    if (sub) b.neg ^= 1;
    /* one guard digit */
    am <<= 4; bm <<= 4;
    if (a.e > b.e) { int d = a.e - b.e; bm = d > 15 ? 0 : bm >> (4 * d); e = a.e; }
    else { int d = b.e - a.e; am = d > 15 ? 0 : am >> (4 * d); e = b.e; }
    sum = (s64)(a.neg ? -(s64)am : (s64)am) + (s64)(b.neg ? -(s64)bm : (s64)bm);
    neg = sum < 0; mag = neg ? (u64)-sum : (u64)sum;
    if (cmp) { s->cc = mag == 0 ? 0 : neg ? 1 : 2; return; }
    if (mag == 0) {
        s->cc = 0;
        if (s->pm & 1) { fpn z = {0, e, 0}; s->pgm = SIGNIF; fput(s, r, z, lng); }
        else fzero(s, r, lng);
        return;
    }
    s->cc = neg ? 1 : 2;
    if (mag >= top << 4) { mag >>= 4; e++; }
    else if (norm) while (mag < top) { mag <<= 4; e--; }   /* leading digit at position just under top<<4 */
    { fpn x; x.neg = neg; x.e = e; x.m = mag >> 4;
      if (!norm && x.m == 0) { /* unnormalized: only the guard digit is left */ 
          s->cc = 0; x.neg = 0;
          s->undef = 2;  /* see harness */
      }
      if (x.e > 127) { }
      else if (x.e < 0 && !(s->pm & 2)) s->cc = 0;
      fres(s, r, x, lng); }
}
static fpn fnorm(fpn x, int dig) { if (x.m) while (!(x.m >> (4 * dig - 4))) { x.m <<= 4; x.e--; } return x; }
static void fmul(s360 *s, int r, u32 hi, u32 lo, int lng) {
    int dig = lng ? 14 : 6;
    fpn a = unp(s->f[r], lng ? s->f[r + 1] : 0, lng), b = unp(hi, lo, lng), x;
    if (a.m == 0 || b.m == 0) { fzero(s, r, 1); return; }
    a = fnorm(a, dig); b = fnorm(b, dig);
    x.neg = a.neg ^ b.neg; x.e = a.e + b.e - 64;
    if (lng) {
        u128 p = (u128)a.m * b.m;              /* 28 digits */
        if (!(p >> 108)) { p <<= 4; x.e--; }   /* 27 digits */
        x.m = (u64)(p >> 56);
    } else {
        u64 p = (u64)a.m * b.m;                /* 12 digits */
        if (!(p >> 44)) { p <<= 4; x.e--; }
        x.m = p << 8;                          /* 14 digit result */
    }
    fres(s, r, x, 1);
}
static void fdiv(s360 *s, int r, u32 hi, u32 lo, int lng) {
    int dig = lng ? 14 : 6;
    fpn a = unp(s->f[r], lng ? s->f[r + 1] : 0, lng), b = unp(hi, lo, lng), x;
    u128 n;
    if (b.m == 0) { s->pgm = PDIV; return; }
    if (a.m == 0) { fzero(s, r, lng); return; }
    a = fnorm(a, dig); b = fnorm(b, dig);
    x.neg = a.neg ^ b.neg; x.e = a.e - b.e + 64;
    n = (u128)a.m << (4 * dig);
    if (a.m >= b.m) { n >>= 4; x.e++; }
    x.m = (u64)(n / b.m);
    fres(s, r, x, lng);
}
static void fload(s360 *s, int op, int r, u32 hi, u32 lo, int lng) {   /* LP LN LT LC */
    u32 fr = (hi & A24) | (lng ? lo : 0);
    switch (op) {
    case 0: hi &= 0x7fffffff; break;
    case 1: hi |= 0x80000000; break;
    case 2: break;
    case 3: hi ^= 0x80000000; break;
    }
    s->f[r] = hi; if (lng) s->f[r + 1] = lo;
    s->cc = fr == 0 ? 0 : hi >> 31 ? 1 : 2;
}
static void fop(s360 *s, int op, int r, u32 hi, u32 lo, int lng) {
    switch (op) {
    case 0x8: s->f[r] = hi; if (lng) s->f[r + 1] = lo; break;
    case 0x9: fadd(s, r, hi, lo, lng, 1, 1, 1); break;
    case 0xa: fadd(s, r, hi, lo, lng, 0, 1, 0); break;
    case 0xb: fadd(s, r, hi, lo, lng, 1, 1, 0); break;
    case 0xc: fmul(s, r, hi, lo, lng); break;
    case 0xd: fdiv(s, r, hi, lo, lng); break;
    case 0xe: fadd(s, r, hi, lo, lng, 0, 0, 0); break;
    case 0xf: fadd(s, r, hi, lo, lng, 1, 0, 0); break;
    }
}
/* ---- one instruction ---- */
static void exec_inst(s360 *s, const uint8_t *in, int len, u32 next, int under_ex);

static int length_of(u32 op) { return op < 0x40 ? 2 : op < 0xc0 ? 4 : 6; }
static int legal(s360 *s, u32 op) {
    static const uint8_t rr[] = {4,5,6,7,8,9,10,0};
    if (memchr(rr, op, 7)) return 1;
    if (op >= 0x10 && op <= 0x1f) return 1;
    if (op >= 0x20 && op <= 0x3f) { u32 l = op & 15; return s->fp && (l <= 4 || l >= 8); }
    if (op >= 0x40 && op <= 0x4f) return op != 0x4d;
    if (op >= 0x50 && op <= 0x5f) return op == 0x50 || op >= 0x54;
    if (op == 0x60 || op == 0x70 || (op >= 0x68 && op <= 0x6f) || (op >= 0x78 && op <= 0x7f)) return s->fp;
    if (op >= 0x80 && op <= 0x9f) return !(op == 0x81 || (op >= 0x99 && op <= 0x9b));
    if (op >= 0xd1 && op <= 0xd7) return 1;
    if (op >= 0xdc && op <= 0xdf) return 1;
    if (op >= 0xf1 && op <= 0xf3) return 1;
    if (op >= 0xf8 && op <= 0xfd) return 1;
    return 0;
}
static u32 ea(s360 *s, u32 bd, u32 x) {
    u32 b = bd >> 12, a = bd & 0xfff;
    if (b) a += s->r[b];
    if (x) a += s->r[x];
    return a & A24;
}
/* several exceptions at once: any of them may be indicated. Those the operand addresses of an instruction that is not executed could cause */
static void others(s360 *s, u32 op, u32 i2, u32 bd1, u32 bd2) {
    u32 i, n, a, k;
    if (op < 0x40) return;
    for (k = 0; k < (op < 0xc0 ? 1u : 2u); k++) {
        a = ea(s, k ? bd2 : bd1, op < 0x80 ? i2 & 15 : 0); n = op < 0xc0 ? 8 : (i2 & 0xff) + 1;
        if (a & 7 || i2 & 0x90) want(s, SPEC);
        for (i = 0; i < n; i++) {
            u32 b = (a + i) & A24;
            if (bad(s, b)) want(s, ADDR);
            else if (s->key != 0 && (s->keys[b >> 11] >> 4) != s->key) want(s, PROT);
        }
    }
}
static u32 link(s360 *s, u32 next) { return (u32)s->ilc << 30 | (u32)s->cc << 28 | (u32)s->pm << 24 | (next & A24); }
static void shift_d(s360 *s, u32 op, int r1, int n) {
    u64 v = (u64)s->r[r1] << 32 | s->r[r1 + 1];
    if (op == 0x8c) v = v >> n;
    else if (op == 0x8d) v = v << n;
    else if (op == 0x8e) v = (u64)((s64)v >> n);
    else {
        int i, o = 0; u64 sg = v & (1ull << 63);
        for (i = 0; i < n; i++) { if (((v << 1) ^ sg) & (1ull << 63)) o = 1; v = ((v << 1) & ~(1ull << 63)) | sg; }
        s->cc = o ? 3 : v == 0 ? 0 : sg ? 1 : 2;
        if (o && (s->pm & 8)) s->pgm = FOVF;
    }
    if (op == 0x8e) s->cc = v == 0 ? 0 : (s64)v < 0 ? 1 : 2;
    s->r[r1] = v >> 32; s->r[r1 + 1] = (u32)v;
}
static void do_edit(s360 *s, u32 a1, int len, u32 a2, int mark) {
    int sig = 0, i, have = 0, zero = 1, sign = 0; u32 fill = 0, b = 0; int right = 0;
    (void)have;
    for (i = 0; i < len; i++) {
        u32 p = rb(s, a1 + i), out;
        if (i == 0) fill = p;
        if (p == 0x20 || p == 0x21) {
            u32 d;
            if (!right) { b = rb(s, a2++); d = b >> 4; if (d > 9) { s->pgm = DATA; s->un_lo = a1; s->un_hi = a1 + len; s->un_cc = 1; if (mark) s->un_regs |= 2; return; } right = 1;
            } else { d = b & 15; right = 0; }
            if (d) zero = 0;
            if (mark && d && !sig) s->r[1] = (s->r[1] & 0xff000000u) | ((a1 + i) & A24);
            if (d || sig) out = (s->amwp & 8 ? 0x50 : 0xf0) | d; else out = fill;
            if (p == 0x21 || d) sig = 1;
            if (right) {       /* check for sign in the rest of this byte */
                u32 g = b & 15;
                if (g > 9) { if (g != 0xb && g != 0xd) { sig = 0; } sign = (g == 0xb || g == 0xd); right = 0; }
            }
        } else if (p == 0x22) { sig = 0; zero = 1; out = fill; }
        else out = sig ? p : fill;
        if (i == 0 && !(p == 0x20 || p == 0x21)) out = p;   /* fill stays as is */
        wb(s, a1 + i, out);
    }
    (void)sign;
    s->cc = zero ? 0 : sig ? 1 : 2;
}
static void ss_len1(s360 *s, u32 op, u32 L, u32 a1, u32 a2) {
    u32 i, n = L + 1;
    int store = op != 0xd5 && op != 0xdd;
    switch (op) {
    case 0xdc: case 0xdd: {
        if (op == 0xdd) {      /* ends at the first function byte that is not zero */
            for (i = 0; i < n && !s->codes; i++) {
                acc(s, a1 + i, 1, 0, 1); if (s->codes) break;
                acc(s, a2 + rb(s, a1 + i), 1, 0, 1);
                if (s->codes || rb(s, a2 + rb(s, a1 + i))) break;
            }
            break;
        }
        acc(s, a1, n, store, 1);
        for (i = 0; i < n && s->codes; i++) if (!bad(s, (a1 + i) & A24) && bad(s, (a2 + rb(s, a1 + i)) & A24)) want(s, ADDR);
        if (s->codes) break;
        if (op == 0xdc) { for (i = 0; i < n; i++) acc(s, a2 + rb(s, a1 + i), 1, 0, 1); s->st_lo = a1; s->st_hi = a1 + n; }
        break; }
    case 0xde: case 0xdf: {
        acc(s, a1, n, 1, 1);
        /* number of source bytes depends on pattern: checked conservatively by caller (harness keeps the source in bounds) */
        break; }
    default:
        acc(s, a2, n, 0, 1);
        acc(s, a1, n, store, 1);
        if (op == 0xd5 && s->codes) {     /* comparison may end before the bad byte */
            for (i = 0; i < n; i++) { if (bad(s, (a1 + i) & A24) || bad(s, (a2 + i) & A24)) break; if (rb(s, a1 + i) != rb(s, a2 + i)) { s->undef = 1; break; } }
        }
    }
    if (s->codes) { if (store) un_store(s); s->un_cc = 1; if (op == 0xdd || op == 0xdf) s->un_regs |= 6; return; }
    switch (op) {
    case 0xd1: for (i = 0; i < n; i++) wb(s, a1 + i, (rb(s, a1 + i) & 0xf0) | (rb(s, a2 + i) & 0x0f)); break;
    case 0xd2: for (i = 0; i < n; i++) wb(s, a1 + i, rb(s, a2 + i)); break;
    case 0xd3: for (i = 0; i < n; i++) wb(s, a1 + i, (rb(s, a1 + i) & 0x0f) | (rb(s, a2 + i) & 0xf0)); break;
    case 0xd4: case 0xd6: case 0xd7: {
        int nz = 0;
        for (i = 0; i < n; i++) {
            u32 x = rb(s, a1 + i), y = rb(s, a2 + i);
            x = op == 0xd4 ? x & y : op == 0xd6 ? x | y : x ^ y;
            wb(s, a1 + i, x); nz |= x;
        }
        s->cc = nz != 0; break; }
    case 0xd5:
        s->cc = 0;
        for (i = 0; i < n; i++) { u32 x = rb(s, a1 + i), y = rb(s, a2 + i); if (x != y) { s->cc = x < y ? 1 : 2; break; } }
        break;
    case 0xdc: for (i = 0; i < n; i++) wb(s, a1 + i, rb(s, a2 + rb(s, a1 + i))); break;
    case 0xdd:
        s->cc = 0;
        for (i = 0; i < n; i++) {
            u32 f = rb(s, a2 + rb(s, a1 + i));
            if (f) {
                s->r[1] = (s->r[1] & 0xff000000u) | ((a1 + i) & A24);
                s->r[2] = (s->r[2] & 0xffffff00u) | f;
                s->cc = i == n - 1 ? 2 : 1; break;
            }
        }
        break;
    case 0xde: case 0xdf: do_edit(s, a1, n, a2, op == 0xdf); break;
    }
}
static void ss_len2(s360 *s, u32 op, int L1, int L2, u32 a1, u32 a2) {
    int n1 = L1 + 1, n2 = L2 + 1, i, j;
    dec d1, d2; int neg; u128 v, lim;
    if ((op == 0xfc || op == 0xfd) && (L2 > 7 || L2 >= L1)) want(s, SPEC);
    acc(s, a2, n2, 0, 1);
    acc(s, a1, n1, op != 0xf9, 1);
    if (s->codes && op >= 0xf8) {     /* several exceptions: any of them may be indicated */
        if (!rd_dec(s, a1, n1).ok || !rd_dec(s, a2, n2).ok) want(s, DATA);
        if (op == 0xfd) want(s, DDIV);
        if (op == 0xfc) for (i = 0; i < n2; i++) if (rb(s, a1 + i)) want(s, DATA);
        if (op != 0xf9) un_store(s);
    }
    if (s->codes && op <= 0xf3) {     /* source bytes that are not needed need not be fetched */
        int need = op == 0xf1 ? n1 : op == 0xf2 ? 2 * n1 - 1 : n1 / 2 + 1; u32 c;
        if (need < n2) { c = s->codes; s->codes = 0; acc(s, a1, n1, 1, 1); acc(s, a2 + n2 - need, need, 0, 1); if (!s->codes) s->undef = 1; s->codes |= c; s->st_lo = a1; s->st_hi = a1 + n1; }
    }
    if (s->codes) { if (op != 0xf9 && !(s->codes & 1u << SPEC)) un_store(s); if (op >= 0xf8 && op <= 0xfb) s->un_cc = 1; return; }
    switch (op) {
    case 0xf1:   /* MVO */
        { u32 carry = rb(s, a1 + L1) & 15;
          for (i = L1, j = L2; i >= 0; i--, j--) { u32 b = j >= 0 ? rb(s, a2 + j) : 0; wb(s, a1 + i, ((b << 4) & 0xf0) | carry); carry = b >> 4; } }
        return;
    case 0xf2:   /* PACK */
        { u32 b = rb(s, a2 + L2); wb(s, a1 + L1, (b << 4 & 0xf0) | b >> 4);
          for (i = L1 - 1, j = L2 - 1; i >= 0; i--) {
              u32 lo = j >= 0 ? rb(s, a2 + j) & 15 : 0, hi; j--;
              hi = j >= 0 ? rb(s, a2 + j) & 15 : 0; j--;
              wb(s, a1 + i, hi << 4 | lo); } }
        return;
    case 0xf3:   /* UNPK */
        { u32 z = s->amwp & 8 ? 0x50 : 0xf0, b = rb(s, a2 + L2), k = 0; wb(s, a1 + L1, (b << 4 & 0xf0) | b >> 4);
          for (i = L1 - 1, j = L2 - 1; i >= 0; i--) {
              if (k == 0) { b = j >= 0 ? rb(s, a2 + j) : 0; j--; wb(s, a1 + i, z | (b & 15)); k = 1; }
              else { wb(s, a1 + i, z | b >> 4); k = 0; } } }
        return;
    }
    d1 = rd_dec(s, a1, n1); d2 = rd_dec(s, a2, n2);
    /* invalid digits that can not influence the result: detecting them is left to the model */
    if (op == 0xf9 && d1.sok && d2.sok && d1.neg != d2.neg && !(d1.ok && d2.ok)) s->undef = 1;
    if (op == 0xfc && d2.ok && (d2.v == 0 || s->laxmp) && d1.sok && !d1.ok) s->undef = 1;
    if (!d2.ok || (op != 0xf8 && !d1.ok)) {
        s->pgm = DATA; if (op == 0xfd) { s->pgm = 0; want(s, DATA); want(s, DDIV); }
        if (op != 0xf9) un_store(s); if (op != 0xfc && op != 0xfd) s->un_cc = 1; return; }
    lim = ten(2 * n1 - 1);
    switch (op) {
    case 0xf8: case 0xfa: case 0xfb:
        if (op == 0xf8) { v = d2.v; neg = d2.neg; }
        else {
            if (op == 0xfb) d2.neg ^= 1;
            if (d1.neg == d2.neg) { v = d1.v + d2.v; neg = d1.neg; }
            else if (d1.v >= d2.v) { v = d1.v - d2.v; neg = d1.neg; }
            else { v = d2.v - d1.v; neg = d2.neg; }
        }
        if (v == 0) neg = 0;
        if (v >= lim) {
            wr_dec(s, a1, n1, v % lim, neg); s->cc = 3;
            if (s->pm & 4) s->pgm = DOVF;
        } else { wr_dec(s, a1, n1, v, neg); s->cc = v == 0 ? 0 : neg ? 1 : 2; }
        break;
    case 0xf9:
        if (d1.v == 0) d1.neg = 0;
        if (d2.v == 0) d2.neg = 0;
        if (d1.neg != d2.neg) s->cc = d1.neg ? 1 : 2;
        else if (d1.v == d2.v) s->cc = 0;
        else s->cc = (d1.v < d2.v) ^ d1.neg ? 1 : 2;
        break;
    case 0xfc:
        if (d1.v >= ten(2 * (n1 - n2) - 1)) {
            /* must have n2 bytes of leading zeros */
            for (i = 0; i < n2; i++) if (rb(s, a1 + i)) { s->pgm = DATA; un_store(s); return; }
        }
        for (i = 0; i < n2; i++) if (rb(s, a1 + i)) { s->pgm = DATA; un_store(s); return; }
        v = d1.v * d2.v;
        wr_dec(s, a1, n1, v, d1.neg ^ d2.neg);
        break;
    case 0xfd: {
        u128 q, r; int qn = n1 - n2;
        if (d2.v == 0) { s->pgm = DDIV; return; }
        q = d1.v / d2.v; r = d1.v % d2.v;
        /* the check aligns the divisor one digit to the right of the dividend's first digit */
        if (q >= ten(2 * qn - 1)) { s->pgm = DDIV; return; }
        neg = d1.neg ^ d2.neg; i = d1.neg;
        wr_dec(s, a1, qn, q, neg);
        wr_dec(s, a1 + qn, n2, r, i);
        break; }
    }
}
static void exec_inst(s360 *s, const uint8_t *in, int len, u32 next, int under_ex) {
    u32 op = in[0], i2 = in[1], bd1 = in[2] << 8 | in[3], bd2 = in[4] << 8 | in[5];
    int r1 = i2 >> 4, r2 = i2 & 15, o;
    u32 a, v, t; u64 p;
    s->ia = next;
    if ((op == 0x84 || op == 0x85) && (s->amwp & 1)) want(s, OPR);      /* direct control need not be installed */
    if (op == 0xe8 && s->fp) { s->undef = 1; return; }                  /* move inverse, a feature of the larger model */
    if (!legal(s, op)) { want(s, OPR); others(s, op, i2, bd1, bd2); return; }
    if ((op == 8 || op == 9 || op == 0x80 || op == 0x82 || op == 0x83 || op == 0x84 || op == 0x85 || (op >= 0x9c && op <= 0x9f)) && (s->amwp & 1)) { want(s, PRIV); others(s, op, i2, bd1, bd2); }
    if (op >= 0x20 && op <= 0x3f) {
        int lng = op < 0x30;
        if ((r1 & 9) || (r2 & 9)) { want(s, SPEC); return; }
        if ((op & 15) < 4) fload(s, op & 3, r1, s->f[r2], s->f[r2 + 1], lng);
        else if ((op & 15) == 4) {
            /* normalized, with a guard digit (as changed in 1968) */
            fpn x = unp(s->f[r2], lng ? s->f[r2 + 1] : 0, lng);
            if (x.m == 0) fzero(s, r1, lng);
            else { x.m <<= 3; x = fnorm(x, lng ? 15 : 7); x.m >>= 4; fres(s, r1, x, lng); }
        } else fop(s, op & 15, r1, s->f[r2], s->f[r2 + 1], lng);
        return;
    }
    if (op < 0x40) switch (op) {
    case 4: s->cc = s->r[r1] >> 28 & 3; s->pm = s->r[r1] >> 24 & 15; return;
    case 5: v = s->r[r2]; s->r[r1] = link(s, next); if (r2) s->ia = v & A24; return;
    case 6: v = s->r[r2]; s->r[r1]--; if (r2 && s->r[r1]) s->ia = v & A24; return;
    case 7: if (r2 && (r1 & (8 >> s->cc))) s->ia = s->r[r2] & A24; return;
    case 8:
        if (s->r[r2] & 15) want(s, SPEC);
        if (bad(s, s->r[r2] & A24)) want(s, ADDR);
        if (s->codes) return;
        s->keys[(s->r[r2] & A24) >> 11] = s->r[r1] & (s->fetchprot ? 0xf8 : 0xf0);
        return;
    case 9:
        if (s->r[r2] & 15) want(s, SPEC);
        if (bad(s, s->r[r2] & A24)) want(s, ADDR);
        if (s->codes) return;
        s->r[r1] = (s->r[r1] & 0xffffff00u) | (s->keys[(s->r[r2] & A24) >> 11] & (s->fetchprot ? 0xf8 : 0xf0));
        return;
    case 10: s->svc = i2; return;
    case 0x10: v = s->r[r2]; o = v == 0x80000000u; if ((s32)v < 0) v = -v; s->r[r1] = v; s->cc = o ? 3 : v ? 2 : 0; if (o && (s->pm & 8)) s->pgm = FOVF; return;
    case 0x11: v = s->r[r2]; if ((s32)v > 0) v = -v; s->r[r1] = v; s->cc = v ? 1 : 0; return;
    case 0x12: s->r[r1] = s->r[r2]; s->cc = cc_s(s->r[r1]); return;
    case 0x13: v = s->r[r2]; o = v == 0x80000000u; s->r[r1] = -v; s->cc = o ? 3 : cc_s(-v); if (o && (s->pm & 8)) s->pgm = FOVF; return;
    case 0x14: s->r[r1] &= s->r[r2]; s->cc = s->r[r1] != 0; return;
    case 0x15: s->cc = cmp_u(s->r[r1], s->r[r2]); return;
    case 0x16: s->r[r1] |= s->r[r2]; s->cc = s->r[r1] != 0; return;
    case 0x17: s->r[r1] ^= s->r[r2]; s->cc = s->r[r1] != 0; return;
    case 0x18: s->r[r1] = s->r[r2]; return;
    case 0x19: s->cc = cmp_s(s->r[r1], s->r[r2]); return;
    case 0x1a: s->r[r1] = ar(s, s->r[r1], s->r[r2], 0); return;
    case 0x1b: s->r[r1] = ar(s, s->r[r1], s->r[r2], 1); return;
    case 0x1c: case 0x1d:
        v = s->r[r2]; goto muldiv;
    case 0x1e: s->r[r1] = al(s, s->r[r1], s->r[r2], 0); return;
    case 0x1f: s->r[r1] = al(s, s->r[r1], s->r[r2], 1); return;
    }
    if (op >= 0x60 && op <= 0x7f) {
        int lng = op < 0x70; u32 hi, lo = 0;
        a = ea(s, bd1, r2);
        if (r1 & 9) want(s, SPEC);
        acc(s, a, lng ? 8 : 4, (op & 15) == 0, lng ? 8 : 4);
        if (s->codes) { if ((op & 15) == 0) { } return; }
        if ((op & 15) == 0) { ww(s, a, s->f[r1]); if (lng) ww(s, a + 4, s->f[r1 + 1]); return; }
        hi = rw(s, a); if (lng) lo = rw(s, a + 4);
        fop(s, op & 15, r1, hi, lo, lng);
        return;
    }
    if (op < 0x80) {
        a = ea(s, bd1, r2);
        switch (op) {
        case 0x40: acc(s, a, 2, 1, 2); if (s->codes) return; wb(s, a, s->r[r1] >> 8); wb(s, a + 1, s->r[r1]); return;
        case 0x41: s->r[r1] = a; return;
        case 0x42: acc(s, a, 1, 1, 1); if (s->codes) return; wb(s, a, s->r[r1]); return;
        case 0x43: acc(s, a, 1, 0, 1); if (s->codes) return; s->r[r1] = (s->r[r1] & 0xffffff00u) | rb(s, a); return;
        case 0x44: {
            uint8_t sub[6]; int l, i;
            if (a & 1) want(s, SPEC);
            if (under_ex) { s->codes = 1u << EXEC; return; }
            acc(s, a, 2, 0, 1);
            if (s->codes) return;
            if (rb(s, a) == 0x44) {       /* which of several exceptions is indicated is not defined */
                u32 m = r1 ? s->r[r1] & 0xff : 0, a2 = ea(s, rb(s, a + 2) << 8 | rb(s, a + 3), (rb(s, a + 1) | m) & 15);
                want(s, EXEC); if (bad(s, a2)) want(s, ADDR); if (a2 & 1) want(s, SPEC);
                return;
            }
            l = length_of(rb(s, a));
            acc(s, a, l, 0, 1);
            if (s->codes) return;
            for (i = 0; i < 6; i++) sub[i] = i < l ? rb(s, a + i) : 0;
            if (r1) sub[1] |= s->r[r1] & 0xff;
            exec_inst(s, sub, l, next, 1);
            return; }
        case 0x45: s->r[r1] = link(s, next); s->ia = a; return;
        case 0x46: if (--s->r[r1]) s->ia = a; return;
        case 0x47: if (r1 & (8 >> s->cc)) s->ia = a; return;
        case 0x48: case 0x49: case 0x4a: case 0x4b: case 0x4c:
            acc(s, a, 2, 0, 2); if (s->codes) return;
            v = (u32)(s32)(int16_t)(rb(s, a) << 8 | rb(s, a + 1));
            switch (op) {
            case 0x48: s->r[r1] = v; break;
            case 0x49: s->cc = cmp_s(s->r[r1], v); break;
            case 0x4a: s->r[r1] = ar(s, s->r[r1], v, 0); break;
            case 0x4b: s->r[r1] = ar(s, s->r[r1], v, 1); break;
            case 0x4c: s->r[r1] = s->r[r1] * v; break;
            }
            return;
        case 0x4e: acc(s, a, 8, 1, 8); if (s->codes) return;
            { s64 x = (s32)s->r[r1]; wr_dec(s, a, 8, x < 0 ? -x : x, x < 0); } return;
        case 0x4f: acc(s, a, 8, 0, 8); if (s->codes) return;
            { dec d = rd_dec(s, a, 8); s64 x;
              if (!d.ok) { s->pgm = DATA; return; }
              x = d.neg ? -(s64)d.v : (s64)d.v;
              s->r[r1] = (u32)x;
              if (x > 2147483647ll || x < -2147483648ll) s->pgm = FDIV; }
            return;
        case 0x50: acc(s, a, 4, 1, 4); if (s->codes) return; ww(s, a, s->r[r1]); return;
        }
        acc(s, a, 4, 0, 4);
        if (op == 0x5c || op == 0x5d) if (r1 & 1) want(s, SPEC);
        if (s->codes) return;
        v = rw(s, a);
        switch (op) {
        case 0x54: s->r[r1] &= v; s->cc = s->r[r1] != 0; return;
        case 0x55: s->cc = cmp_u(s->r[r1], v); return;
        case 0x56: s->r[r1] |= v; s->cc = s->r[r1] != 0; return;
        case 0x57: s->r[r1] ^= v; s->cc = s->r[r1] != 0; return;
        case 0x58: s->r[r1] = v; return;
        case 0x59: s->cc = cmp_s(s->r[r1], v); return;
        case 0x5a: s->r[r1] = ar(s, s->r[r1], v, 0); return;
        case 0x5b: s->r[r1] = ar(s, s->r[r1], v, 1); return;
        case 0x5c: case 0x5d:
        muldiv:
            if (r1 & 1) { want(s, SPEC); return; }
            if ((op & 15) == 0xc) { p = (u64)((s64)(s32)s->r[r1 + 1] * (s32)v); s->r[r1] = p >> 32; s->r[r1 + 1] = (u32)p; return; }
            else {
                __int128 n = (__int128)(s64)((u64)s->r[r1] << 32 | s->r[r1 + 1]), q, rm; s32 d = (s32)v;
                if (d == 0) { s->pgm = FDIV; return; }
                q = n / d; rm = n % d;
                if (q > 2147483647ll || q < -2147483648ll) { s->pgm = FDIV; return; }
                s->r[r1] = (u32)(s32)rm; s->r[r1 + 1] = (u32)(s32)q; return;
            }
        case 0x5e: s->r[r1] = al(s, s->r[r1], v, 0); return;
        case 0x5f: s->r[r1] = al(s, s->r[r1], v, 1); return;
        }
        return;
    }
    if (op < 0xc0) {
        a = ea(s, bd1, 0);
        switch (op) {
        case 0x80: acc(s, a, 1, 0, 1); if (s->codes) return; s->sysmask = rb(s, a); return;
        case 0x82: acc(s, a, 8, 0, 8); if (s->codes) return; { int il = s->ilc; psw_load(s, a); s->ilc = il; } return;
        case 0x86: case 0x87: {
            u32 inc = s->r[r2], cmpv = s->r[r2 | 1], sum = s->r[r1] + inc;
            s->r[r1] = sum;
            if (((s32)sum > (s32)cmpv) == (op == 0x86)) s->ia = a;
            return; }
        case 0x88: t = a & 63; s->r[r1] = t > 31 ? 0 : s->r[r1] >> t; return;
        case 0x89: t = a & 63; s->r[r1] = t > 31 ? 0 : s->r[r1] << t; return;
        case 0x8a: t = a & 63; s->r[r1] = (u32)((s32)s->r[r1] >> (t > 31 ? 31 : t)); s->cc = cc_s(s->r[r1]); return;
        case 0x8b: { u32 sg = s->r[r1] & 0x80000000u; v = s->r[r1]; o = 0;
            for (t = a & 63; t; t--) { if (((v << 1) ^ sg) & 0x80000000u) o = 1; v = ((v << 1) & 0x7fffffff) | sg; }
            s->r[r1] = v; s->cc = o ? 3 : cc_s(v); if (o && (s->pm & 8)) s->pgm = FOVF; return; }
        case 0x8c: case 0x8d: case 0x8e: case 0x8f:
            if (r1 & 1) { want(s, SPEC); return; }
            shift_d(s, op, r1, a & 63); return;
        case 0x90: case 0x98: {
            int n = ((r2 - r1) & 15) + 1, i;
            acc(s, a, 4 * n, op == 0x90, 4);
            if (s->codes) { if (op == 0x90) { if (!(s->codes & 1u << SPEC)) un_store(s); } else if (!(s->codes & 1u << SPEC)) for (i = 0; i < n; i++) s->un_regs |= 1u << ((r1 + i) & 15); return; }
            for (i = 0; i < n; i++) if (op == 0x90) ww(s, a + 4 * i, s->r[(r1 + i) & 15]); else s->r[(r1 + i) & 15] = rw(s, a + 4 * i);
            return; }
        case 0x91: acc(s, a, 1, 0, 1); if (s->codes) return; v = rb(s, a) & i2; s->cc = v == 0 ? 0 : v == i2 ? 3 : 1; return;
        case 0x92: acc(s, a, 1, 1, 1); if (s->codes) return; wb(s, a, i2); return;
        case 0x93: acc(s, a, 1, 1, 1); if (s->codes) { un_store(s); s->un_cc = 1; return; } s->cc = rb(s, a) >> 7; wb(s, a, 0xff); return;
        case 0x94: case 0x96: case 0x97: acc(s, a, 1, 1, 1); if (s->codes) { s->un_cc = 1; return; }
            v = rb(s, a); v = op == 0x94 ? v & i2 : op == 0x96 ? v | i2 : v ^ i2; wb(s, a, v); s->cc = v != 0; return;
        case 0x95: acc(s, a, 1, 0, 1); if (s->codes) return; s->cc = cmp_u(rb(s, a), i2); return;
        default: if (!s->codes) s->undef = 1; return;   /* diagnose, direct control, I/O */
        }
    }
    if ((op & 0xf0) == 0xd0) ss_len1(s, op, i2, ea(s, bd1, 0), ea(s, bd2, 0));
    else ss_len2(s, op, r1, r2, ea(s, bd1, 0), ea(s, bd2, 0));
}
void s360_step(s360 *s) {
    uint8_t in[6] = {0}; int l, i; u32 pc = s->ia;
    s->pgm = 0; s->codes = 0; s->svc = -1; s->un_cc = 0; s->un_regs = s->un_fp = 0; s->un_lo = s->un_hi = 0; s->undef = 0; s->st_lo = s->st_hi = 0;
    if (pc & 1) want(s, SPEC);
    acc(s, pc, 2, 0, 1);
    if (s->codes) { s->undef |= 4; goto done; }   /* instruction length is not meaningful */
    l = length_of(rb(s, pc));
    s->ilc = l / 2;
    acc(s, pc, l, 0, 1);
    if (s->codes) { s->undef |= 4; goto done; }
    for (i = 0; i < l; i++) in[i] = rb(s, pc + i);
    exec_inst(s, in, l, (pc + l) & A24, 0);
done:
    if (s->codes && !s->pgm) { for (i = 1; i < 16; i++) if (s->codes >> i & 1) { s->pgm = i; break; } }
    else if (s->pgm) s->codes = 1u << s->pgm;
    if (s->pgm) s360_swap(s, 0x28, 0x68, s->pgm);
    else if (s->svc >= 0) s360_swap(s, 0x20, 0x60, s->svc);
}
