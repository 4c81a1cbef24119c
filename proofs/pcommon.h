// Shared by the parser harnesses: argument lists and numbers by contract
// (their own obligations are C23 and C17), reference helpers.
#ifndef PCOMMON_H
#define PCOMMON_H
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/types.h>
#include "xmalloc.h"
#include "util.h"
#include "stats.h"
#include "parse.h"
#ifndef PMAX
#define PMAX 8
#endif
#ifndef CAPB
#define CAPB 16
#endif
void stat_store_too_large_incr(struct conn *c) { (void)c; }
static int nauthcmd, nautherr;
void stat_auth_cmds_incr(struct conn *c) { (void)c; nauthcmd++; }
void stat_auth_errors_incr(struct conn *c) { (void)c; nautherr++; }
#if !VP_NATIVE
// which of an integer type the decimal string denotes
static bool num_of(const char *s, size_t n, bool allowneg, bool *neg, uint64_t *v) {
    size_t i = 0; *neg = false; *v = 0;
    if (n > 0 && (s[0] == '-' || s[0] == '+')) { *neg = s[0] == '-'; i = 1; }
    if ((*neg && !allowneg) || i == n || n > 21) return false;
    for (size_t k = 0; k < CAPB; k++) if (k >= i && k < n) {
        if (s[k] < '0' || s[k] > '9') return false;
        *v = *v*10 + (uint64_t)(s[k] - '0');
    }
    VP_LIMIT(n <= CAPB && n <= 18, "digits");
    return true;
}
bool parse_i64(const char *s, size_t n, int64_t *x) { bool neg; uint64_t v; if (!num_of(s, n, true, &neg, &v)) return false; *x = neg ? -(int64_t)v : (int64_t)v; return true; }
bool parse_u64(const char *s, size_t n, uint64_t *x) { bool neg; uint64_t v; if (!num_of(s, n, false, &neg, &v)) return false; *x = v; return true; }
bool argi64(struct args *a, int i, int64_t *x) { return parse_i64(a->bufs[i].data, a->bufs[i].len, x); }
bool argu64(struct args *a, int i, uint64_t *x) { return parse_u64(a->bufs[i].data, a->bufs[i].len, x); }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
bool argeq_bytes(const void *d, size_t n, const char *s) {
    const char *p = d; size_t i = 0;
    for (; i < 24; i++) { if (i >= n || !s[i]) break; if (low(p[i]) != low(s[i])) return false; }
    return i == n && !s[i];
}
bool argeq(struct args *a, int i, const char *s) { return argeq_bytes(a->bufs[i].data, a->bufs[i].len, s); }
#ifndef VP_ARGS
#define VP_ARGS 3
#endif
static struct buf PB[VP_ARGS][PMAX]; static char copies[VP_ARGS][PMAX][CAPB]; static char tok[CAPB]; static int npb, nfreed;
#ifdef ONEARG
// any one argument, chosen in advance, stands for all of them
static size_t J; static const char *jp; static size_t jn; static char jown[CAPB];
void args_append(struct args *a, const char *d, size_t n, bool zero) {
    if (a->len++ != J) return;
    jp = zero ? d : 0; jn = n;
    if (!zero) { VP_LIMIT(n <= CAPB, "copied argument"); for (size_t k = 0; k < CAPB; k++) if (k < n) jown[k] = d[k]; }
}
#else
void args_append(struct args *a, const char *d, size_t n, bool zero) {
    if (!a->bufs) { VP_LIMIT(npb < VP_ARGS, "argument lists"); a->bufs = PB[npb++]; a->cap = PMAX; a->len = 0; }
    VP_LIMIT(a->len < PMAX, "arguments");
    size_t i = a->len++;
    if (zero) { a->bufs[i].data = (char*)d; a->bufs[i].len = n; a->bufs[i].cap = 0; return; }
    char *c = copies[(a->bufs - PB[0]) / PMAX][i];
    VP_LIMIT(n <= CAPB, "copied argument");
    for (size_t k = 0; k < CAPB; k++) if (k < n) c[k] = d[k];
    a->bufs[i].data = c; a->bufs[i].len = n; a->bufs[i].cap = 1;
}
#endif
void args_clear(struct args *a) { a->len = 0; }
void args_free(struct args *a) { a->len = 0; a->bufs = 0; a->cap = 0; nfreed++; }
void args_print(struct args *a) { (void)a; }
void buf_clear(struct buf *b) { b->data = 0; b->len = 0; b->cap = 0; }
void buf_append_byte(struct buf *b, char c) { VP_LIMIT(b->len < CAPB, "token"); b->data = tok; b->cap = CAPB; tok[b->len++] = c; }
void buf_append(struct buf *b, const void *d, size_t n) { const char *p = d; for (size_t k = 0; k < CAPB; k++) if (k < n) buf_append_byte(b, p[k]); VP_LIMIT(n <= CAPB, "token"); }
#define snprintf(b, n, ...) ((b)[0] = 'E', 1)
#define memchr vp_memchr
static void *vp_memchr(const void *d, int c, size_t n) { const char *p = d; for (size_t i = 0; i < n; i++) if (p[i] == (char)c) return (void*)(p + i); return 0; }
#else
#include "buf.c"
void *xmalloc(size_t n) { return malloc(n); }
void *xrealloc(void *p, size_t n) { return realloc(p, n); }
void xfree(void *p) { free(p); }
#include "args.c"
#include "util.c"
#endif
#ifdef ONEARG
// the expected argument J; nx arguments are expected
static const char *xp; static size_t xn; static char xown[VP_NATIVE ? 1024 : CAPB]; static size_t nx;
#if VP_NATIVE
static size_t J;
#endif
static void xborrow(const char *p, size_t n) { if (nx++ == J) { xp = p; xn = n; } }
static bool same_args(struct args *a) {
    if (a->len != nx) return false;
    if (J >= nx) return true;
#if VP_NATIVE
    const char *jp = a->bufs[J].data; size_t jn = a->bufs[J].len;
    return jn == xn && memcmp(jp, xp ? xp : xown, xn) == 0;
#else
    if (jn != xn) return false;
    if (xp) { VP_LIMIT(jp == xp || xn == 0, "a borrowed argument is the bytes of the request themselves"); return true; }
    VP_LIMIT(!jp, "a copied argument");
    for (size_t k = 0; k < CAPB; k++) if (k < xn && jown[k] != xown[k]) return false;
    return true;
#endif
}
#else
// expected arguments
struct xarg { const char *p; size_t n; char own[VP_NATIVE ? 64 : CAPB]; };
static struct xarg X[VP_NATIVE ? 64 : PMAX + 1]; static int nx;
static bool same_args(struct args *a) {
    if (a->len != (size_t)nx) return false;
    for (int i = 0; i < (VP_NATIVE ? 64 : PMAX); i++) if (i < nx) {
        if (a->bufs[i].len != X[i].n) return false;
#if !VP_NATIVE
        // borrowed arguments are the bytes of the request themselves, or literals
        if (X[i].p) {
            if (a->bufs[i].data == X[i].p || X[i].n == 0) continue;
            VP_LIMIT((i == 0 || a->bufs[i].cap) && X[i].n < 10, "a borrowed argument");
            for (size_t k = 0; k < 10; k++) if (k < X[i].n && a->bufs[i].data[k] != X[i].p[k]) return false;
            continue;
        }
#endif
        const char *p = X[i].p ? X[i].p : X[i].own;
        for (size_t k = 0; k < (VP_NATIVE ? 1000 : CAPB); k++) if (k < X[i].n && a->bufs[i].data[k] != p[k]) return false;
    }
    return true;
}
#endif
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
#endif
