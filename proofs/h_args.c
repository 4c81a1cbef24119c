// args.c: argument lists. Sequences of operations on an argument list against
// the list of strings it stands for; every buffer is owned by one place.
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include "xmalloc.h"
#include "util.h"
#if !VP_NATIVE
#define STEPS 4
#define NA 8
// buffers are handles: appending makes a fresh owned one
static int live[12]; static int nh = 1; static struct buf AB[NA];
#define H(p) ((int)(uintptr_t)(p) - 0x1000)
void buf_clear(struct buf *b) {
    if (b->cap) { int h = H(b->data); VP_ASSERT(C23, h > 0 && h < nh && live[h] == 1, "owned memory is released once"); live[h] = 0; }
    b->data = 0; b->len = 0; b->cap = 0;
}
void buf_append(struct buf *b, const void *d, size_t n) {
    if (n == 0) return;
    if (b->cap == 0) { VP_LIMIT(nh < 12, "buffers"); live[nh] = 1; b->data = (char*)(uintptr_t)(0x1000 + nh); nh++; }
    else VP_ASSERT(C23, live[H(b->data)] == 1, "nothing is appended to released memory");
    VP_ASSERT(C23, b->len == 0, "an argument starts empty");
    b->cap = b->len + n; b->len += n;
}
static int nre;
void *vp_xrealloc(void *p, size_t n) { VP_ASSERT(C23, p == (nre ? (void*)AB : (void*)0), "the list itself grows"); nre++; VP_LIMIT(n <= sizeof AB, "arguments"); return AB; }
static int nfreelist;
void vp_xfree(void *p) { VP_ASSERT(C23, p == (nre ? (void*)AB : (void*)0), "the list itself is released"); nfreelist++; }
#define xrealloc vp_xrealloc
#define xfree vp_xfree
#include "args.c"
#else
#define STEPS 30
#define NA 64
#include "buf.c"
void *xmalloc(size_t n) { return malloc(n); }
void *xrealloc(void *p, size_t n) { return realloc(p, n); }
void xfree(void *p) { free(p); }
#include "args.c"
#include "util.c"
#endif
struct arg { const char *p; size_t n; bool zero; };
static struct arg L[NA]; static int nl;
static char pool[64];
void harness_args(void) {
    struct args a; memset(&a, 0, sizeof a); nl = 0;
    int steps = vp_choose(STEPS+1);
#if VP_NATIVE
    for (int i = 0; i < 64; i++) pool[i] = i*37 + 11;
#endif
    for (int s = 0; s < STEPS; s++) {
        if (s >= steps) break;
        int op = vp_choose(VP_NATIVE ? 8 : 3);
        if (op == 1) { args_remove_first(&a); if (nl) { for (int i = 0; i + 1 < nl; i++) L[i] = L[i+1]; nl--; } }
        else if (op == 2) { args_clear(&a); nl = 0; }
        else {
            struct arg x; x.p = pool + vp_choose(16); x.n = VP_NATIVE ? vp_choose(40) : vp_choose(3); x.zero = vp_bool();
            VP_LIMIT(nl < NA, "arguments");
            args_append(&a, x.p, x.n, x.zero); L[nl++] = x;
        }
        VP_ASSERT(C23, a.len == (size_t)nl && (size_t)args_count(&a) == a.len && a.len <= a.cap, "an argument list has as many arguments as were appended");
        bool allzero = true;
        for (int i = 0; i < NA; i++) if (i < nl) {
            size_t n = 77; const char *p = args_at(&a, i, &n);
            VP_ASSERT(C23, n == L[i].n, "an argument has its length");
            if (L[i].zero) VP_ASSERT(C23, p == L[i].p && a.bufs[i].cap == 0, "a borrowed argument is where it was, and is not owned");
            else {
                allzero = false;
#if VP_NATIVE
                VP_ASSERT(C23, n == 0 || (p != L[i].p && memcmp(p, L[i].p, n) == 0), "a copied argument has its bytes");
#else
                VP_ASSERT(C23, n == 0 || (a.bufs[i].cap >= n && H(p) > 0 && H(p) < nh && live[H(p)] == 1), "a copied argument is owned");
                for (int j = 0; j < NA; j++) if (j < i && n && a.bufs[j].cap) VP_ASSERT(C23, a.bufs[j].data != p, "an argument has its own memory");
#endif
            }
        }
        VP_ASSERT(C23, nl == 0 || allzero || !a.zerocopy, "a list with copied arguments is not marked as borrowed");
        VP_COVER(nl == 2 && !allzero, "copied arguments");
    }
    args_free(&a);
#if !VP_NATIVE
    VP_ASSERT(C23, nfreelist == 1, "the list is released");
    for (int h = 1; h < 12; h++) if (h < nh) VP_ASSERT(C23, live[h] == 0, "every copied argument is released");
#endif
}
void harness_argseq(void) {
#if VP_NATIVE
    struct args a; memset(&a, 0, sizeof a); char d[10], c[10]; int n = vp_choose(9), m = vp_choose(9); bool eq = n == m;
    for (int i = 0; i < n; i++) d[i] = vp_byte_from("aAbBzZ@[`{09");
    for (int i = 0; i < m; i++) { c[i] = vp_bool() && i < n ? d[i] : vp_byte_from("abAB@[`{09"); if (!c[i]) c[i] = 'q'; }
    c[m] = 0;
    for (int i = 0; eq && i < n; i++) { unsigned char x = d[i], y = c[i]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) eq = false; }
    args_append(&a, "x", 1, true); args_append(&a, d, n, vp_bool());
    VP_ASSERT(C23, args_eq(&a, 1, c) == eq && !args_eq(&a, 2, c), "arguments compare whatever their case");
    args_free(&a);
#endif
}
