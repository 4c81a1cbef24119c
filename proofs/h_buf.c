// buf.c and args.c: growing buffers and argument lists, for buffers of any size.
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include "xmalloc.h"
#include "util.h"
#if !VP_NATIVE
// record-only memory: the bytes are assumed to be copied by memcpy, and kept
// by realloc (contracts of the C library)
static char *const OLD = (char*)0x100000000, *const NEW = (char*)0x7000000000000;
static size_t re_sz; static int re_n, cp_n, free_n; static void *re_p, *free_p, *cp_d; static const void *cp_s; static size_t cp_l;
void *vp_xrealloc(void *p, size_t n) { re_n++; re_p = p; re_sz = n; return NEW; }
void *vp_xmalloc(size_t n) { return vp_xrealloc(0, n); }
void vp_xfree(void *p) { free_n++; free_p = p; }
void *vp_memcpy(void *d, const void *s, size_t n) { cp_n++; cp_d = d; cp_s = s; cp_l = n; return d; }
#define memcpy vp_memcpy
#define xrealloc vp_xrealloc
#define xfree vp_xfree
#include "buf.c"
#undef memcpy
#define MAXB ((int64_t)1 << 40)
static struct buf B0;
static void mkbuf(struct buf *b) {
    b->cap = vp_range(0, MAXB); b->len = vp_range(0, MAXB); VP_ASSUME(b->len <= b->cap);
    b->data = b->cap ? OLD : 0;
    B0 = *b;
}
// room for n more bytes; the content is kept
static void grown(struct buf *b, size_t n) {
    VP_ASSERT(C23, b->cap >= B0.len + n, "there is room for what is appended");
    if (re_n) VP_ASSERT(C23, re_n == 1 && re_p == B0.data && re_sz == b->cap && b->data == NEW && b->cap >= B0.cap, "the buffer grows with its content");
    else VP_ASSERT(C23, b->data == B0.data && b->cap == B0.cap, "the buffer stays");
}
void harness_ensure(void) {
    struct buf b; mkbuf(&b); size_t n = vp_range(0, MAXB);
    buf_ensure(&b, n);
    grown(&b, n);
    VP_ASSERT(C23, b.len == B0.len, "the length is unchanged");
    VP_ASSERT(C23, B0.len + n <= B0.cap ? re_n == 0 : 1, "no memory is asked for when there is room");
    VP_COVER(re_n, "grown"); VP_COVER(n > 0 && !re_n, "not grown");
}
void harness_append(void) {
    struct buf b; mkbuf(&b); size_t n = vp_range(0, MAXB); char *src = (char*)0x200;
    buf_append(&b, src, n);
    grown(&b, n);
    VP_ASSERT(C23, b.len == B0.len + n, "the length grows by what is appended");
    if (n) VP_ASSERT(C23, cp_n == 1 && cp_d == b.data + B0.len && cp_s == src && cp_l == n, "what is appended goes behind the content");
    else VP_ASSERT(C23, cp_n == 0 || cp_l == 0, "nothing is copied");
    VP_COVER(re_n, "grown"); VP_COVER(n == 0, "nothing");
}
static char small[32];
void harness_byte(void) {
    struct buf b; mkbuf(&b); char c = vp_u8();
    if (b.len < b.cap) { VP_ASSUME(b.len < 32); b.data = B0.data = small; }
    buf_append_byte(&b, c);
    VP_ASSERT(C23, b.len == B0.len + 1, "the length grows by one");
    if (B0.len < B0.cap) VP_ASSERT(C23, re_n == 0 && b.data == B0.data && b.cap == B0.cap && (cp_n ? cp_d == b.data + B0.len && cp_l == 1 : small[B0.len] == c), "the byte goes behind the content");
    else { grown(&b, 1); VP_ASSERT(C23, cp_n == 1 && cp_d == b.data + B0.len && cp_l == 1, "the byte goes behind the content"); }
    VP_COVER(re_n, "grown"); VP_COVER(!re_n, "room");
}
void harness_bufclear(void) {
    struct buf b; mkbuf(&b); if (!b.cap && vp_bool()) b.data = B0.data = (char*)0x300; b.len = vp_u64();
    buf_clear(&b);
    VP_ASSERT(C23, b.data == 0 && b.len == 0 && b.cap == 0, "a cleared buffer is empty");
    VP_ASSERT(C23, B0.cap ? free_n == 1 && free_p == B0.data : free_n == 0, "owned memory is released once, borrowed memory never");
    VP_COVER(free_n, "owned"); VP_COVER(!free_n, "borrowed");
}
static char wr[10]; static int wrn; static uint64_t wx;
int varint_write_u64(void *d, uint64_t x) { wx = x; VP_ASSERT(C23, re_n == 1 && (char*)d == NEW + B0.len, "the number goes behind the content"); wrn = 1 + vp_choose(10); return wrn; }
int varint_write_i64(void *d, int64_t x) { return varint_write_u64(d, (uint64_t)x); }
void harness_varint(void) {
    struct buf b; mkbuf(&b); VP_ASSUME(b.cap < b.len + 10); uint64_t x = vp_u64();
    if (vp_bool()) buf_append_uvarint(&b, x); else buf_append_varint(&b, (int64_t)x);
    grown(&b, 10);
    VP_ASSERT(C23, wx == x && b.len == B0.len + wrn && b.len <= b.cap, "the length grows by the number's");
    VP_COVER(wrn == 10, "number");
}
#else
// natively: random operations against a plain model, under AddressSanitizer
#include "buf.c"
void *xmalloc(size_t n) { void *p = malloc(n); if (p) memset(p, 0xEE, n); return p; }
void *xrealloc(void *p, size_t n) { return realloc(p, n); }
void xfree(void *p) { free(p); }
#include "args.c"
#include "util.c"
static char model[70000]; static size_t ml;
static void bufrac(void) {
    struct buf b = {0}; ml = 0;
    int steps = vp_choose(40);
    for (int s = 0; s < steps; s++) {
        int op = vp_choose(6); size_t n = vp_bool() ? vp_choose(20) : vp_choose(600); char tmp[600], c = vp_u8(); uint64_t x = vp_u64();
        for (size_t i = 0; i < n; i++) tmp[i] = (char)(c + i*7 + s);
        switch (op) {
        case 0: buf_ensure(&b, n); VP_ASSERT(C23, b.cap >= b.len + n, "there is room for what is appended"); break;
        case 1: buf_append(&b, tmp, n); memcpy(model + ml, tmp, n); ml += n; break;
        case 2: buf_append_byte(&b, c); model[ml++] = c; break;
        case 3: buf_append_uvarint(&b, x); ml += varint_write_u64(model + ml, x); break;
        case 4: buf_append_varint(&b, (int64_t)x); ml += varint_write_i64(model + ml, (int64_t)x); break;
        case 5: if (vp_choose(8) == 0) { buf_clear(&b); ml = 0; } break;
        }
        VP_ASSERT(C23, b.len == ml && (ml == 0 || memcmp(b.data, model, ml) == 0), "a buffer holds what was appended");
        VP_ASSERT(C23, b.len <= b.cap, "the length is within the capacity");
    }
    buf_clear(&b);
    VP_ASSERT(C23, b.data == 0 && b.len == 0 && b.cap == 0, "a cleared buffer is empty");
}
void harness_ensure(void) { bufrac(); }
void harness_append(void) { bufrac(); }
void harness_byte(void) { bufrac(); }
void harness_bufclear(void) { bufrac(); }
void harness_varint(void) { bufrac(); }
#endif
