// Entry encoding (pogocache.c): the layout written by entry_new and read by
// entry_extract / entry_key / entry_value / entry_expires / entry_cas /
// entry_memsize, for every key length, value length, expiration, flags, cas
// and option.
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#ifdef VP_CBMC
void *g_memcpy(void *dst, const void *src, size_t n);
#define memcpy g_memcpy
#endif
#include "pogocache.c"

#ifndef KMAX
#define KMAX 200
#endif
#ifndef VMAX
#define VMAX (((size_t)1)<<40)
#endif

static size_t msize; static void *mptr; static bool mfail;
#if VP_NATIVE
static void *hmalloc(size_t n) { msize = n; if (mfail) return 0; return mptr = malloc(n); }
#else
// Contract of malloc: a fresh object of n bytes. Only its header is backed:
// key and value bytes are never touched in the proof (see g_memcpy), and a
// touch outside the header would be a failed pointer obligation.
static union { struct entry e; char bytes[96]; } arena;
static void *hmalloc(size_t n) { msize = n; if (mfail) return 0; return mptr = &arena; }
#endif
static void hfree(void *p) { (void)p; }

#ifdef VP_CBMC
// Contract of memcpy(dst, src, n), instantiated: the bytes [dst, dst+n) become
// those of [src, src+n). Copies of the caller's key and value are recorded;
// the short header copies (n <= 10) are carried out.
static const char *g_key, *g_val; static struct { char *dst; size_t n; int times; } ck, cv;
void *g_memcpy(void *dst, const void *src, size_t n) {
    if (src == g_key) { ck.dst = dst; ck.n = n; ck.times++; return dst; }
    if (src == g_val) { cv.dst = dst; cv.n = n; cv.times++; return dst; }
    VP_LIMIT(n <= 10, "header copies are at most 10 bytes");
    for (size_t i = 0; i < 10; i++) if (i < n) ((char*)dst)[i] = ((const char*)src)[i];
    return dst;
}
#endif

#ifdef VP_CBMC
// Contract of the varint pair (proved in varint.c): write stores 1..10 bytes,
// read at the same bytes gives back the number and the same count.
static uint64_t g_vx; static int g_vn; static uint8_t g_vb[10];
int vp_stub_varint_write_u64(void *data, uint64_t x) {
    g_vx = x; g_vn = 1;
    for (int i = 1; i < 10; i++) if (x >> (7*i)) g_vn = i+1;
    for (int i = 0; i < 10; i++) { g_vb[i] = vp_u8(); if (i < g_vn) ((uint8_t*)data)[i] = g_vb[i]; }
    return g_vn;
}
// Contract of the sixpack pair (sixpack.c): pack gives 0 (not packable) or a
// length of at most 96 <= 128; unpacking those bytes gives back the key.
static bool packed; static size_t g_pl, g_kl; static const char *unp_data; static int unp_len;
int vp_stub_sixpack(const char *data, int len, char dst[]) {
    VP_ASSERT(C01, data == g_key && (size_t)len == g_kl && len <= 128, "the whole key is packed into a buffer that can hold it");
    int r = vp_range(0, 96);
    if (len == 0) r = 0;
    packed = r > 0; g_pl = r;
    if (packed) g_key = dst;
    return r;
}
int vp_stub_unsixpack(const char *data, int len, char dst[]) {
    (void)dst; unp_data = data; unp_len = len;
    return (int)g_kl;
}
int vp_stub_varint_read_u64(const void *data, uint64_t *x) {
    bool same = true;
    for (int i = 0; i < 10; i++) if (i < g_vn && ((const uint8_t*)data)[i] != g_vb[i]) same = false;
    if (same) { *x = g_vx; return g_vn; }
    *x = vp_u64(); return vp_range(1, 10);
}
#endif

// Arbitrary key bytes, arbitrary value bytes; compared at an arbitrary index.
void harness_raw(void) {
    struct pgctx ctx; memset(&ctx, 0, sizeof ctx);
    ctx.malloc = hmalloc; ctx.free = hfree;
    ctx.usecas = vp_bool();
#ifdef CASE_CAS
    VP_ASSUME(ctx.usecas == CASE_CAS); ctx.usecas = CASE_CAS;
#endif
    ctx.nosixpack = vp_bool();
    mfail = vp_bool();
#if VP_NATIVE
    size_t keylen = vp_choose(4) == 0 ? vp_choose(70000) : vp_choose(300);
    size_t vallen = vp_choose(4) == 0 ? vp_choose(70000) : vp_choose(300);
#else
    size_t kl0 = vp_in(); size_t keylen = vp_in(); (void)kl0;
    VP_ASSUME(keylen <= VMAX);
    size_t vl0 = vp_in(); size_t vallen = vp_in(); (void)vl0;
    VP_ASSUME(vallen <= VMAX);
#endif
#if VP_NATIVE
    char *key = malloc(keylen + 1), *val = malloc(vallen + 1);
#else
    static char akey[1], aval[1]; char *key = akey, *val = aval;
#endif
    size_t ki = vp_in(), vi = vp_in();
    uint8_t kb = vp_u8(), vb = vp_u8();
#if VP_NATIVE
    memset(key, 'k', keylen); memset(val, 'v', vallen);
    if (vp_bool()) for (size_t i = 0; i < keylen; i++) key[i] = (char)vp_byte_from("abcXY:_09.-Q");
    if (keylen) ki %= keylen;
    if (vallen) vi %= vallen;
    if (ki < keylen) key[ki] = kb;
    if (vi < vallen) val[vi] = vb;
#endif
#ifdef VP_CBMC
    g_key = key; g_val = val; g_kl = keylen;
#endif
    int64_t expires = vp_i64(); uint32_t flags = vp_u32(); uint64_t cas = vp_u64();

    struct entry *e = entry_new(key, keylen, val, vallen, expires, flags, cas, &ctx);
    VP_ASSERT(C10, (e == 0) == mfail, "an entry is refused exactly when memory is");
    if (!e) return;
    VP_COVER(1, "entry made");
    VP_ASSERT(C01, atomic_load(&e->rc) == 1, "a new entry has one owner");
    VP_ASSERT(C01, entry_memsize(e) == msize, "recorded size is the allocated size");
    VP_ASSERT(C01, entry_expires(e) == (expires > 0 ? expires : 0), "expiration read back");
    VP_ASSERT(C01, entry_cas(e, &ctx) == (ctx.usecas ? cas : 0), "cas read back");
    const char *k2 = 0, *v2 = 0; size_t k2l = 0, v2l = 0; char buf[128];
    int64_t ex2; uint32_t fl2; uint64_t cas2;
    size_t sz = entry_extract(e, &k2, &k2l, buf, &v2, &v2l, &ex2, &fl2, &cas2, &ctx);
    VP_ASSERT(C01, sz == msize, "extract reports the allocated size");
    VP_ASSERT(C01, ex2 == (expires > 0 ? expires : 0), "extract: expiration");
    VP_ASSERT(C01, fl2 == flags, "extract: flags");
    VP_ASSERT(C01, cas2 == (ctx.usecas ? cas : 0), "extract: cas");
    VP_ASSERT(C01, k2l == keylen, "extract: key length");
    VP_ASSERT(C01, v2l == vallen, "extract: value length");
#ifdef VP_CBMC
    VP_ASSERT(C01, ck.times == 1 && ck.n == (packed ? g_pl : keylen) && (packed ? k2 == buf : ck.dst == k2), "key bytes are copied to where they are read");
    VP_ASSERT(C01, cv.times == 1 && cv.n == vallen && cv.dst == v2, "value bytes are copied to where they are read");
    VP_ASSERT(C01, !packed || (unp_data == ck.dst && unp_len == (int)g_pl), "the packed key is unpacked from where it was stored");
    k2 = ck.dst;
    VP_ASSERT(C01, __CPROVER_POINTER_OBJECT(k2) == __CPROVER_POINTER_OBJECT(mptr) &&
        __CPROVER_POINTER_OBJECT(v2) == __CPROVER_POINTER_OBJECT(mptr), "key and value lie in the entry");
    VP_ASSERT(C01, (size_t)__CPROVER_POINTER_OFFSET(k2) + ck.n <= (size_t)__CPROVER_POINTER_OFFSET(v2), "key and value do not overlap");
    VP_ASSERT(C01, (size_t)__CPROVER_POINTER_OFFSET(v2) + vallen <= msize, "value lies within the allocation");
#else
    VP_ASSERT(C01, ki >= keylen || k2l != keylen || (uint8_t)k2[ki] == kb, "extract: every key byte");
    VP_ASSERT(C01, vi >= vallen || v2l != vallen || (uint8_t)v2[vi] == vb, "extract: every value byte");
#endif
#ifdef VP_CBMC
#define PK (packed ? (const char*)buf : k2)
#else
#define PK k2
#endif
    size_t k3l = 0, v3l = 0;
    const char *k3 = entry_key(e, &k3l, buf, &ctx);
    const char *v3 = entry_value(e, &v3l, &ctx);
    VP_ASSERT(C01, k3l == keylen && (VP_NATIVE ? memcmp(k3, key, keylen) == 0 : k3 == PK), "key accessor agrees");
    VP_ASSERT(C01, v3l == vallen && v3 == v2, "value accessor agrees");
    const char *v4 = 0; size_t v4l = 0;
    entry_extract(e, 0, 0, 0, &v4, &v4l, 0, 0, 0, &ctx);
    VP_ASSERT(C01, v4 == v2 && v4l == vallen, "partial extract agrees");
#if VP_NATIVE
    free(key); free(val); free(e);
#endif
}
