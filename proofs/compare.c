// Key identity: entry_compare and bucket_eq (pogocache.c).
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#ifdef VP_CBMC
int g_memcmp(const void *x, const void *y, size_t n);
#define memcmp g_memcmp
#include "pogocache.c"
#undef memcmp
// entry_compare against the contracts of entry_sixpacked / entry_rawkey /
// entry_key (entry.c) and memcmp. Lemma used: two packed keys are equal iff
// their packed forms are (sixpack.c: unsixpack inverts sixpack).
static struct entry ea, eb; static bool pa, pb, keyeq, raweq;
static char ra[1], rb[1], ka[1], kb[1]; static size_t ral, rbl, kal, kbl;
bool vp_stub_entry_sixpacked(const struct entry *e) { return e == &ea ? pa : pb; }
const char *vp_stub_entry_rawkey(const struct entry *e, size_t *n, struct pgctx *ctx) {
    (void)ctx; *n = e == &ea ? ral : rbl; return e == &ea ? ra : rb;
}
const char *vp_stub_entry_key(const struct entry *e, size_t *n, char buf[128], struct pgctx *ctx) {
    (void)ctx; (void)buf; *n = e == &ea ? kal : kbl; return e == &ea ? ka : kb;
}
int g_memcmp(const void *x, const void *y, size_t n) {
    int c = vp_int();
    bool xr = x == ra || x == rb, yr = y == ra || y == rb;
    VP_ASSERT(C02, x != y, "both keys are looked at");
    if (n == 0) return 0;
    if (xr && yr && pa == pb && ral == rbl && n == ral) { __CPROVER_assume((c == 0) == raweq); }
    else if (!xr && !yr && kal == kbl && n == kal) { __CPROVER_assume((c == 0) == keyeq); }
    return c;
}
void harness_compare(void) {
    struct pgctx ctx; 
    pa = vp_bool(); pb = vp_bool(); keyeq = vp_bool();
    ral = vp_u64(); rbl = vp_u64(); kal = vp_u64(); kbl = vp_u64();
    if (!pa) ral = kal;
    if (!pb) rbl = kbl;
    VP_ASSUME(!pa || (kal > 0 && ral > 0)); VP_ASSUME(!pb || (kbl > 0 && rbl > 0));
    if (keyeq) VP_ASSUME(kal == kbl);
    if (kal == 0 && kbl == 0) keyeq = true;
    raweq = keyeq;
    if (pa == pb && raweq) VP_ASSUME(ral == rbl);
    int c = entry_compare(&ea, &eb, &ctx);
    VP_ASSERT(C02, (c == 0) == keyeq, "entries compare equal exactly when their keys are the same bytes");
    VP_COVER(keyeq && pa && pb, "equal packed"); VP_COVER(!keyeq && pa != pb, "differing mixed");
}

// bucket_eq: hash and key both equal.
static struct bucket *vbkt; static uint32_t vhash;
uint32_t vp_stub_get_hash(struct bucket *b) { (void)b; return vhash; }
struct entry *vp_stub_get_entry(struct bucket *b) { (void)b; return &eb; }
void harness_bucketeq(void) {
    struct pgctx ctx; struct map map; struct bucket bs[2]; map.buckets = bs; 
    pa = pb = true; keyeq = vp_bool(); kal = vp_u64(); kbl = vp_u64(); vhash = vp_u32();
    raweq = vp_bool(); ral = vp_u64(); rbl = vp_u64();
    if (keyeq) VP_ASSUME(kal == kbl);
    if (kal == 0 && kbl == 0) keyeq = true;
    uint32_t hash = vp_u32();
    bool r = bucket_eq(&map, vp_choose(2), ka, kal, hash, &ctx);
    VP_ASSERT(C02, r == (keyeq && hash == vhash), "a bucket matches exactly when hash and key bytes match");
    VP_COVER(r, "match"); VP_COVER(!r && keyeq, "hash differs"); VP_COVER(!r && hash == vhash, "key differs");
}
#else
#include "pogocache.c"
static size_t mkkey(char *k, const char *other, size_t olen) {
    size_t n;
    if (other && vp_choose(2)) {
        n = olen; memcpy(k, other, n);
        for (size_t t = vp_choose(3); t > 0 && n; t--) {
            size_t i = vp_choose(n);
            k[i] = vp_choose(3) == 0 ? (char)vp_u8() : "-.09:AYPRay_Q Zz"[vp_choose(16)];
        }
        if (vp_choose(4) == 0 && n) n--;
        if (vp_choose(4) == 0) k[n++] = "-y Z\0"[vp_choose(5)];
        return n;
    }
    n = vp_choose(4) ? vp_choose(140) : vp_choose(6);
    bool six = vp_choose(4) != 0;
    for (size_t i = 0; i < n; i++) k[i] = six ? "-.09:AYPRay_"[vp_choose(12)] : (char)vp_u8();
    return n;
}
void harness_compare(void) {
    char k1[200], k2[200];
    struct pgctx ctx; memset(&ctx, 0, sizeof ctx); ctx.malloc = malloc; ctx.free = free;
    ctx.usecas = vp_bool(); ctx.nosixpack = vp_choose(4) == 0;
    size_t n1 = mkkey(k1, 0, 0), n2 = mkkey(k2, k1, n1);
    struct entry *a = entry_new(k1, n1, "v", 1, vp_i64(), vp_u32(), 7, &ctx);
    struct entry *b = entry_new(k2, n2, "w", 1, vp_i64(), vp_u32(), 8, &ctx);
    bool eq = n1 == n2 && memcmp(k1, k2, n1) == 0;
    VP_ASSERT(C02, (entry_compare(a, b, &ctx) == 0) == eq, "entries compare equal exactly when their keys are the same bytes");
    char buf[128]; size_t n; const char *k = entry_key(a, &n, buf, &ctx);
    VP_ASSERT(C02, n == n1 && memcmp(k, k1, n) == 0, "the stored key reads back");
    struct map map; struct bucket bs[2]; memset(&map, 0, sizeof map); memset(bs, 0, sizeof bs); map.buckets = bs;
    uint32_t h1 = vp_choose(2) ? 5 : (vp_u32() & 0xFFFFFF), h2 = vp_choose(2) ? 5 : (vp_u32() & 0xFFFFFF);
    set_entry(&bs[1], b); set_hash(&bs[1], h2); set_dib(&bs[1], 1);
    VP_ASSERT(C02, bucket_eq(&map, 1, k1, n1, h1, &ctx) == (eq && h1 == h2), "a bucket matches exactly when hash and key bytes match");
    free(a); free(b);
}
void harness_bucketeq(void) { harness_compare(); }
#endif
