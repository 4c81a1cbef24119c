// Public operations of pogocache.c: shard selection, lock words, batches, and
// the loops over the shards. The shard operations (storeop, iterop, ...) are
// replaced by contracts that record the call and the lock word they ran under.
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#if !VP_NATIVE
static void lock_inv(void);
#define __builtin_ia32_pause() lock_inv()
#endif
#include "pogocache.c"
#ifndef NS
#define NS 3
#endif
static struct pogocache *cache; static struct pogocache *bt; static bool inbatch;
#if VP_NATIVE
#define SHP(c) ((c)->shards)
#else
static struct pogocache cmem; static struct shard SHM[NS];
#define SHP(c) SHM
struct shard *vp_stub_shard_get(struct pogocache *c, int i) {
    VP_ASSERT(C11, c == &cmem, "shards are those of the cache");
    VP_ASSERT(C11, i >= 0 && i < NS, "shard index in range");
    return &SHM[i];
}
#endif
static uint64_t fhash; static int ncalls[NS]; static int order_ok = 1, last = -1;
static uintptr_t other;         // a lock word held by somebody else
static int yields, release_after, contended; // that is released by the yield callback
static int opret[NS]; static bool heldbad, ctxbad, idxbad, hashbad, argbad, frozen;
static const void *wkey; static size_t wlen; static void *wopts; static int64_t wnow;
static struct entry *iter_ret[NS]; static size_t val[NS];

static void on_yield(void *udata) {
    (void)udata;
    if (++yields >= release_after && contended >= 0) SHP(cache)[contended].lock = 0;
}
#if !VP_NATIVE
// the contract of shard_index(), see harness_shardget
static int keyidx = -1;
int vp_stub_shard_index(struct pogocache *c, uint64_t h) {
    VP_ASSERT(C11, c == &cmem, "the shard of a key is picked by the cache");
    VP_ASSERT(C03, h == fhash, "the shard of a key is picked by its hash");
    if (keyidx < 0) keyidx = vp_choose(NS);
    return keyidx;
}
// the contract of lock(), see harness_lock
void vp_stub_lock(struct batch *b, struct shard *s, struct pgctx *c) {
    VP_ASSERT(C11, c == &cache->ctx, "the lock gets the cache's context");
    VP_ASSERT(C11, inbatch ? b == &bt->batch : b == 0, "the lock is taken for the batch, or for the operation alone");
    VP_ASSERT(C11, s >= SHM && s < SHM + NS, "a shard of the cache");
    if (b) {
        if (s->lock == (uintptr_t)(void*)b) return;
        s->lock = (uintptr_t)(void*)b; s->next = b->shard; b->shard = s;
    } else {
        VP_ASSERT(C11, s->lock == 0, "an operation does not wait for its own lock");
        s->lock = UINTPTR_MAX;
    }
}
#endif
static void note(struct shard *s, struct pgctx *ctx) {
    int i = s - SHP(cache);
    if (i < 0 || i >= NS) { idxbad = true; return; }
    uintptr_t want = inbatch ? (uintptr_t)(void*)&bt->batch : UINTPTR_MAX;
    if (s->lock != want) heldbad = true;
    for (int j = 0; j < NS; j++) {
        if (j == i || j == contended) continue;
        uintptr_t l = SHP(cache)[j].lock;
        if (l != 0 && !(inbatch && l == want && ncalls[j] > 0)) heldbad = true;
    }
    if (ctx && ctx != &cache->ctx) ctxbad = true;
    if (i < last) order_ok = 0;
    last = i;
    ncalls[i]++;
}
uint64_t vp_stub_th64(const void *d, size_t len, uint64_t seed) {
    if (d != wkey || len != wlen || seed != cache->ctx.seed) argbad = true;
    return fhash;
}
static int ix(struct shard *s) { int i = s - SHP(cache); return i < 0 || i >= NS ? 0 : i; }
int vp_stub_storeop(const void *key, size_t keylen, const void *v, size_t vallen, struct pogocache_store_opts *opts,
    struct shard *shard, int shardidx, uint32_t hash, struct pgctx *ctx)
{
    note(shard, ctx); (void)v; (void)vallen;
    if (key != wkey || keylen != wlen || (void*)opts != wopts) argbad = true;
    if (shardidx != ix(shard)) idxbad = true;
    if (hash != (uint32_t)fhash) hashbad = true;
    return opret[ix(shard)];
}
int vp_stub_loadop(const void *key, size_t keylen, struct pogocache_load_opts *opts, struct shard *shard, int shardidx, uint32_t hash, struct pgctx *ctx) {
    return vp_stub_storeop(key, keylen, 0, 0, (void*)opts, shard, shardidx, hash, ctx);
}
int vp_stub_deleteop(const void *key, size_t keylen, struct pogocache_delete_opts *opts, struct shard *shard, int shardidx, uint32_t hash, struct pgctx *ctx) {
    return vp_stub_storeop(key, keylen, 0, 0, (void*)opts, shard, shardidx, hash, ctx);
}
int vp_stub_iterop(struct shard *shard, int shardidx, int64_t now, struct pogocache_iter_opts *opts, struct pgctx *ctx) {
    note(shard, ctx);
    if (shardidx != ix(shard)) idxbad = true;
    if (now != wnow || (void*)opts != wopts) argbad = true;
    return opret[ix(shard)];
}
int vp_stub_sweepop(struct shard *shard, int shardidx, int64_t now, size_t *swept, size_t *kept, struct pgctx *ctx) {
    note(shard, ctx);
    if (shardidx != ix(shard)) idxbad = true;
    if (now != wnow) argbad = true;
    *swept += val[ix(shard)]; *kept += 3*val[ix(shard)];
    return 0;
}
int vp_stub_clearop(struct shard *shard, int shardidx, int64_t now, struct pgctx *ctx, struct bucket **buckets, int *nbuckets, bool deferfree) {
    note(shard, ctx); (void)deferfree;
    if (shardidx != ix(shard)) idxbad = true;
    if (now != wnow) argbad = true;
    *buckets = 0; *nbuckets = 0;
    return 0;
}
int vp_stub_sweeppollop(struct shard *shard, int shardidx, int64_t now, int pollsize, double *percent) {
    note(shard, 0); (void)pollsize;
    if (shardidx != ix(shard)) idxbad = true;
    if (now != wnow) argbad = true;
    *percent = 0.5;
    return 0;
}
struct pogocache_entry *vp_stub_entryiter(struct shard *shard, int64_t now, int shardidx, int *iter, struct pgctx *ctx) {
    note(shard, ctx);
    if (shardidx != ix(shard)) idxbad = true;
    if (now != wnow) argbad = true;
    if (iter_ret[ix(shard)] && *iter < 1000) { *iter += 1; return (void*)iter_ret[ix(shard)]; }
    *iter = 0;
    return 0;
}
#if VP_NATIVE
static void *xmalloc(size_t n) { return malloc(n); }
#else
static struct pogocache batchmem;
static void *xmalloc(size_t n) { VP_ASSERT(C10, n >= sizeof batchmem, "room for a batch"); return &batchmem; }
#endif
static int nfreed;
static void xfree(void *p) { nfreed++; (void)p;
#if VP_NATIVE
    free(p);
#endif
}
static void check_released(void) {
    for (int i = 0; i < NS; i++) {
        if (i == contended && SHP(cache)[i].lock == other) continue; // never asked for
        if (inbatch) VP_ASSERT(C11, SHP(cache)[i].lock == (ncalls[i] ? (uintptr_t)(void*)&bt->batch : 0), "a batch keeps the shards it used locked, and no other");
        else VP_ASSERT(C11, SHP(cache)[i].lock == 0, "an operation leaves every shard unlocked");
    }
    VP_ASSERT(C11, !heldbad, "a shard is worked on only while it is locked by the operation, and no other shard is locked");
    VP_ASSERT(C11, !ctxbad, "the shard operation gets the cache's context");
    VP_ASSERT(C03, !idxbad, "the shard operation gets its own shard index");
    VP_ASSERT(C03, !hashbad && !argbad, "the shard operation gets the operation's arguments");
}
static void setup(void) {
#if VP_NATIVE
    if (cache) free(cache);
    yields = 0; last = -1; order_ok = 1; heldbad = ctxbad = idxbad = hashbad = argbad = false; nfreed = 0;
    memset(ncalls, 0, sizeof ncalls);
#endif
#if VP_NATIVE
    cache = malloc(sizeof(struct pogocache) + NS*sizeof(struct shard));
    memset(cache, 0, sizeof(struct pogocache) + NS*sizeof(struct shard));
#else
    cache = &cmem;
#endif
    struct pgctx *c = &cache->ctx;
    c->nshards = NS; c->malloc = xmalloc; c->free = xfree; c->seed = vp_u64(); c->usethreadbatch = vp_bool();
    c->yield = on_yield;
    inbatch = vp_bool(); fhash = vp_u64();
    contended = (int)vp_choose(NS+1) - 1; release_after = 1 + vp_choose(2); other = 0x1230;
#if VP_NATIVE
    if (contended >= 0) SHP(cache)[contended].lock = other;
#else
    contended = -1;
#endif
    for (int i = 0; i < NS; i++) { opret[i] = vp_range(1, 8); val[i] = VP_NATIVE ? vp_choose(1000) : (size_t)1 << (8*i); }
    bt = 0;
    if (inbatch) bt = pogocache_begin(cache);
}
static void finish(void) {
    check_released();
    if (!inbatch) return;
    pogocache_end(bt);
    for (int i = 0; i < NS; i++) {
        if (i == contended && SHP(cache)[i].lock == other) continue;
        VP_ASSERT(C11, SHP(cache)[i].lock == 0 && SHP(cache)[i].next == 0, "ending a batch unlocks every shard it used");
    }
    VP_ASSERT(C10, nfreed == !cache->ctx.usethreadbatch, "a batch is released when it ends");
}
#define ROOT (inbatch ? bt : cache)

void harness_key(void) {
    setup();
    static char kb[4]; wkey = kb; wlen = vp_u64(); 
#if VP_NATIVE
    int idx = (fhash >> 32) % NS;
#else
    int idx = keyidx = vp_choose(NS);
#endif
    for (int n = 0; n < 2; n++) {
        int op = vp_choose(3), r; static struct pogocache_store_opts so; wopts = &so;
        if (op == 0) r = pogocache_store(ROOT, wkey, wlen, 0, 0, &so);
        else if (op == 1) r = pogocache_load(ROOT, wkey, wlen, (void*)&so);
        else r = pogocache_delete(ROOT, wkey, wlen, (void*)&so);
        VP_ASSERT(C03, r == opret[idx], "the result of the shard operation is the result");
        VP_ASSERT(C03, ncalls[idx] == n + 1, "a key always goes to the same shard, once");
        check_released();
    }
    for (int i = 0; i < NS; i++) VP_ASSERT(C03, i == idx || ncalls[i] == 0, "no other shard is worked on");
    VP_ASSERT(C11, contended != idx || yields >= release_after, "a locked shard is waited for");
    VP_COVER(inbatch, "batch"); VP_COVER(!inbatch, "no batch");
    finish();
}
static void once_each(int upto) {
    for (int i = 0; i < NS; i++) VP_ASSERT(C08, ncalls[i] == (i <= upto), "every shard is worked on once");
}
static bool one; static int oneidx;
static void only(void) {
    for (int i = 0; i < NS; i++) VP_ASSERT(C08, ncalls[i] == (i == oneidx), "only the chosen shard is worked on");
}
static int64_t time0(void) { wnow = vp_i64(); VP_ASSUME(wnow > 0); one = vp_bool(); oneidx = vp_range(-2, NS+1); if (one) VP_ASSUME(oneidx >= -1 || 1); return wnow; }
void harness_iter(void) {
    setup();
    struct pogocache_iter_opts o; memset(&o, 0, sizeof o); o.time = time0(); o.oneshard = one; o.oneshardidx = oneidx; wopts = &o;
    for (int i = 0; i < NS; i++) opret[i] = vp_bool() ? POGOCACHE_CANCELED : POGOCACHE_FINISHED;
    int r = pogocache_iter(ROOT, &o);
    if (one) {
        only();
        VP_ASSERT(C08, r == (oneidx >= 0 && oneidx < NS ? opret[oneidx] : POGOCACHE_FINISHED), "the result tells whether the walk was stopped");
    } else {
        int st = NS - 1; bool stopped = false;
        for (int i = NS - 1; i >= 0; i--) if (opret[i] == POGOCACHE_CANCELED) { st = i; stopped = true; }
        once_each(st);
        VP_ASSERT(C08, r == (stopped ? POGOCACHE_CANCELED : POGOCACHE_FINISHED), "the result tells whether the walk was stopped");
        VP_COVER(inbatch && !stopped, "batch walk"); VP_COVER(stopped, "stopped walk");
    }
    finish();
}
void harness_sweep(void) {
    setup();
    struct pogocache_sweep_opts o; memset(&o, 0, sizeof o); o.time = time0(); o.oneshard = one; o.oneshardidx = oneidx;
    size_t sw = 77, kp = 77, want = 0;
    pogocache_sweep(ROOT, &sw, &kp, &o);
    for (int i = 0; i < NS; i++) if (!one || i == oneidx) want += val[i];
    if (one) only(); else once_each(NS - 1);
    VP_ASSERT(C08, sw == want && kp == 3*want, "the counts are summed over the shards");
    VP_COVER(inbatch && !one, "batch sweep");
    finish();
}
void harness_clear(void) {
    setup();
    struct pogocache_clear_opts o; memset(&o, 0, sizeof o); o.time = time0(); o.oneshard = one; o.oneshardidx = oneidx; o.deferfree = vp_bool();
    pogocache_clear(ROOT, &o);
    if (one) only(); else once_each(NS - 1);
    VP_COVER(inbatch && !one, "batch clear");
    finish();
}
void harness_stat(void) {
    setup(); time0();
    for (int i = 0; i < NS; i++) { SHP(cache)[i].map.count = val[i]; SHP(cache)[i].map.total = 5*val[i]; SHP(cache)[i].map.entsize = 7*val[i]; SHP(cache)[i].map.nbuckets = 64 << i; }
    struct pogocache_count_opts co; memset(&co, 0, sizeof co); co.oneshard = one; co.oneshardidx = oneidx;
    struct pogocache_total_opts to; memset(&to, 0, sizeof to); to.oneshard = one; to.oneshardidx = oneidx;
    struct pogocache_size_opts zo; memset(&zo, 0, sizeof zo); zo.oneshard = one; zo.oneshardidx = oneidx; zo.entriesonly = vp_bool();
    size_t want = 0, over = 0;
    for (int i = 0; i < NS; i++) if (!one || i == oneidx) { want += val[i]; over += sizeof(struct shard) + (64 << i)*sizeof(struct bucket); }
    size_t nc = pogocache_count(ROOT, &co), nt = pogocache_total(ROOT, &to), nz = pogocache_size(ROOT, &zo);
    VP_ASSERT(C07, nc == want, "count is the sum over the shards");
    VP_ASSERT(C07, nt == 5*want, "total is the sum over the shards");
    VP_ASSERT(C07, nz == 7*want + (zo.entriesonly ? 0 : over), "size is the sum over the shards");
    VP_ASSERT(C07, pogocache_nshards(ROOT) == NS, "the number of shards");
    for (int i = 0; i < NS; i++) ncalls[i] = (!one || i == oneidx);
    VP_COVER(inbatch && !one, "batch stat");
    finish();
}
void harness_poll(void) {
    setup();
    struct pogocache_sweep_poll_opts o; memset(&o, 0, sizeof o); o.time = time0();
    double p = pogocache_sweep_poll(ROOT, &o);
    int n = 0; for (int i = 0; i < NS; i++) n += ncalls[i];
    VP_ASSERT(C05, n == 1 && p == 0.5, "one shard is polled");
    VP_COVER(inbatch, "batch poll");
    finish();
}
void harness_entryiter(void) {
    setup(); time0();
    static struct entry en; bool has[NS];
    for (int i = 0; i < NS; i++) { has[i] = vp_bool(); iter_ret[i] = has[i] ? &en : 0; }
    uint64_t cur = vp_bool() ? ((uint64_t)vp_range(0, NS+1) << 32) | vp_choose(100) : vp_u64(), c0 = cur;
    struct pogocache_entry *e = pogocache_entry_iter(ROOT, wnow, &cur);
    int32_t s0 = (int32_t)(c0 >> 32); int want = -1;
    if (s0 >= 0 && s0 < NS && (int32_t)c0 >= 0) for (int i = NS - 1; i >= s0; i--) if (has[i] && (i > s0 || (int32_t)c0 < 1000)) want = i;
    VP_ASSERT(C08, (e != 0) == (want >= 0), "a cursor yields an entry when there is one ahead");
    VP_ASSERT(C08, e ? (int)(cur >> 32) == want && (uint32_t)cur == (want == s0 ? (uint32_t)c0 + 1 : 1) : cur == 0, "the cursor tells where to go on");
    if (s0 >= 0 && s0 < NS && (int32_t)c0 >= 0) for (int i = 0; i < NS; i++) VP_ASSERT(C08, ncalls[i] == (i >= s0 && i <= (want < 0 ? NS - 1 : want)), "no shard is skipped");
    VP_COVER(inbatch && want > s0, "batch cursor"); VP_COVER(s0 == NS, "cursor past the end");
    finish();
}

#if !VP_NATIVE
// lock(): the loop is cut at its head. The precondition (any lock word but the
// operation's own batch, any list) is what yielding to the other threads
// re-establishes, so it is the loop invariant.
static struct shard LS, LN; static struct batch LB; static struct pgctx LC; static uintptr_t lown; static bool lbatch;
static void lock_inv(void) {
    VP_ASSERT(C11, LC.yield == 0, "the yield callback is used");
    VP_ASSERT(C11, LS.lock != lown, "a lock that was taken is not waited for");
    VP_ASSERT(C11, LB.shard == &LN && LS.next == 0, "waiting leaves the batch as it is");
    
    __CPROVER_assume(false);
}
static void lock_yield(void *u) { LC.yield = 0; VP_ASSERT(C11, u == LC.udata, "yield gets the user data"); lock_inv(); }
void harness_lock(void) {
    lbatch = vp_bool(); uintptr_t w0 = vp_u64(), self = (uintptr_t)(void*)&LB; lown = lbatch ? self : UINTPTR_MAX;
    if (!lbatch) VP_ASSUME(w0 != 0 || 1);
    LB.shard = &LN; LS.next = 0; LC.udata = &LN; if (vp_bool()) LC.yield = lock_yield;
    LS.lock = w0;
    if (!lbatch && w0 == UINTPTR_MAX) lown = 0; // another operation holds it
    lock(lbatch ? &LB : 0, &LS, &LC);
    VP_ASSERT(C11, LS.lock == (lbatch ? self : UINTPTR_MAX), "the lock is taken");
    VP_ASSERT(C11, w0 == 0 || (lbatch && w0 == self), "only a free lock, or the batch's own, is taken");
    if (lbatch && w0 == 0) VP_ASSERT(C11, LB.shard == &LS && LS.next == &LN, "a batch keeps the shards it locks");
    else VP_ASSERT(C11, LB.shard == &LN && LS.next == 0, "a shard is kept once");
    VP_COVER(lbatch && w0 == 0, "batch takes"); VP_COVER(lbatch && w0 == self, "batch has"); VP_COVER(!lbatch, "operation takes");
}
void harness_shardget(void) {
    static struct pogocache c0; int i = vp_range(0, 4096); uint64_t h = vp_u64(); c0.ctx.nshards = vp_range(1, INT32_MAX);
    VP_ASSERT(C11, (uintptr_t)shard_get(&c0, i) == (uintptr_t)&c0 + sizeof(struct pogocache) + i*sizeof(struct shard), "shards are behind the cache");
    int x = shard_index(&c0, h);
    VP_ASSERT(C11, x >= 0 && x < c0.ctx.nshards, "the shard of a key exists");
}
#endif
