// The map functions and the bucket walks of pogocache.c on an arbitrary
// well-formed robin hood table of N buckets (N is the bound).
//
// Well-formed: every occupied bucket holds an entry of its own, at distance
// dib-1 from the home bucket of its hash; dib[i+1] <= dib[i]+1; count is the
// number of occupied buckets and at most growat; growat < nbuckets.
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#ifdef VP_CBMC
int g_memcmp(const void *a, const void *b, size_t n);
#define memcmp g_memcmp
#endif
#include "pogocache.c"
#ifdef VP_CBMC
#undef memcmp
#endif
#ifndef N
#define N 4
#endif
#ifndef NK
#define NK 3          // distinct keys
#endif
#define NE (NK+1)
#if VP_NATIVE || !defined(VIEWN)
#undef VIEWN
#define VIEWN (2*N)
#endif
static uint32_t H[NK];
static struct shard S; static struct pgctx C;
static struct entry *EP[NE]; static int ekey[NE]; static int freed[NE]; static int ne;
static bool failalloc; static int nballoc, nbfree;
static struct bucket *oldbk;

#if !VP_NATIVE
struct gent { uint8_t key; int64_t exp; size_t msz; };
static struct gent G[NE]; static struct entry E[NE];
#define GE(e) (&G[(struct entry*)(e)-E])
struct entry *vp_stub_get_entry(struct bucket *b) { return &E[b->entry[0]]; }
void vp_stub_set_entry(struct bucket *b, struct entry *p) { b->entry[0] = p - E; }
uint32_t vp_stub_get_hash(struct bucket *b) { return b->hash[0]|(b->hash[1]<<8)|(b->hash[2]<<16); }
void vp_stub_set_hash(struct bucket *b, uint32_t h) { b->hash[0] = h; b->hash[1] = h>>8; b->hash[2] = h>>16; }
size_t vp_stub_entry_memsize(const struct entry *e) { return GE(e)->msz; }
int64_t vp_stub_entry_expires(const struct entry *e) { return GE(e)->exp; }
const char *vp_stub_entry_key(const struct entry *e, size_t *kl, char buf[128], struct pgctx *c) { (void)buf; (void)c; *kl = 1; return (char*)&GE(e)->key; }
size_t vp_stub_entry_extract(const struct entry *e, const char **key, size_t *kl, char buf[128], const char **val,
    size_t *vl, int64_t *ex, uint32_t *fl, uint64_t *cas, struct pgctx *c)
{
    (void)buf; (void)c;
    if (key) { *key = (char*)&GE(e)->key; *kl = 1; }
    if (val) { *val = (char*)e; *vl = 1; }
    if (ex) *ex = GE(e)->exp;
    if (fl) *fl = 0;
    if (cas) *cas = 0;
    return GE(e)->msz;
}
int vp_stub_entry_compare(const struct entry *a, const struct entry *b, struct pgctx *c) { (void)c; return GE(a)->key != GE(b)->key; }
int g_memcmp(const void *a, const void *b, size_t n) { VP_LIMIT(n <= 1, "keys are one byte"); return n == 0 ? 0 : *(const uint8_t*)a - *(const uint8_t*)b; }
uint64_t vp_stub_th64(const void *d, size_t len, uint64_t seed) { (void)seed; (void)len; uint8_t c = *(const uint8_t*)d; VP_LIMIT(c < NK, "key of the harness"); return H[c]; }
static struct bucket BK[N], BK2[2*N], BK3[64];
static void *xmalloc(size_t n) {
    if (failalloc) return 0;
    VP_LIMIT(nballoc == 0, "one new table");
    nballoc++;
    if (n <= sizeof BK && oldbk != BK) return BK;
    if (n <= sizeof BK2 && oldbk != BK2) return BK2;
    VP_LIMIT(n <= sizeof BK3, "size of the new table");
    return BK3;
}
static void xfree(void *p) {
    if (p == (void*)oldbk) { nbfree++; return; }
    freed[(struct entry*)p - E]++;
}
static int eid(struct entry *e) { return e - E; }
static int keyof(struct entry *e) { return GE(e)->key; }
static size_t msz(struct entry *e) { return GE(e)->msz; }
static int64_t expof(struct entry *e) { return GE(e)->exp; }
// Sizes are only added and subtracted: one weight per entry tells which sizes
// were added how often.
static struct entry *mk(int k, int64_t exp, int64_t time, size_t sz) {
    sz = (size_t)1 << (8*ne);
    struct gent *g = &G[ne]; g->key = k; g->exp = exp > 0 ? exp : 0; g->msz = sz;
    E[ne].time = time; E[ne].rc = 1; EP[ne] = &E[ne]; ekey[ne] = k;
    return EP[ne++];
}
#else
static bool armed;
static int eid(struct entry *e) { for (int i = 0; i < ne; i++) if (EP[i] == e) return i; vp_fail("C10", "an entry that was never stored", "eid"); return -1; }
uint64_t vp_stub_th64(const void *d, size_t len, uint64_t seed) { (void)seed; return len == 1 ? H[*(const uint8_t*)d] : 0; }
static void *xmalloc(size_t n) { if (armed) { if (failalloc) return 0; nballoc++; } return malloc(n); }
static void xfree(void *p) {
    if (p == (void*)oldbk) { nbfree++; return; }
    for (int i = 0; i < ne; i++) if (EP[i] == p) { freed[i]++; return; }
    vp_fail("C10", "free of a pointer that was not allocated", "xfree");
}
static int keyof(struct entry *e) { return ekey[eid(e)]; }
static size_t msz(struct entry *e) { return entry_memsize(e); }
static int64_t expof(struct entry *e) { return entry_expires(e); }
static struct entry *mk(int k, int64_t exp, int64_t time, size_t sz) {
    char key = k, val[200]; memset(val, 'v', sizeof val);
    bool a = armed; armed = false;
    struct entry *e = entry_new(&key, 1, val, sz % 200, exp, 0, 0, &C);
    armed = a; e->time = time; EP[ne] = e; ekey[ne] = k;
    return EP[ne++];
}
#endif

// views
static struct entry *pre[NK], *post[NK];
static int count0; static uint64_t total0; static size_t ents0; static int nb0;
static void view(struct entry **v, bool obligations) {
    for (int k = 0; k < NK; k++) v[k] = 0;
    int cnt = 0; size_t sum = 0;
    struct map *m = &S.map;
    for (int i = 0; i < VIEWN; i++) {
        if (i >= m->nbuckets) break;
        struct bucket *b = &m->buckets[i];
        int nx = (i + 1) & m->mask;
        if (get_dib(b)) {
            cnt++;
            struct entry *e = get_entry(b);
            int k = keyof(e);
            sum += msz(e);
            if (obligations) {
                VP_ASSERT(C03, k < NK && !v[k], "no key is in the table twice");
                VP_ASSERT(C10, !freed[eid(e)], "no freed entry is in the table");
                VP_ASSERT(C03, get_hash(b) == clip_hash(H[k]), "the stored hash is the key's");
                VP_ASSERT(C03, ((get_hash(b) + get_dib(b) - 1) & m->mask) == (size_t)i, "dib is the distance from home");
            }
            v[k] = e;
        }
        if (obligations) VP_ASSERT(C03, get_dib(&m->buckets[nx]) <= get_dib(b) + 1, "robin hood order");
    }
    if (obligations) {
        VP_ASSERT(C07, cnt == m->count, "count is the number of entries in the table");
        VP_ASSERT(C07, sum == m->entsize, "size is the sum of the entry sizes in the table");
        VP_ASSERT(C03, m->count <= m->growat && m->growat < m->nbuckets && m->mask == m->nbuckets - 1, "the table keeps an empty bucket");
    }
}
// an arbitrary well-formed table with nb buckets
static void setup(int nb, int cap) {
#if VP_NATIVE
    for (int i = 0; i < ne; i++) free(EP[i]); // entries of the last trial
#endif
    ne = 0; nballoc = nbfree = 0; memset(freed, 0, sizeof freed); memset(&C, 0, sizeof C); memset(&S, 0, sizeof S);
    C.malloc = xmalloc; C.free = xfree; C.allowshrink = true; C.nshards = 1;
    C.loadfactor = 0.75; C.shrinkfactor = 0.10; C.nosixpack = true;
#if VP_NATIVE
    armed = false;
#endif
    bool hi = vp_choose(2) == 0; (void)hi;
    for (int k = 0; k < NK; k++) {
        H[k] = vp_u32();
#if defined(HBITS) && !VP_NATIVE
        // the table code uses a hash only through its low bits and equality
        VP_ASSUME(H[k] < (1u << HBITS));
#endif
#if VP_NATIVE
        H[k] = hi ? H[k] % (2*nb) : k && vp_choose(3) == 0 ? H[k-1] : H[k];
#endif
    }
    struct map *m = &S.map;
    m->cap = cap; m->nbuckets = nb; m->mask = nb - 1; m->growat = vp_range(1, nb - 1); m->shrinkat = 0;
#if VP_NATIVE
    static struct bucket BKn[64]; memset(BKn, 0, sizeof BKn); m->buckets = BKn;
#else
    m->buckets = nb == N ? BK : BK2;
#endif
    oldbk = m->buckets;
    m->total = total0 = vp_u64();
    int cnt = 0;
    for (int k = 0; k < NK; k++) {
        bool in = vp_choose(3) != 0; int64_t exp = vp_i64(); int64_t time = vp_i64(); size_t sz = vp_range(24, 1 << 20);
        int idx = vp_choose(nb);
        if (VP_NATIVE && time > 1) exp = exp % 8;
        struct entry *e = mk(k, exp, time, sz);
        if (!in) continue;
#if VP_NATIVE
        (void)idx;
        int save = m->growat; m->growat = nb - 1; struct entry *o;
        if (m->count < nb - 1) map_insert(m, e, H[k], &o, &C); else continue;
        m->growat = save; 
        cnt = m->count;
#else
        struct bucket *b = &m->buckets[idx];
        VP_ASSUME(get_dib(b) == 0);
        set_entry(b, e); set_hash(b, clip_hash(H[k])); set_dib(b, ((idx - clip_hash(H[k])) & (nb - 1)) + 1);
        cnt++; m->entsize += msz(e);
#endif
    }
    m->count = cnt; m->total = total0;
    VP_ASSUME(cnt <= m->growat);
#if !VP_NATIVE
    for (int i = 0; i < nb; i++) VP_ASSUME(get_dib(&m->buckets[(i+1)&(nb-1)]) <= get_dib(&m->buckets[i]) + 1);
#endif
    count0 = m->count; ents0 = m->entsize; nb0 = nb;
    view(pre, VP_NATIVE);
#if VP_NATIVE
    armed = true;
#endif
}
static char kbuf[1];
static void frame(int except) {
    for (int k = 0; k < NK; k++) if (k != except) VP_ASSERT(C03, post[k] == pre[k], "every other key keeps its entry");
}

void harness_get(void) {
    setup(N, N);
    int k = vp_choose(NK); kbuf[0] = k;
    int r = map_get_bucket(&S.map, kbuf, 1, H[k], &C);
    VP_ASSERT(C03, (r == -1) == !pre[k], "a key is found exactly when it is in the table");
    VP_ASSERT(C03, r == -1 || (r >= 0 && r < N && get_entry(&S.map.buckets[r]) == pre[k]), "the bucket found holds the key");
    VP_ASSERT(C03, S.map.count == count0 && S.map.entsize == ents0 && S.map.total == total0, "a lookup changes nothing");
    VP_COVER(r >= 0 && get_dib(&S.map.buckets[r]) == NK, "displaced hit"); VP_COVER(r == -1 && count0 > 1, "miss");
}

void harness_insert(void) {
    setup(N, N);
    failalloc = vp_bool();
#if !VP_NATIVE
#ifdef GROW
    VP_ASSUME((S.map.count >= S.map.growat) && !failalloc);
#else
    VP_ASSUME((S.map.count < S.map.growat) || failalloc);
    failalloc = true;
#endif
#endif
    bool full = S.map.count >= S.map.growat;
    int k = vp_choose(NK);
    struct entry *e = mk(k, vp_i64(), vp_i64(), vp_range(24, 1 << 20)), *old = e;
    bool ok = map_insert(&S.map, e, H[k], &old, &C);
    view(post, true); frame(k);
    VP_ASSERT(C10, ok == !(full && failalloc), "an insert fails exactly when the table must grow and cannot");
    if (!ok) {
        VP_ASSERT(C10, post[k] == pre[k] && old == 0 && S.map.nbuckets == N && S.map.buckets == oldbk, "a failed insert leaves the table as it was");
        VP_ASSERT(C07, S.map.count == count0 && S.map.entsize == ents0 && S.map.total == total0, "a failed insert counts nothing");
#ifndef GROW
        VP_COVER(1, "growth refused");
#endif
        return;
    }
    VP_ASSERT(C03, post[k] == e, "the key now has the inserted entry");
    VP_ASSERT(C03, old == pre[k], "the entry it replaced is handed back");
    VP_ASSERT(C07, S.map.total == total0 + !pre[k], "total counts new entries");
    VP_ASSERT(C07, S.map.count == count0 + !pre[k], "count follows");
    VP_ASSERT(C10, nbfree == (full ? 1 : 0) && nballoc == nbfree, "the old table is released exactly when it was replaced");
    VP_ASSERT(C03, S.map.cap == N, "the initial capacity is kept");
    VP_COVER(pre[k] != 0, "replaced"); VP_COVER(!pre[k] && count0 == NK-1, "inserted");
}

void harness_delete(void) {
    setup(N, N);
    int k = vp_choose(NK); kbuf[0] = k;
    struct entry *e = map_delete(&S.map, kbuf, 1, H[k], &C);
    view(post, true); frame(k);
    VP_ASSERT(C03, e == pre[k] && !post[k], "the key's entry is taken out and handed back");
    VP_ASSERT(C07, S.map.count == count0 - (e != 0) && S.map.entsize == ents0 - (e ? msz(e) : 0) && S.map.total == total0, "counts follow a delete");
    VP_ASSERT(C10, !freed[0] && !freed[1], "a delete hands the entry back unfreed");
    VP_COVER(e != 0 && count0 == NK, "deleted from a full table"); VP_COVER(!e && count0 == NK-1, "miss");
}

// the table is rebuilt with half the buckets
void harness_resize(void) {
    setup(2*N, N);
    S.map.shrinkat = 0; failalloc = vp_bool();
    VP_ASSUME(count0 < N - 1);
    bool ok = resize(&S.map, N, &C);
    view(post, true); frame(-1);
    VP_ASSERT(C10, ok == !failalloc, "a table is rebuilt unless there is no memory");
    VP_ASSERT(C07, S.map.count == count0 && S.map.entsize == ents0 && S.map.total == total0 && S.map.cap == N, "rebuilding changes no count");
    VP_ASSERT(C10, nbfree == nballoc && nballoc == ok && (S.map.buckets == oldbk) == !ok, "the old table is released exactly when it was replaced");
    VP_ASSERT(C03, S.map.nbuckets == (ok ? N : 2*N), "the table has the size asked for");
    VP_COVER(ok && count0 == 2, "rebuilt"); VP_COVER(!ok, "refused");
}
// tryshrink against the contract of resize: any count, any table size
static size_t rs_cap; static int rs_calls;
#if !VP_NATIVE && defined(SHRINKDEC)
bool vp_stub_resize(struct map *m, size_t cap, struct pgctx *c) {
    rs_calls++; rs_cap = cap;
    bool ok = vp_bool();
    if (ok) { m->nbuckets = cap; m->mask = cap - 1; m->growat = cap * c->loadfactor; }
    return ok;
}
#endif
void harness_shrink(void) {
#if !VP_NATIVE && defined(SHRINKDEC)
    int lf = vp_choose(3);
    C.loadfactor = lf == 0 ? 0.55 : lf == 1 ? 0.75 : 0.95; C.allowshrink = vp_bool();
    S.map.cap = INITCAP; int sh = vp_choose(24);
    S.map.nbuckets = INITCAP << sh; S.map.mask = S.map.nbuckets - 1;
    S.map.shrinkat = vp_int(); VP_ASSUME(S.map.shrinkat >= 0 && S.map.shrinkat <= S.map.nbuckets / 10);
    S.map.growat = vp_int(); VP_ASSUME(S.map.growat >= S.map.nbuckets / 2 && S.map.growat < S.map.nbuckets);
    S.map.count = vp_int(); VP_ASSUME(S.map.count >= 0 && S.map.count <= S.map.growat);
    struct map m0 = S.map;
    tryshrink(&S.map, &C);
    bool due = C.allowshrink && m0.nbuckets > m0.cap && m0.count <= m0.shrinkat;
    VP_ASSERT(C10, rs_calls == due, "the table shrinks when it is sparse, bigger than at first, and shrinking is allowed");
    VP_ASSERT(C03, !rs_calls || (rs_cap >= INITCAP && (rs_cap & (rs_cap - 1)) == 0 && rs_cap <= (size_t)m0.nbuckets), "the new size is a power of two, no smaller than at first");
    VP_ASSERT(C03, !rs_calls || (size_t)(rs_cap * C.loadfactor) > (size_t)m0.count, "the new size has room for every entry");
    VP_ASSERT(C07, S.map.count == m0.count, "shrinking changes no count");
    VP_COVER(rs_calls && rs_cap > INITCAP, "shrunk part of the way"); VP_COVER(rs_calls && rs_cap == INITCAP, "shrunk fully");
#else
    setup(2*N, N/2);
    S.map.shrinkat = vp_range(0, S.map.growat); failalloc = vp_bool(); C.allowshrink = vp_bool();
    if (vp_choose(4) == 0) S.map.cap = 2*N;
    int cap = S.map.cap;
    tryshrink(&S.map, &C);
    view(post, true); frame(-1);
    VP_ASSERT(C07, S.map.count == count0 && S.map.entsize == ents0 && S.map.total == total0 && S.map.cap == cap, "shrinking changes no count");
    VP_ASSERT(C10, nbfree == nballoc && (S.map.buckets == oldbk) == (nballoc == 0), "the old table is released exactly when it was replaced");
    VP_ASSERT(C10, C.allowshrink || S.map.buckets == oldbk, "no shrinking unless allowed");
#endif
}

// ---- walks ---------------------------------------------------------------
static int visits[NK], act[NK], nstop, ndel[NK], nexp[NK], nlow[NK], nclr[NK]; static bool after_stop; static int64_t now; static int nnotify;
static int on_iter(int shard, int64_t time, const void *key, size_t keylen, const void *val, size_t vallen,
    int64_t expires, uint32_t flags, uint64_t cas, void *udata)
{
    (void)flags; (void)cas; (void)val; (void)vallen;
    VP_ASSERT(C08, keylen == 1 && udata == visits && shard == 7 && time == now, "the walk hands out the entry");
    int k = *(const uint8_t*)key;
    if (nstop) after_stop = true;
    visits[k]++;
    VP_ASSERT(C08, pre[k] != 0 && expires == expof(pre[k]), "the walk hands out the entry's own expiration");
    if (act[k] & POGOCACHE_ITER_STOP) nstop++;
    return act[k];
}
static void on_notify(int shard, int64_t time, struct pogocache_entry *n, struct pogocache_entry *o, void *udata) {
    VP_ASSERT(C09, n == 0 && o != 0 && shard == 7 && time == now && udata == visits, "a removal is announced");
    VP_ASSERT(C09, !freed[eid((struct entry*)o)], "an entry is announced before it is released");
    ndel[keyof((struct entry*)o)]++; nnotify++;
}
static void on_evicted(int shard, int reason, int64_t time, const void *key, size_t keylen, const void *val,
    size_t vallen, int64_t expires, uint32_t flags, uint64_t cas, void *udata)
{
    (void)flags; (void)cas; (void)val; (void)vallen;
    VP_ASSERT(C09, keylen == 1 && shard == 7 && time == now && udata == visits, "an eviction is announced");
    int k = *(const uint8_t*)key;
    VP_ASSERT(C09, pre[k] && expires == expof(pre[k]), "with the entry's own content");
    if (reason == POGOCACHE_REASON_EXPIRED) nexp[k]++;
    else if (reason == POGOCACHE_REASON_LOWMEM) nlow[k]++;
    else nclr[k]++;
}
static void walk_setup(void) {
    setup(N, N);
    memset(visits, 0, sizeof visits); memset(ndel, 0, sizeof ndel); memset(nexp, 0, sizeof nexp); memset(nlow, 0, sizeof nlow); memset(nclr, 0, sizeof nclr);
    nstop = 0; after_stop = false; nnotify = 0;
    C.usenotify = true; C.notify = on_notify; C.evicted = on_evicted; C.udata = visits;
    now = vp_i64(); if (VP_NATIVE) now = 1 + (uint64_t)now % 7;
    VP_ASSUME(now > 0);
    for (int k = 0; k < NK; k++) act[k] = vp_choose(4) == 0 ? 0 : vp_choose(4);
}
static bool alive(struct entry *e) { return expof(e) == 0 || expof(e) > now; }
#if !VP_NATIVE
static int shrinks;
void vp_stub_tryshrink(struct map *m, struct pgctx *c) { (void)m; (void)c; shrinks++; }
#endif
// what holds of any walk that removes entries
static void check_removed(bool expired_event) {
    size_t gone = 0; int ngone = 0;
    for (int k = 0; k < NK; k++) {
        VP_ASSERT(C03, !post[k] || post[k] == pre[k], "a walk adds or replaces nothing");
        int f = pre[k] ? freed[eid(pre[k])] : 0;
        bool out = pre[k] && !post[k];
        VP_ASSERT(C10, f == out, "an entry is released exactly once, when it is removed");
        VP_ASSERT(C09, ndel[k] == out, "an entry is announced exactly once, when it is removed");
        if (expired_event) VP_ASSERT(C09, nexp[k] == (out && !alive(pre[k])), "an expired entry is evicted as expired");
        if (out) { gone += msz(pre[k]); ngone++; }
    }
    VP_ASSERT(C07, S.map.count == count0 - ngone && S.map.entsize == ents0 - gone && S.map.total == total0, "counts follow the removals");
}
void harness_iter(void) {
    walk_setup();
    struct pogocache_iter_opts o; memset(&o, 0, sizeof o);
    o.time = now; o.entry = on_iter; o.udata = visits;
    int r = iterop(&S, 7, now, &o, &C);
    view(post, true); check_removed(true);
    VP_ASSERT(C08, (r == POGOCACHE_CANCELED) == (nstop > 0) && (r == POGOCACHE_CANCELED || r == POGOCACHE_FINISHED), "the result tells whether the walk was stopped");
    VP_ASSERT(C08, nstop <= 1 && !after_stop, "nothing is visited after a stop");
    for (int k = 0; k < NK; k++) {
        if (!pre[k]) continue;
        if (alive(pre[k])) {
            VP_ASSERT(C08, visits[k] == 1 || (nstop && visits[k] == 0), "each live entry is visited exactly once");
            VP_ASSERT(C08, !post[k] == (visits[k] && (act[k] & POGOCACHE_ITER_DELETE)), "a visited entry is removed exactly when asked");
        } else {
            VP_ASSERT(C05, visits[k] == 0, "an expired entry is not visited");
            VP_ASSERT(C05, nstop || !post[k], "an expired entry is removed");
        }
        VP_ASSERT(C09, nlow[k] == 0 && nclr[k] == 0, "no other eviction");
    }
    VP_COVER(count0 == NK && S.map.count == 0 && !nstop, "all removed"); VP_COVER(nstop && count0 == NK && S.map.count == NK-1, "stopped");
}
void harness_sweep(void) {
    walk_setup();
    size_t swept = 0, kept = 0, s = 0, l = 0;
    sweepop(&S, 7, now, &swept, &kept, &C);
    view(post, true); check_removed(true);
    for (int k = 0; k < NK; k++) {
        if (!pre[k]) continue;
        if (alive(pre[k])) l++; else s++;
        VP_ASSERT(C05, !post[k] == !alive(pre[k]), "a sweep removes the expired entries and only those");
    }
    VP_ASSERT(C08, swept == s && kept == l, "a sweep counts each entry once");
    VP_COVER(swept == NK, "all swept"); VP_COVER(swept == 1 && kept == NK-1, "some swept");
}
static int at(struct entry *e) {
    for (int i = 0; i < N; i++) if (i < S.map.nbuckets && get_dib(&S.map.buckets[i]) && get_entry(&S.map.buckets[i]) == e) return i;
    return -1;
}
// One call from any cursor; by induction over the calls of a scan every live
// entry of an otherwise unmodified table is yielded.
void harness_entryiter(void) {
    walk_setup();
    int it0 = vp_choose(N+1), it = it0, pos0[NK];
    for (int k = 0; k < NK; k++) pos0[k] = pre[k] ? at(pre[k]) : -1;
    struct entry *e = (struct entry*)entryiter(&S, now, 7, &it, &C);
    if (e) {
        int k = keyof(e);
        VP_ASSERT(C08, e == pre[k] && alive(e), "a cursor yields live entries of the table");
        VP_ASSERT(C10, e->rc == 2, "a yielded entry is retained for the caller");
        e->rc = 1;
        VP_ASSERT(C08, it > it0 && it <= N && at(e) == it - 1, "the cursor moves past the yielded entry");
    } else VP_ASSERT(C08, it == 0, "the cursor comes to an end");
    view(post, true); check_removed(true);
    for (int k = 0; k < NK; k++) {
        if (!pre[k]) continue;
        int pos = at(pre[k]);
        if (!alive(pre[k])) { VP_ASSERT(C05, e || pos0[k] < it0 || pos < 0, "an expired entry met by the cursor is removed"); continue; }
        VP_ASSERT(C08, post[k] == pre[k], "a cursor removes no live entry");
        if (pos0[k] >= it0) VP_ASSERT(C08, e && (pre[k] == e || pos >= it), "a live entry ahead of the cursor is yielded or still ahead");
        else VP_ASSERT(C08, e != pre[k] || pos0[k] == 0 || S.map.count < count0, "an entry behind the cursor is not yielded again while nothing is removed");
    }
    VP_COVER(e && it0 > 0 && S.map.count < count0, "yielded after a removal");
}
void harness_clear(void) {
    walk_setup();
    bool defer = vp_bool(); failalloc = vp_bool();
    struct bucket *bk = oldbk; int nb = -1;
    clearop(&S, 7, now, &C, &bk, &nb, defer);
    int cnt = 0;
    for (int i = 0; i < S.map.nbuckets && (VP_NATIVE || i < 64); i++) cnt += get_dib(&S.map.buckets[i]) != 0;
    VP_ASSERT(C08, cnt == 0, "a cleared shard holds no entry");
    VP_ASSERT(C07, S.map.count == 0 && S.map.entsize == 0 && S.map.total == total0, "a cleared shard counts nothing, its total stays");
    VP_ASSERT(C03, S.map.growat >= 1 && S.map.growat < S.map.nbuckets && S.map.mask == S.map.nbuckets - 1, "a cleared shard is a well-formed empty table");
    bool dd = defer && !failalloc;
    VP_ASSERT(C10, dd ? bk == oldbk && nb == N && nbfree == 0 : bk == 0 && nbfree == !failalloc, "the old table is handed over, reused or released");
    for (int k = 0; k < NK; k++) {
        int f = pre[k] ? freed[eid(pre[k])] : 0;
        VP_ASSERT(C10, f == (pre[k] && !dd), "each entry is released exactly once");
        VP_ASSERT(C09, ndel[k] == (pre[k] != 0), "each cleared entry is announced once");
        VP_ASSERT(C09, nexp[k] == (pre[k] && !alive(pre[k])) && nclr[k] == (pre[k] && alive(pre[k])) && !nlow[k], "with its reason");
    }
    VP_COVER(defer && failalloc && count0 > 0, "deferred clear without memory"); VP_COVER(dd && count0 == NK, "deferred clear");
}
void harness_evict(void) {
    walk_setup();
    uint32_t hash = vp_u32();
    if (vp_choose(2)) hash = H[vp_choose(NK)];
    int ncand = 0; bool cand[NK];
    for (int k = 0; k < NK; k++) cand[k] = false;
    for (int i = 1; i < N; i++) {
        struct bucket *b = &S.map.buckets[(clip_hash(hash) + i) & (N-1)];
        if (get_dib(b) && get_hash(b) != clip_hash(hash)) { ncand++; cand[keyof(get_entry(b))] = true; }
    }
    auto_evict_entry(&S, 7, hash, now, &C);
    view(post, true); check_removed(true);
    int gone = -1, ngone = 0;
    for (int k = 0; k < NK; k++) if (pre[k] && !post[k]) { gone = k; ngone++; }
    VP_ASSERT(C06, ngone == (ncand ? 1 : 0), "one entry is evicted when there is a candidate");
    if (gone < 0) return;
    VP_ASSERT(C06, cand[gone], "the protected key is not evicted");
    VP_ASSERT(C06, nlow[gone] == alive(pre[gone]) && nexp[gone] == !alive(pre[gone]), "evicted for low memory, or as expired");
    if (alive(pre[gone]) && ncand >= 2) {
        bool other = false;
        for (int k = 0; k < NK; k++) if (k != gone && cand[k] && pre[k]->time >= pre[gone]->time && alive(pre[k])) other = true;
        VP_ASSERT(C06, other, "of two live candidates the one with the older access time goes");
    }
    VP_COVER(ncand >= 2 && alive(pre[gone]), "one of two"); VP_COVER(!alive(pre[gone]), "expired one");
}
void harness_deinit(void) {
    walk_setup();
    shard_deinit(&S, &C);
    for (int k = 0; k < NK; k++) VP_ASSERT(C10, freed[k] == (pre[k] != 0), "freeing a shard releases each entry once");
    VP_ASSERT(C10, nbfree == 1, "and its table once");
    VP_COVER(count0 == NK, "full");
}
