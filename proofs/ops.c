// storeop / loadop / deleteop (pogocache.c) against the contracts of the map
// (map.c) and of the entries (entry.c), for a table of any size: the contracts
// speak about the one key of the operation and leave every other key alone.
// Natively: the same contracts on the real map and entries.
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include "pogocache.c"

enum { EOLD, ENEW, NE = 3 };
static struct pgctx C; static struct shard S;
static const char *K; static size_t KL; static uint32_t KH;
// choices made up front, so that a replay follows the same path
static bool fail_entry, need_grow, fail_grow;
static int nfree_old, nfree_new, nalloc;
static struct entry *eold;         // the entry of K before
struct view { bool in; struct entry *e; const void *val; size_t vallen; int64_t exp; uint32_t flags; uint64_t cas; int64_t time; size_t msz; };

#if !VP_NATIVE
// ---- ghost entries and ghost map -----------------------------------------
struct gent { const void *val; size_t vallen; int64_t exp; uint32_t flags; uint64_t cas; size_t msz; int freed; };
static struct entry E[NE]; static struct gent G[NE]; static int ne = 1;
static struct bucket B[2]; static bool inK; static struct entry *cur;
static struct gent *GE(const struct entry *e) { return &G[e - E]; }
size_t vp_stub_entry_memsize(const struct entry *e) { return GE(e)->msz; }
int64_t vp_stub_entry_expires(const struct entry *e) { return GE(e)->exp; }
uint64_t vp_stub_entry_cas(const struct entry *e, struct pgctx *c) { return c->usecas ? GE(e)->cas : 0; }
const char *vp_stub_entry_key(const struct entry *e, size_t *n, char buf[128], struct pgctx *c) { (void)e; (void)buf; (void)c; *n = KL; return K; }
size_t vp_stub_entry_extract(const struct entry *e, const char **key, size_t *kl, char buf[128], const char **val,
    size_t *vl, int64_t *ex, uint32_t *fl, uint64_t *cas, struct pgctx *c)
{
    (void)buf;
    struct gent *g = GE(e);
    VP_ASSERT(C10, !g->freed, "no freed entry is read");
    if (key) { *key = K; *kl = KL; }
    if (val) { *val = g->val; *vl = g->vallen; }
    if (ex) *ex = g->exp;
    if (fl) *fl = g->flags;
    if (cas) *cas = c->usecas ? g->cas : 0;
    return g->msz;
}
struct entry *vp_stub_entry_new(const char *key, size_t keylen, const char *val, size_t vallen, int64_t expires,
    uint32_t flags, uint64_t cas, struct pgctx *c)
{
    (void)c;
    VP_ASSERT(C03, key == K && keylen == KL, "the entry is made for the key of the operation");
    nalloc++;
    if (fail_entry) return 0;
    VP_LIMIT(ne < NE, "entries made by one operation");
    struct gent *g = &G[ne];
    g->val = val; g->vallen = vallen; g->exp = expires > 0 ? expires : 0; g->flags = flags; g->cas = cas;
    g->msz = vp_range(24, (int64_t)1 << 40);
    E[ne].time = 0; E[ne].rc = 1;
    return &E[ne++];
}
struct entry *vp_stub_get_entry(struct bucket *b) { VP_ASSERT(C03, b == &B[1] && inK, "the bucket of the key is read"); return cur; }
void vp_stub_set_entry(struct bucket *b, struct entry *e) { VP_ASSERT(C03, b == &B[1] && inK, "the bucket of the key is written"); cur = e; }
int vp_stub_map_get_bucket(struct map *m, const char *key, size_t keylen, uint32_t hash, struct pgctx *c) {
    (void)m; (void)c;
    VP_ASSERT(C03, key == K && keylen == KL && hash == KH, "the key of the operation is looked up");
    return inK ? 1 : -1;
}
bool vp_stub_map_insert(struct map *m, struct entry *e, uint32_t hash, struct entry **old, struct pgctx *c) {
    (void)c;
    VP_ASSERT(C03, hash == KH, "inserted under the hash of the key");
    VP_ASSERT(C10, !GE(e)->freed, "no freed entry is inserted");
    if (m->count >= m->growat) {
        if (fail_grow) { *old = 0; return false; }
        m->growat = m->count + 1 + (int)vp_choose(1000);
    }
    *old = inK ? cur : 0;
    if (!inK) { m->count++; m->total++; } else m->entsize -= GE(cur)->msz;
    m->entsize += GE(e)->msz;
    inK = true; cur = e;
    return true;
}
struct entry *vp_stub_map_delete(struct map *m, const char *key, size_t keylen, uint32_t hash, struct pgctx *c) {
    (void)c;
    VP_ASSERT(C03, key == K && keylen == KL && hash == KH, "the key of the operation is deleted");
    if (!inK) return 0;
    inK = false; m->count--; m->entsize -= GE(cur)->msz;
    return cur;
}
struct entry *vp_stub_delentry_at_bkt(struct map *m, size_t i) {
    VP_ASSERT(C03, i == 1 && inK, "the bucket of the key is deleted");
    inK = false; m->count--; m->entsize -= GE(cur)->msz;
    return cur;
}
void vp_stub_delbkt(struct map *m, size_t i) {
    VP_ASSERT(C03, i == 1 && inK, "the bucket of the key is deleted");
    inK = false; m->count--;
}
void vp_stub_tryshrink(struct map *m, struct pgctx *c) { (void)m; (void)c; }
static int nevict; static bool evict_after_insert;
void vp_stub_auto_evict_entry(struct shard *s, int shardidx, uint32_t hash, int64_t now, struct pgctx *c) {
    (void)s; (void)shardidx; (void)now; (void)c;
    VP_ASSERT(C06, hash == KH, "the new key is protected from eviction");
    evict_after_insert = inK && cur == &E[ENEW]; nevict++;
}
static void xfree(void *p) {
    struct gent *g = GE(p);
    VP_ASSERT(C10, !g->freed, "no entry is freed twice");
    g->freed++;
    if (p == eold) nfree_old++; else nfree_new++;
}
static void getview(struct view *v) {
    v->in = inK;
    if (!inK) return;
    struct gent *g = GE(cur);
    v->e = cur; v->val = g->val; v->vallen = g->vallen; v->exp = g->exp; v->flags = g->flags; v->cas = g->cas; v->time = cur->time; v->msz = g->msz;
    VP_ASSERT(C10, !g->freed && cur->rc >= 1, "an entry in the map is not freed");
}
#define SAMEVAL(v, p, n) ((v).val == (const void*)(p) && (v).vallen == (n))
#else
// ---- the real thing --------------------------------------------------------
static char kb[200]; static char oldval[64], newval[300], updval[300];
static int nevict; static bool evict_after_insert = true;
static int others; static struct entry *eoth[40]; static char othk[40][8];
static uint32_t othh[40]; static bool arm;
uint64_t vp_stub_th64(const void *data, size_t len, uint64_t seed) {
    (void)seed;
    if (len == KL && memcmp(data, K, len) == 0) return KH;
    for (int i = 0; i < others; i++) if (strlen(othk[i]) == len && memcmp(data, othk[i], len) == 0) return othh[i];
    return 0;
}
static void *xmalloc(size_t n) {
    if (arm) {
        if (n >= 2*sizeof(struct bucket)*S.map.nbuckets || (n % sizeof(struct bucket) == 0 && n == sizeof(struct bucket)*INITCAP)) {
            if (fail_grow) return 0;
        } else { nalloc++; if (fail_entry) return 0; }
    }
    return malloc(n);
}
static void xfree(void *p) {
    if (arm) { 
        if (p == eold) nfree_old++;
        else if (p == S.map.buckets) {}
        else { bool o = false; for (int i = 0; i < others; i++) if (p == eoth[i]) { o = true; nevict++; } if (!o) nfree_new++; }
        if (p == eold || nfree_new) return; // keep it readable for the checks
    }
    free(p);
}
static void getview(struct view *v) {
    memset(v, 0, sizeof *v);
    int i = map_get_bucket(&S.map, K, KL, KH, &C);
    v->in = i >= 0;
    if (!v->in) return;
    v->e = get_entry(&S.map.buckets[i]);
    const char *val;
    v->msz = entry_extract(v->e, 0, 0, 0, &val, &v->vallen, &v->exp, &v->flags, &v->cas, &C);
    v->val = val; v->time = v->e->time;
    VP_ASSERT(C10, v->e->rc >= 1, "an entry in the map is not freed");
}
#define SAMEVAL(v, p, n) ((v).vallen == (n) && memcmp((v).val, (p), (n)) == 0)
#endif

static struct { struct entry *n, *o; int64_t t; int shard; } nlog[4]; static int nn;
static struct { int reason; bool ok; int64_t t; int shard; } elog[4]; static int nev;
static struct view pre, post;
static int freed_before_notify;
static void on_notify(int shard, int64_t time, struct pogocache_entry *n, struct pogocache_entry *o, void *udata) {
    VP_ASSERT(C09, udata == &nn, "notify gets the user data");
    if (o == (void*)eold && nfree_old) freed_before_notify++;
    if (nn < 4) { nlog[nn].n = (void*)n; nlog[nn].o = (void*)o; nlog[nn].t = time; nlog[nn].shard = shard; }
    nn++;
}
static void on_evicted(int shard, int reason, int64_t time, const void *key, size_t keylen, const void *val,
    size_t vallen, int64_t expires, uint32_t flags, uint64_t cas, void *udata)
{
    VP_ASSERT(C09, udata == &nn, "evicted gets the user data");
    if (nfree_old) freed_before_notify++;
    if (nev < 4) {
        elog[nev].reason = reason; elog[nev].t = time; elog[nev].shard = shard;
        elog[nev].ok = keylen == KL && memcmp(key, K, VP_NATIVE ? KL : 0) == 0 && SAMEVAL(pre, val, vallen) &&
            expires == pre.exp && flags == pre.flags && cas == (C.usecas ? pre.cas : 0);
    }
    nev++;
}
static bool cbret; static int ncb; static bool cbok; static int cbshard; static int64_t cbnow;
static bool on_old(int shard, int64_t time, const void *key, size_t keylen, const void *val, size_t vallen,
    int64_t expires, uint32_t flags, uint64_t cas, void *udata)
{
    ncb++;
    cbok = key == K && keylen == KL && SAMEVAL(pre, val, vallen) && expires == pre.exp && flags == pre.flags &&
        cas == (C.usecas ? pre.cas : 0) && udata == &ncb && shard == cbshard && time == cbnow;
    return cbret;
}
static struct pogocache_update upd; static bool doupdate;
static void on_load(int shard, int64_t time, const void *key, size_t keylen, const void *val, size_t vallen,
    int64_t expires, uint32_t flags, uint64_t cas, struct pogocache_update **update, void *udata)
{
    on_old(shard, time, key, keylen, val, vallen, expires, flags, cas, udata);
    if (doupdate) *update = &upd;
}

// an arbitrary well-formed shard, with or without an entry for K
static int count0; static uint64_t total0, cas0; static size_t ents0; static bool hasn, hase; static int rc0; static int shardidx;
static void setup(void) {
    C.usecas = vp_bool(); C.noevict = vp_bool(); C.allowshrink = vp_bool(); C.nshards = 1;
    C.loadfactor = 0.75; C.shrinkfactor = 0.10; C.free = xfree;
    hasn = vp_bool(); hase = vp_bool();
    C.notify = hasn ? on_notify : 0; C.evicted = hase ? on_evicted : 0; C.usenotify = hasn || hase; C.udata = &nn;
    fail_entry = vp_choose(4) == 0; need_grow = vp_choose(3) == 0; fail_grow = vp_bool();
    shardidx = vp_choose(4096); cbshard = shardidx;
    bool in = vp_choose(4) != 0;
    int64_t exp = vp_i64(); uint32_t flags = vp_u32(); uint64_t cas = vp_u64(); int64_t time = vp_i64(); rc0 = 1 + vp_choose(3);
    cas0 = vp_u64(); VP_ASSUME(cas0 < UINT64_MAX); VP_ASSUME(cas <= cas0);
    count0 = vp_range(0, VP_NATIVE ? 30 : 1000000); total0 = vp_u64();
    S.cas = cas0;
#if !VP_NATIVE
    static char kbyte[1]; static char vbyte[1]; K = kbyte; KL = vp_u64(); KH = vp_u32();
    static struct map m; S.map = m; S.map.buckets = B; S.map.nbuckets = 2;
    S.map.growat = vp_range(1, 1000000); VP_ASSUME(count0 <= S.map.growat); VP_ASSUME((count0 == S.map.growat) == need_grow);
    VP_ASSUME(count0 >= in); S.map.count = count0;
    ents0 = vp_range(0, (int64_t)1 << 50);
    inK = in; eold = &E[EOLD]; cur = eold;
    G[EOLD].val = vbyte; G[EOLD].vallen = vp_u64(); G[EOLD].exp = exp > 0 ? exp : 0; G[EOLD].flags = flags; G[EOLD].cas = cas;
    G[EOLD].msz = vp_range(24, (int64_t)1 << 40); E[EOLD].time = time; E[EOLD].rc = rc0;
    VP_ASSUME(!in || ents0 >= G[EOLD].msz);
    S.map.entsize = ents0;
#else
    vp_u64(); KH = vp_u32(); vp_u64(); vp_u64(); vp_u64(); vp_u64();
    C.malloc = xmalloc; arm = false; nfree_old = nfree_new = nalloc = nn = nev = ncb = nevict = 0; eold = 0; others = 0; freed_before_notify = 0;
    uint64_t r = vp_u64(); C.nosixpack = r & 1;
    KL = 1 + (r >> 8) % 20; for (size_t i = 0; i < KL; i++) kb[i] = "abc.Q"[(r >> (i % 50)) % 5];
    if (r >> 60 == 3) KL = 0;
    K = kb; shard_init(&S, &C); S.cas = cas0;
    struct entry *o;
    for (int i = 0; i + in < count0; i++) {
        snprintf(othk[i], 8, "o%d", i);
        eoth[others] = entry_new(othk[i], strlen(othk[i]), "x", 1, 0, 0, 0, &C);
        othh[others] = (r & 2) ? KH + (i % 3) + !(r & 4): i * 7919;
        map_insert(&S.map, eoth[others], othh[others], &o, &C); others++;
    }
    if (in) {
        for (size_t i = 0; i < sizeof oldval; i++) oldval[i] = 'a' + i % 26;
        eold = entry_new(K, KL, oldval, r % 50, exp, flags, cas, &C);
        entry_settime(eold, time); eold->rc = rc0;
        map_insert(&S.map, eold, KH, &o, &C);
    }
    count0 = S.map.count; S.map.total = total0; ents0 = S.map.entsize;
    if (need_grow) S.map.growat = S.map.count;
    arm = true;
#endif
    S.map.total = total0;
    getview(&pre);
}
static int64_t pos_time(void) { int64_t t = vp_i64(); VP_ASSUME(t > 0); return t; }
static bool live(int64_t exp, int64_t now) { return exp == 0 || exp > now; }
static void others_same(void) {
#if VP_NATIVE
    for (int i = 0; i < others; i++) {
        bool found = false;
        for (int b = 0; b < S.map.nbuckets; b++) if (get_dib(&S.map.buckets[b]) && get_entry(&S.map.buckets[b]) == eoth[i]) found = true;
        if (!nevict) VP_ASSERT(C03, found, "every other key is still there");
    }
    for (int i = 0; i < others && !nevict; i++) VP_ASSERT(C03, entry_alive(eoth[i], 1) && eoth[i]->rc == 1, "every other entry is untouched");
#endif
}
// the old entry is where it was, nothing was announced, nothing leaks
static void unchanged(const char *why) {
    (void)why;
    getview(&post);
    VP_ASSERT(C04, post.in == pre.in && (!pre.in || post.e == pre.e), "a refused operation leaves the key as it was");
    VP_ASSERT(C10, !pre.in || post.e != pre.e || (post.e->rc == rc0 && nfree_old == 0), "a refused operation keeps the old entry alive");
    VP_ASSERT(C07, S.map.count == count0 && S.map.total == total0 && S.map.entsize == ents0, "a refused operation changes no count");
    VP_ASSERT(C09, nn == 0 && nev == 0, "a refused operation announces nothing");
}
static void check_expired_events(int first) {
    VP_ASSERT(C09, !hasn || (nn > first && nlog[first].n == 0 && nlog[first].o == eold && nlog[first].shard == shardidx && nlog[first].t == cbnow), "the expired entry is announced");
    VP_ASSERT(C09, nev == (hase ? 1 : 0) && (!hase || (elog[0].reason == POGOCACHE_REASON_EXPIRED && elog[0].ok && elog[0].shard == shardidx && elog[0].t == cbnow)), "an expired entry is evicted with its own content");
    VP_ASSERT(C10, nfree_old == (rc0 == 1), "the removed entry is released once");
}

void harness_store(void) {
    setup();
    struct pogocache_store_opts o; memset(&o, 0, sizeof o);
    o.time = pos_time(); o.expires = vp_i64(); o.ttl = vp_i64(); o.cas = vp_u64(); o.flags = vp_u32();
    o.keepttl = vp_bool(); o.casop = vp_bool(); o.nx = vp_bool(); o.xx = vp_bool(); o.lowmem = vp_bool();
#if VP_NATIVE
    if (vp_bool()) o.cas = pre.cas;
    if (vp_bool()) { o.time = pre.exp - 1 + (int64_t)vp_choose(3); if (o.time <= 0) o.time = 1; }
    size_t vl = vp_choose(sizeof newval); const char *nv = newval; memset(newval, 'n', sizeof newval); memset(newval, 'p', vl/2);
#else
    vp_u64(); vp_u64(); vp_u64();
    static char nb[1]; const char *nv = nb; size_t vl = vp_u64();
#endif
    bool hascb = vp_bool(); cbret = vp_bool(); o.entry = hascb ? on_old : 0; o.udata = &ncb;
    int64_t now = o.time; cbnow = now;
    int r = storeop(K, KL, nv, vl, &o, &S, shardidx, KH, &C);
    getview(&post); others_same();

    bool alive = pre.in && live(pre.exp, now);
    __int128 sum = (__int128)now + o.ttl;
    int64_t wantexp = o.expires > 0 ? o.expires : o.ttl > 0 ? (sum > INT64_MAX ? INT64_MAX : (int64_t)sum) : 0;
    if (o.keepttl && alive) wantexp = pre.exp;
    bool nomem = fail_entry || (o.lowmem && C.noevict) || (need_grow && fail_grow);
    VP_ASSERT(C10, (r == POGOCACHE_NOMEM) == nomem, "no memory is reported exactly when there is none");
    VP_ASSERT(C09, freed_before_notify == 0, "an entry is announced before it is released");
    VP_ASSERT(C11, S.lock == 0, "the operation leaves the lock word alone");
    VP_ASSERT(C04, S.cas >= cas0, "the cas counter never goes back");
    if (nomem) {
        unchanged("nomem");
        VP_ASSERT(C10, nfree_new == (fail_entry ? 0 : 1), "a refused new entry is released");
        VP_COVER(fail_entry, "entry refused"); VP_COVER(!fail_entry && need_grow, "growth refused");
        return;
    }
    int want;
    if (alive) {
        if (o.casop) want = C.usecas && o.cas == pre.cas ? POGOCACHE_REPLACED : POGOCACHE_FOUND;
        else want = o.nx ? POGOCACHE_FOUND : POGOCACHE_REPLACED;
        if (want == POGOCACHE_REPLACED && hascb && !cbret) want = POGOCACHE_CANCELED;
    } else want = o.xx || o.casop ? POGOCACHE_NOTFOUND : POGOCACHE_INSERTED;
    VP_ASSERT(C04, r == want, "store reports what the options and the old entry call for");
    VP_ASSERT(C04, ncb == (hascb && alive && (r == POGOCACHE_CANCELED || r == POGOCACHE_REPLACED) ? 1 : 0), "the callback sees a live old entry exactly once");
    VP_ASSERT(C04, ncb == 0 || cbok, "the callback gets the old entry");
    if (want == POGOCACHE_FOUND || want == POGOCACHE_CANCELED) {
        unchanged("refused");
        VP_ASSERT(C10, nfree_new == 1, "the rejected entry is released once");
        VP_ASSERT(C04, post.time == pre.time, "a refused store does not touch the old entry");
        VP_COVER(want == POGOCACHE_FOUND && o.casop, "cas mismatch"); VP_COVER(want == POGOCACHE_CANCELED, "cancelled");
        return;
    }
    bool exp0 = pre.in && !alive;
    if (exp0) check_expired_events(0);
    if (want == POGOCACHE_NOTFOUND) {
        VP_ASSERT(C04, !post.in, "a conditional store on a missing key stores nothing");
        VP_ASSERT(C10, nfree_new == 1, "the rejected entry is released once");
        VP_ASSERT(C07, S.map.count == count0 - exp0 && S.map.total == total0 && S.map.entsize == ents0 - (exp0 ? pre.msz : 0), "a store that stores nothing counts nothing");
        VP_ASSERT(C09, nn == (hasn && exp0 ? 1 : 0) && (exp0 || nev == 0), "nothing but the expiration is announced");
        VP_COVER(exp0, "xx on an expired key");
        return;
    }
    VP_ASSERT(C03, post.in && post.e != pre.e && SAMEVAL(post, nv, vl), "the stored value is what the key now has");
    VP_ASSERT(C03, post.flags == o.flags, "the stored flags are what the key now has");
    VP_ASSERT(C05, post.exp == wantexp, "the stored expiration is the one asked for");
    VP_ASSERT(C04, !C.usecas || (post.cas > cas0 && post.cas <= S.cas), "the new entry has a fresh cas");
    VP_ASSERT(C06, post.time == now, "the new entry carries the access time");
    VP_ASSERT(C10, post.e->rc == 1 && nfree_new == 0, "the map owns the new entry");
    bool inserted = want == POGOCACHE_INSERTED;
    int evs = nevict ? 1 : 0; (void)evs;
#if VP_NATIVE
    if (nevict) { VP_ASSERT(C06, o.lowmem && inserted && !exp0 && nevict == 1, "at most one other entry is evicted, on low memory"); return; }
#else
    VP_ASSERT(C06, nevict == (o.lowmem && inserted && !exp0 ? 1 : 0), "one eviction is attempted exactly when the map grew on low memory");
    VP_ASSERT(C06, !nevict || evict_after_insert, "the new entry is in the map when another one is evicted");
#endif
    VP_ASSERT(C07, S.map.count == count0 + (pre.in ? 0 : 1), "count follows the stored keys");
    VP_ASSERT(C07, S.map.total == total0 + (pre.in ? 0 : 1) || (exp0 && S.map.total == total0 + 1), "total counts the stored entries");
    VP_ASSERT(C07, S.map.entsize == ents0 - (pre.in ? pre.msz : 0) + post.msz, "size follows the stored entries");
    if (inserted) {
        VP_ASSERT(C09, !hasn || (nn == 1 + exp0 && nlog[nn-1].n == post.e && nlog[nn-1].o == 0 && nlog[nn-1].t == now && nlog[nn-1].shard == shardidx), "an insert is announced");
        VP_ASSERT(C09, exp0 || nev == 0, "an insert evicts nothing");
        VP_COVER(exp0, "insert over an expired entry"); VP_COVER(o.lowmem, "low memory insert");
    } else {
        VP_ASSERT(C09, !hasn || (nn == 1 && nlog[0].n == post.e && nlog[0].o == eold && nlog[0].t == now && nlog[0].shard == shardidx), "a replace is announced");
        VP_ASSERT(C09, nev == 0, "a replace evicts nothing");
        VP_ASSERT(C10, nfree_old == (rc0 == 1), "the replaced entry is released once");
        VP_COVER(o.keepttl && post.exp > 0, "keepttl");
    }
}

void harness_load(void) {
    setup();
    struct pogocache_load_opts o; memset(&o, 0, sizeof o);
    o.time = pos_time(); o.notouch = vp_bool();
#if VP_NATIVE
    if (vp_bool()) { o.time = pre.exp - 1 + (int64_t)vp_choose(3); if (o.time <= 0) o.time = 1; }
    size_t vl = vp_choose(sizeof updval); const char *nv = updval; memset(updval, 'u', sizeof updval);
#else
    vp_u64(); vp_u64();
    static char nb[1]; const char *nv = nb; size_t vl = vp_u64();
#endif
    bool hascb = vp_bool(); doupdate = vp_bool(); o.entry = hascb ? on_load : 0; o.udata = &ncb; 
    upd.value = nv; upd.valuelen = vl; upd.flags = vp_u32(); upd.expires = vp_i64();
    int64_t now = o.time; cbnow = now;
    int r = loadop(K, KL, &o, &S, shardidx, KH, &C);
    getview(&post); others_same();
    bool alive = pre.in && live(pre.exp, now);
    VP_ASSERT(C05, (r == POGOCACHE_NOTFOUND) == !alive, "only a live entry is found");
    VP_ASSERT(C03, ncb == (hascb && alive ? 1 : 0), "a found entry is handed out once");
    VP_ASSERT(C03, ncb == 0 || cbok, "load hands out what was stored");
    VP_ASSERT(C09, freed_before_notify == 0, "an entry is announced before it is released");
    if (!pre.in) { unchanged("absent"); return; }
    if (!alive) {
        VP_ASSERT(C05, !post.in, "an expired entry is removed when met");
        VP_ASSERT(C07, S.map.count == count0 - 1 && S.map.total == total0 && S.map.entsize == ents0 - pre.msz, "an expired entry leaves the counts");
        VP_ASSERT(C09, nn == (hasn ? 1 : 0), "one announcement for the expired entry");
        check_expired_events(0);
        VP_COVER(1, "expired");
        return;
    }
    bool up = hascb && doupdate;
    if (!up || fail_entry) {
        VP_ASSERT(C10, r == (up ? POGOCACHE_NOMEM : POGOCACHE_FOUND), "no memory is reported exactly when there is none");
        unchanged("plain");
        VP_ASSERT(C03, SAMEVAL(post, pre.val, pre.vallen) && post.exp == pre.exp && post.flags == pre.flags && post.cas == pre.cas, "a load changes nothing");
        VP_ASSERT(C06, post.time == (o.notouch ? pre.time : now), "a load touches the entry unless told not to");
        VP_COVER(up, "update refused"); VP_COVER(!o.notouch, "touched");
        return;
    }
    VP_ASSERT(C03, r == POGOCACHE_FOUND && post.in && SAMEVAL(post, nv, vl) && post.flags == upd.flags, "the update is what the key now has");
    VP_ASSERT(C05, post.exp == (upd.expires > 0 ? upd.expires : 0), "the update's expiration is what the key now has");
    VP_ASSERT(C04, !C.usecas || (post.cas > cas0 && post.cas <= S.cas), "an update gives a fresh cas");
    VP_ASSERT(C06, post.time == now, "the new entry carries the access time");
    VP_ASSERT(C07, S.map.count == count0 && S.map.total == total0 && S.map.entsize == ents0 - pre.msz + post.msz, "counts follow an update");
    VP_ASSERT(C09, nn == (hasn ? 1 : 0) && nev == 0 && (!hasn || (nlog[0].n == post.e && nlog[0].o == eold && nlog[0].t == now && nlog[0].shard == shardidx)), "an update is announced as a replace");
    VP_ASSERT(C10, nfree_old == (rc0 == 1) && nfree_new == 0 && post.e->rc == 1, "the replaced entry is released once");
    VP_COVER(1, "updated");
}

void harness_delete(void) {
    setup();
    struct pogocache_delete_opts o; memset(&o, 0, sizeof o);
    o.time = pos_time(); 
#if VP_NATIVE
    if (vp_bool()) { o.time = pre.exp - 1 + (int64_t)vp_choose(3); if (o.time <= 0) o.time = 1; }
#else
    vp_u64();
#endif
    bool hascb = vp_bool(); cbret = vp_bool(); o.entry = hascb ? on_old : 0; o.udata = &ncb;
    int64_t now = o.time; cbnow = now;
    int r = deleteop(K, KL, &o, &S, shardidx, KH, &C);
    getview(&post); others_same();
    bool alive = pre.in && live(pre.exp, now);
    int want = !alive ? POGOCACHE_NOTFOUND : hascb && !cbret ? POGOCACHE_CANCELED : POGOCACHE_DELETED;
    VP_ASSERT(C04, r == want, "delete reports what happened");
    VP_ASSERT(C05, alive || r == POGOCACHE_NOTFOUND, "an expired entry is not there to be deleted");
    VP_ASSERT(C04, ncb == (hascb && alive ? 1 : 0) && (!ncb || cbok), "the callback sees a live entry exactly once");
    VP_ASSERT(C09, freed_before_notify == 0, "an entry is announced before it is released");
    if (!pre.in || want == POGOCACHE_CANCELED) { unchanged("kept"); VP_ASSERT(C04, !pre.in || post.time == pre.time, "a cancelled delete keeps the entry"); VP_COVER(pre.in, "cancelled"); return; }
    VP_ASSERT(C03, !post.in, "a deleted key is gone");
    VP_ASSERT(C07, S.map.count == count0 - 1 && S.map.total == total0 && S.map.entsize == ents0 - pre.msz, "a deleted entry leaves the counts");
    VP_ASSERT(C09, nn == (hasn ? 1 : 0), "one announcement for the removed entry");
    if (!alive) { check_expired_events(0); VP_COVER(1, "expired"); return; }
    VP_ASSERT(C09, nev == 0 && (!hasn || (nlog[0].n == 0 && nlog[0].o == eold && nlog[0].t == now && nlog[0].shard == shardidx)), "a delete is announced");
    VP_ASSERT(C10, nfree_old == (rc0 == 1), "the removed entry is released once");
    VP_COVER(1, "deleted");
}
