// cmds.c: the commands. The cache, the clock, the writers of the replies and
// the number codec are used by contract: every operation that a command
// performs on the cache is recorded, its outcome is arbitrary (within the
// contract of the operation), and so is the entry that it finds.
// A reply is recorded as a stream of bytes: what is sent for the raw replies,
// one letter and the content for the others.
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <inttypes.h>
#include <ctype.h>
#include <sys/types.h>
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <stdatomic.h>
#include "save.h"
#include "parse.h"
#include "util.h"
#include "sys.h"
#include "cmds.h"
#include "conn.h"
#include "xmalloc.h"
#include "pogocache.h"
#include "stats.h"
#include "monitor.h"
#include "tls.h"
#ifndef VL
#define VL 2            // bytes of a key or a value
#endif
#ifndef NTOK
#define NTOK 4          // option words
#endif
#define OC 160
#define MAXA 8
#ifndef TB2
#define TB2 42
#endif
typedef unsigned char u8;
// ---- replies
#if !VP_NATIVE
#define PUTB 6
#else
#define PUTB 100
#endif
static u8 O[OC], X[OC]; static int on, xn; static u8 *W = O; static int *wn = &on;
static uint64_t NV[16]; static int nnv; // numbers of more than one digit
static int PROTO;
static struct conn *CN; static char CNB;
static void put(u8 c) { VP_LIMIT(*wn < OC, "reply"); W[(*wn)++] = c; }
static void putz(const char *s) { for (int i = 0; i < 72; i++) { if (!s[i]) break; put((u8)s[i]); } }
static void putb(const void *d, size_t n) { const u8 *p = d; VP_LIMIT(n <= PUTB || VP_NATIVE, "reply data"); for (size_t i = 0; i < PUTB; i++) if (i < n) put(p[i]); }
static int slot(uint64_t v) { VP_LIMIT(nnv < 16, "numbers"); NV[nnv] = v; return nnv++; }
static void putu(uint64_t v) {
#if VP_NATIVE
    char b[32]; sprintf(b, "%" PRIu64, v); putz(b);
#else
    if (v < 10) put('0' + (u8)v); else put(0x80 + slot(v));
#endif
}
static void puti(int64_t v) { if (v < 0) { put('-'); putu(-(uint64_t)v); } else putu(v); }
static bool tagged(u8 c) { return !VP_NATIVE && c >= 0x80; }
static bool sameb(u8 a, u8 b) { if (tagged(a) && tagged(b)) return NV[(a-0x80)&15] == NV[(b-0x80)&15]; return a == b; }
static bool reply_ok(void) { if (on != xn) return false; for (int i = 0; i < OC; i++) if (i < on && !sameb(O[i], X[i])) return false; return true; }
#define REPLY(c, msg) VP_ASSERT(C19, (c), msg)
int conn_proto(struct conn *c) { return PROTO; }
static bool authed; static int nsetauth;
bool conn_auth(struct conn *c) { return authed; }
void conn_setauth(struct conn *c, bool a) { authed = a; nsetauth++; }
static int nclosed; void conn_close(struct conn *c) { nclosed++; }
bool conn_isclosed(struct conn *c) { return nclosed > 0; }
const char *conn_addr(struct conn *c) { return "a"; }
void conn_write_raw(struct conn *c, const void *d, size_t n) { const char *p = d;
#if !VP_NATIVE
    VP_LIMIT(n <= 72, "raw reply"); for (size_t i = 0; i < 72; i++) { if (i >= n) break; put(p[i]); }
#else
    for (size_t i = 0; i < n; i++) put(p[i]);
#endif
}
void conn_write_raw_cstr(struct conn *c, const char *s) { putz(s); }
static int nerrs; static char ERR0[8];
#if !VP_NATIVE && defined DISP
void conn_write_error(struct conn *c, const char *s) { nerrs++; for (int i = 0; i < 8; i++) ERR0[i] = s[i]; }
#else
void conn_write_error(struct conn *c, const char *s) { nerrs++; strncpy(ERR0, s, 8); put('e'); putz(s); put(0); }
#endif
void conn_write_string(struct conn *c, const char *s) { put('s'); putz(s); put(0); }
void conn_write_null(struct conn *c) { put('n'); }
void conn_write_bulk(struct conn *c, const void *d, size_t n) { put('b'); putu(n); put(':'); putb(d, n); }
void conn_write_bulk_cstr(struct conn *c, const char *s) { conn_write_bulk(c, s, strlen(s)); }
void conn_write_array(struct conn *c, size_t n) { put('a'); putu(n); }
void conn_write_uint(struct conn *c, uint64_t v) { put('i'); putu(v); }
void conn_write_int(struct conn *c, int64_t v) { put('i'); puti(v); }
void conn_write_http(struct conn *c, int code, const char *st, const void *body, ssize_t n) { put('h'); put(code == 200 ? 2 : code == 404 ? 4 : 0); putz(st); put(0); if (n < 0) putz(body); else putb(body, n); }
bool pg_execute(struct conn *c) { return false; }
void pg_write_row_desc(struct conn *c, const char **f, int n) { put('D'); for (int i = 0; i < 4; i++) if (i < n) { putz(f[i]); put(0); } }
void pg_write_row_data(struct conn *c, const char **f, const size_t *l, int n) { put('R'); for (int i = 0; i < 4; i++) if (i < n) { putb(f[i], l[i]); put(0); } }
void pg_write_error(struct conn *c, const char *s) { put('e'); putz(s); put(0); }
void pg_write_complete(struct conn *c, const char *s) { put('C'); putz(s); put(0); }
void pg_write_ready(struct conn *c, unsigned char code) { put('Z'); put(code); }
void pg_write_simple_row_data_ready(struct conn *c, const char *desc, const void *row, size_t n, const char *tag) { pg_write_row_desc(c, (const char*[]){ desc }, 1); pg_write_row_data(c, (const char*[]){ row }, (size_t[]){ n }, 1); pg_write_complete(c, tag); pg_write_ready(c, 'I'); }
void pg_write_simple_row_i64_ready(struct conn *c, const char *desc, int64_t row, const char *tag) { pg_write_row_desc(c, (const char*[]){ desc }, 1); put('R'); puti(row); put(0); pg_write_complete(c, tag); pg_write_ready(c, 'I'); }
void pg_write_simple_row_str_ready(struct conn *c, const char *desc, const char *row, const char *tag) { pg_write_row_desc(c, (const char*[]){ desc }, 1); put('R'); putz(row); put(0); pg_write_complete(c, tag); pg_write_ready(c, 'I'); }
// formats: text, %s, and integers
struct farg { const char *s; int64_t v; };
static void putf(const char *f, struct farg a, struct farg b) {
    int k = 0;
    for (int i = 0; i < 72; i++) {
        if (!f[i]) break;
        if (f[i] != '%') { put(f[i]); continue; }
        struct farg x = k++ ? b : a;
        i++;
        if (f[i] == 's') { putz(x.s); continue; }
        if (f[i] == 'z' || f[i] == 'l') i++;
        if (f[i] == 'l') i++;
        VP_LIMIT(f[i] == 'd' || f[i] == 'i' || f[i] == 'u', "format");
        if (f[i] != 'u') puti(x.v); else putu(x.v);
    }
}
#define FS(a) _Generic((a), char*: (a), const char*: (a), default: "")
#define FI(a) _Generic((a), char*: 0, const char*: 0, default: (a))
#define FA(a) ((struct farg){ FS(a), (int64_t)FI(a) })
#define PUTF2(f, a, b, ...) putf(f, FA(a), FA(b))
#define pg_write_completef(c, ...) (put('C'), PUTF2(__VA_ARGS__, 0, 0), put(0))
#define pg_write_simple_row_str_readyf(c, desc, row, ...) (pg_write_row_desc(c, (const char*[]){ desc }, 1), put('R'), putz(row), put(0), put('C'), PUTF2(__VA_ARGS__, 0, 0), put(0), pg_write_ready(c, 'I'))
// ---- clock
static int64_t NOW, UNIX;
int64_t sys_now(void) { return NOW; }
int64_t sys_unixnow(void) { return UNIX; }
// ---- memory
static int nalloc, nfree;
static struct flushctx *FC;
void *xmalloc(size_t n) { nalloc++; return malloc(n); }
#if VP_NATIVE
void *xrealloc(void *p, size_t n) { if (!p) nalloc++; return realloc(p, n); }
#else
static void *vp_xptrs[16], *vp_xbytes[16];
void *xrealloc(void *p, size_t n) { VP_LIMIT(!p && n <= sizeof vp_xptrs, "a list of pointers"); nalloc++; return malloc(sizeof(void*)*16); }
#ifdef FIXM
static void *vp_xmb(size_t n) { VP_LIMIT(n <= 4*VL + 64, "bytes"); nalloc++; return malloc(4*VL + 64); }
#define xmalloc(n) (__builtin_constant_p(n) ? (xmalloc)(n) : vp_xmb(n))
#endif
#endif
void xfree(void *p) { if (p) nfree++; free(p); }
void xpurge(void) {}
// ---- statistics are not part of the properties
#define ST(x) void stat_##x##_incr(struct conn *c) { (void)c; }
ST(cmd_flush) ST(cmd_touch) ST(cmd_meta) ST(get_expired) ST(get_flushed) ST(delete_misses) ST(delete_hits) ST(incr_misses) ST(incr_hits) ST(decr_misses) ST(decr_hits) ST(cas_misses) ST(cas_hits) ST(cas_badval) ST(touch_hits) ST(touch_misses) ST(store_too_large) ST(store_no_memory) ST(auth_cmds) ST(auth_errors) ST(cmd_get) ST(cmd_set) ST(get_hits) ST(get_misses)
#if VP_NATIVE
#define SG(x) uint64_t stat_##x(void) { return 0; }
SG(cmd_flush) SG(cmd_touch) SG(cmd_meta) SG(get_expired) SG(get_flushed) SG(delete_misses) SG(delete_hits) SG(incr_misses) SG(incr_hits) SG(decr_misses) SG(decr_hits) SG(cas_misses) SG(cas_hits) SG(cas_badval) SG(touch_hits) SG(touch_misses) SG(store_too_large) SG(store_no_memory) SG(auth_cmds) SG(auth_errors) SG(get_hits) SG(get_misses) SG(cmd_get) SG(cmd_set)
void sys_getmeminfo(struct sys_meminfo *m) { memset(m, 0, sizeof *m); } size_t pogocache_size(struct pogocache *c, struct pogocache_size_opts *o) { return 0; } uint64_t pogocache_total(struct pogocache *c, struct pogocache_total_opts *o) { return 0; }
#endif
#if VP_NATIVE
size_t net_nconns(void) { return 0; } size_t net_rconns(void) { return 0; } size_t net_tconns(void) { return 0; }
#endif
static int nmon; void monitor_cmd(int64_t now, int db, const char *addr, struct args *a) { nmon++; }
// ---- the arguments
struct tok { int kind; bool isi, isu; int64_t iv; uint64_t uv; };
enum { W_EX, W_PX, W_EXAT, W_PXAT, W_NX, W_XX, W_GET, W_KEEPTTL, W_FLAGS, W_CAS, W_ASYNC, W_SYNC, W_FAST, W_DELAY, W_MATCH, W_COUNT, W_TYPE, W_STRING, NW };
static const char *WORD[NW] = { "ex", "px", "exat", "pxat", "nx", "xx", "get", "keepttl", "flags", "cas", "async", "sync", "fast", "delay", "match", "count", "type", "string" };
static struct tok T[MAXA]; static char TB[MAXA][24]; static struct buf AB[MAXA]; static struct args A;
static char *KEY, *VAL; static int keyn, valn;
#if !VP_NATIVE
static const char BEHIND[] = "!"; static const char *onename = ""; static size_t onelen; static bool nocmd; // the first argument is not the name of a command
static int word(const char *s) { for (int w = 0; w < NW; w++) if (!strcmp(WORD[w], s)) return w; return NW; }
static int whichp(const char *d) { for (int i = 0; i < MAXA; i++) if (d == TB[i]) return i; return -1; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
bool argeq_bytes(const void *d, size_t n, const char *s) {
#ifdef DISP
    int i = 0; VP_LIMIT(d == TB[0], "the first argument");
#else
    int i = whichp(d);
#endif
    if (i > 0) { VP_LIMIT(n == AB[i].len && word(s) < NW, "a word"); return T[i].kind == word(s); }
    const char *p = d; size_t k = 0;
#ifdef DISP
    // equal up to the case of letters (C17): exactly the name of this command
    VP_ASSERT(C20, s != BEHIND, "a lookup stays inside of the table"); if (nocmd || s == BEHIND) return false; p = onename; n = onelen;
#endif
    for (; k < 12; k++) { if (k >= n || !s[k]) break; if (low(p[k]) != low(s[k])) return false; }
    return k == n && !s[k];
}
bool argeq(struct args *a, int i, const char *s) { if (i > 0) { VP_LIMIT(i < MAXA && a == &A && word(s) < NW, "a word"); return T[i].kind == word(s); } return argeq_bytes(a->bufs[i].data, a->bufs[i].len, s); }
bool args_eq(struct args *a, int i, const char *s) { return argeq(a, i, s); }
const char *args_at(struct args *a, int i, size_t *n) { if (n) *n = a->bufs[i].len; return a->bufs[i].data; }
int args_count(struct args *a) { return a->len; }
static char OLD[VL], *OLDP; static int oldn; static struct tok OT; // the entry that is found
static struct tok *numof(const char *d, size_t n) { if (d == OLD) { VP_LIMIT(n == oldn, "a number"); return &OT; } int i = whichp(d); VP_LIMIT(i >= 0 && n == AB[i].len, "a number"); return &T[i]; }
bool parse_i64(const char *d, size_t n, int64_t *x) { struct tok *t = numof(d, n); if (t->isi) *x = t->iv; return t->isi; }
bool parse_u64(const char *d, size_t n, uint64_t *x) { struct tok *t = numof(d, n); if (t->isu) *x = t->uv; return t->isu; }
bool argi64(struct args *a, int i, int64_t *x) { return parse_i64(a->bufs[i].data, a->bufs[i].len, x); }
bool argu64(struct args *a, int i, uint64_t *x) { return parse_u64(a->bufs[i].data, a->bufs[i].len, x); }
size_t u64toa(uint64_t v, uint8_t *d) { d[0] = v < 10 ? '0' + (u8)v : 0x80 + slot(v); d[1] = 0; return 1; }
size_t i64toa(int64_t v, uint8_t *d) { if (v >= 0) return u64toa(v, d); d[0] = '-'; return 1 + u64toa(-(uint64_t)v, d + 1); }
#define memcpy vp_memcpy
static void *vp_memcpy(void *d, const void *s, size_t n) { char *p = d; const char *q = s; VP_LIMIT(n <= 2*VL, "copied"); for (size_t i = 0; i < 2*VL; i++) if (i < n) p[i] = q[i]; return d; }
static bool isneg; static int64_t satsel(__int128 v) { return v > INT64_MAX ? INT64_MAX : v < INT64_MIN ? INT64_MIN : (int64_t)v; }
int64_t int64_add_clamp(int64_t a, int64_t b) { return satsel((__int128)a + b); }
// int64_mul_clamp is the exact product, clamped (C17); here: some function with the sign of its argument
static int nmul; int64_t __CPROVER_uninterpreted_mul(int64_t a, int64_t b);
static int64_t mulc(int64_t a, int64_t b) { int64_t r = __CPROVER_uninterpreted_mul(a, b); VP_ASSUME(a > 0 ? r >= a : a < 0 ? r <= a : r == 0); return r; }
int64_t int64_mul_clamp(int64_t a, int64_t b) { VP_LIMIT(b == 1000000000 || b == 1000000, "units"); nmul++; return mulc(a, b); }
static void vp_snp(char *b, const char *f, uint64_t v, int64_t iv) {
    // "%llu" or "%lld" of a number
    const char *p = f; bool sg = false; for (int i = 0; i < 6; i++) { if (!f[i]) break; if (f[i] == 'd' || f[i] == 'i') sg = true; }
    if (sg) i64toa(iv, (uint8_t*)b); else u64toa(v, (uint8_t*)b);
}
static size_t slen(const char *s) { size_t n = 0; for (; n < 24; n++) if (!s[n]) break; return n; }
#define snprintf(b, n, f, ...) (vp_snp(b, f, VPU(__VA_ARGS__, 0), VPU(__VA_ARGS__, 0)), slen(b))
#define VPU(a, ...) (a)
#undef MAXARGSZ
#define MAXARGSZ (2*VL-1)
#else
static char OLD[2*VL > 24 ? 2*VL : 24]; static int oldn; static struct tok OT;
static int64_t satsel(__int128 v) { return v > INT64_MAX ? INT64_MAX : v < INT64_MIN ? INT64_MIN : (int64_t)v; }
#endif
// ---- the cache
static char CACHE, BATCH; struct pogocache *cache;
static int nbegin, nend, nload, nstore, ndel;
static bool exists[MAXA], hasold; // of each key argument
static int64_t OEXP; static uint32_t OFLAGS; static uint64_t OCAS;
static char SV[VP_NATIVE ? 64 : 2*VL+2]; static size_t svn; static const void *SK; static size_t skn; static struct pogocache_store_opts SO; static void *SC; static int sstat;
static void *LC; static const void *LK[MAXA], *DK[MAXA]; static size_t lkn[MAXA], dkn[MAXA]; static struct pogocache_load_opts LO; static struct pogocache_update UPD; static bool updated, updself;
static bool afterend;
static bool incr_batch;
struct pogocache *pogocache_begin(struct pogocache *c) { VP_ASSERT(C18, (void*)c == &CACHE, "a batch of the cache"); nbegin++; return (void*)&BATCH; }
void pogocache_end(struct pogocache *c) { VP_ASSERT(C18, (void*)c == &BATCH, "the batch is ended"); nend++; }
static bool nomem;
int pogocache_store(struct pogocache *c, const void *k, size_t kn, const void *v, size_t vn, struct pogocache_store_opts *o) {
    nstore++; SC = c; SK = k; skn = kn; SO = *o; svn = vn; afterend = nend > 0;
    VP_LIMIT(vn <= sizeof SV, "value"); for (size_t i = 0; i < sizeof SV; i++) if (i < vn) SV[i] = ((const char*)v)[i];
    bool E = exists[1];
    if (nomem) return sstat = POGOCACHE_NOMEM;
    if (E && (o->casop ? OCAS != o->cas : o->nx)) return sstat = POGOCACHE_FOUND;
    if (!E) return sstat = o->xx || o->casop ? POGOCACHE_NOTFOUND : POGOCACHE_INSERTED;
    if (o->entry && !o->entry(0, o->time, k, kn, OLD, oldn, OEXP, OFLAGS, OCAS, o->udata)) return sstat = POGOCACHE_CANCELED;
    return sstat = POGOCACHE_REPLACED;
}
int pogocache_load(struct pogocache *c, const void *k, size_t kn, struct pogocache_load_opts *o) {
    VP_LIMIT(nload < MAXA - 1, "loads"); nload++; LC = c; LK[nload] = k; lkn[nload] = kn; LO = *o; afterend = nend > 0;
    if (!exists[nload]) return POGOCACHE_NOTFOUND;
    struct pogocache_update *u = 0;
    if (o->entry) o->entry(0, o->time, k, kn, OLD, oldn, OEXP, OFLAGS, OCAS, &u, o->udata);
    if (u) { updated = true; UPD = *u; if (nomem) return POGOCACHE_NOMEM; }
    return POGOCACHE_FOUND;
}
int pogocache_delete(struct pogocache *c, const void *k, size_t kn, struct pogocache_delete_opts *o) {
    VP_LIMIT(ndel < MAXA - 1, "deletes"); ndel++; LC = c; DK[ndel] = k; dkn[ndel] = kn; LO.time = o->time; VP_ASSERT(C19, !o->entry, "an unconditional delete");
    return exists[ndel] ? POGOCACHE_DELETED : POGOCACHE_NOTFOUND;
}
static size_t CNT; size_t pogocache_count(struct pogocache *c, struct pogocache_count_opts *o) { LO.time = o->time; VP_ASSERT(C19, !o->oneshard && (void*)c == &CACHE, "all shards are counted"); return CNT; }
// the whole keyspace: shards, entries
#ifndef MSH
#define MSH (VP_NATIVE ? 6 : 4)
#endif
static int clr[MSH], swp[MSH], clrall, swpall; static int64_t ktime;
int vp_nshards asm("nshards");
void pogocache_clear(struct pogocache *c, struct pogocache_clear_opts *o) { ktime = o->time; VP_ASSERT(C28, (void*)c == &CACHE, "the cache"); if (!o->oneshard) { clrall++; return; } VP_ASSERT(C28, o->oneshardidx >= 0 && o->oneshardidx < vp_nshards, "a shard"); VP_ASSUME(o->oneshardidx >= 0 && o->oneshardidx < MSH); clr[o->oneshardidx]++; }
void pogocache_sweep(struct pogocache *c, size_t *a, size_t *b, struct pogocache_sweep_opts *o) { ktime = o->time; VP_ASSERT(C28, (void*)c == &CACHE, "the cache"); *a = *b = 1; if (!o->oneshard) { swpall++; return; } VP_ASSERT(C28, o->oneshardidx >= 0 && o->oneshardidx < vp_nshards, "a shard"); VP_ASSUME(o->oneshardidx >= 0 && o->oneshardidx < MSH); swp[o->oneshardidx]++; }
#define ME 3
static char EK[ME][VL]; static int ekn[ME], nent, nrel[ME], nextent; static bool matches[ME]; static uint64_t ccur[ME + 1]; static const char *PAT; static int patn; static bool sixp[ME];
int pogocache_iter(struct pogocache *c, struct pogocache_iter_opts *o) { ktime = o->time; VP_ASSERT(C28, (void*)c == &CACHE && !o->oneshard, "all of the cache"); int r = 0; for (int i = 0; i < ME; i++) if (i < nent) { r = o->entry(0, o->time, EK[i], ekn[i], OLD, oldn, OEXP, OFLAGS, OCAS, o->udata); VP_ASSERT(C28, r == POGOCACHE_ITER_CONTINUE, "no entry is deleted or left out"); } return POGOCACHE_FINISHED; }
struct pogocache_entry *pogocache_entry_iter(struct pogocache *c, int64_t now, uint64_t *cur) { ktime = now; VP_ASSERT(C28, *cur == ccur[nextent], "the scan goes on where it was"); if (nextent == nent) { *cur = 0; return 0; } *cur = ccur[nextent + 1]; return (void*)EK[nextent++]; }
static int ent(struct pogocache_entry *e) { for (int i = 0; i < ME; i++) if ((void*)e == EK[i]) return i; VP_LIMIT(false, "an entry"); return 0; }
const void *pogocache_entry_key(struct pogocache *c, struct pogocache_entry *e, size_t *n, char b[128]) { int i = ent(e); VP_ASSERT(C28, nrel[i] == 0, "an entry in use"); *n = ekn[i]; if (!sixp[i]) return EK[i]; for (int k = 0; k < VL; k++) if (k < ekn[i]) b[k] = EK[i][k]; return b; }
void pogocache_entry_release(struct pogocache *c, struct pogocache_entry *e) { nrel[ent(e)]++; }
static bool samev(const void *p, size_t n, const void *q, size_t m);
#if !VP_NATIVE
bool match(const char *p, size_t pn, const char *s, size_t n, int depth) {
    VP_ASSERT(C28, samev(p, pn, PAT, patn) && depth == 0, "the pattern of the command");
    for (int i = 0; i < ME; i++) if (s == EK[i]) { VP_ASSERT(C28, (int)n == ekn[i], "the key"); return matches[i]; }
    // a copy of the key of the entry that is visited
    int i = nextent - 1; VP_LIMIT(i >= 0, "a key"); VP_ASSERT(C28, samev(s, n, EK[i], ekn[i]), "the key"); return matches[i];
}
static char KB[ME * (VL + 1)];
void buf_append_uvarint(struct buf *b, uint64_t v) { VP_LIMIT(v < 128 && b->len < sizeof KB, "length"); b->data = KB; KB[b->len++] = v; }
void buf_append(struct buf *b, const void *d, size_t n) { VP_LIMIT(n <= VL, "key"); for (size_t i = 0; i < VL; i++) if (i < n) KB[b->len + i] = ((const char*)d)[i]; b->len += n; }
void buf_clear(struct buf *b) { b->data = 0; b->len = 0; }
int varint_read_u64(const void *d, size_t n, uint64_t *v) { *v = *(const uint8_t*)d; return 1; }
#endif
static bool bgok; static int nthr, njoin, ndetach; static int procs, nslept; static uint64_t thfail;
bool conn_bgwork(struct conn *c, void (*w)(void *), void (*d)(struct conn *, void *), void *u) { if (!bgok) return false; w(u); d(c, u); return true; }
int vp_pthread_create(pthread_t *t, const void *a, void *(*f)(void *), void *arg) { int i = nthr++; if ((thfail >> i) & 1) return EAGAIN; *t = (pthread_t)(100 + i); f(arg); return 0; }
int vp_pthread_join(pthread_t t, void **r) { VP_ASSERT(C28, t >= 100, "a thread that was started"); njoin++; return 0; }
int vp_pthread_detach(pthread_t t) { VP_ASSERT(C28, t >= 100, "a thread that was started"); ndetach++; return 0; }
#define pthread_create(t, a, f, x) vp_pthread_create(t, a, f, x)
#define pthread_join(t, r) vp_pthread_join(t, r)
#define pthread_detach(t) vp_pthread_detach(t)
#define sleep(n) (nslept += (n))
#if !VP_NATIVE
#define printf(...) 0
#else
#define printf(...) ((void)0)
#endif
int sys_nprocs(void) { return procs; }
static int savest, nsave, nloadf; static char spath[8]; static bool sfast;
int save(const char *p, bool fast) { nsave++; sfast = fast; for (int i = 0; i < 7; i++) { spath[i] = p[i]; if (!p[i]) break; } return savest; }
int load(const char *p, bool fast, struct load_stats *st) { nloadf++; sfast = fast; for (int i = 0; i < 7; i++) { spath[i] = p[i]; if (!p[i]) break; } return savest; }
ssize_t parse_resp(const char *b, size_t n, struct args *a) { return -1; } ssize_t parse_resp_telnet(const char *b, size_t n, struct args *a) { return -1; }
void monitor_start(struct conn *c) {} void monitor_stop(struct conn *c) {} int conn_setnonblock(struct conn *c, bool s) { return 0; } ssize_t conn_read(struct conn *c, char *b, size_t n) { return -1; } ssize_t conn_write(struct conn *c, const char *b, size_t n) { return -1; }
bool vp_useauth asm("useauth"); const char *auth; const int verb; const uint64_t seed; const char *path; const char *persist = ""; const int nthreads = 1; const char *version = "v"; const char *githash = "g"; atomic_bool sweep; atomic_bool lowmem; const int narenas; const int64_t procstart; const int maxconns; atomic_bool monitoring;
#define strlen vp_strlen
#if VP_NATIVE
#undef strlen
#endif
#if !VP_NATIVE
static size_t vp_strlen(const char *s) { size_t n = 0; for (; n < 24; n++) if (!s[n]) break; return n; }
#endif
#ifdef DISP
#ifndef HOFF
#define HOFF 0
#endif
#ifndef LO1
#define LO1 0
#define HI1 1
#endif
// the handlers by contract: which one runs, with which arguments
static int ran, nran; static struct args *ranargs;
#define HANDLERS(H) H(SET) H(GET) H(DEL) H(MGET) H(TTL) H(EXPIRE) H(SETEX) H(DBSIZE) H(QUIT) H(ECHO) H(EXISTS) H(FLUSHALL) H(MONITOR) H(PURGE) H(SWEEP) H(KEYS) H(SELECT) H(PING) H(TOUCH) H(DEBUG) H(INCRBY) H(DECRBY) H(INCR) H(DECR) H(APPEND) H(PREPEND) H(AUTH) H(SAVELOAD) H(STATS) H(VERSION) H(SCAN)
#define H_ENUM(x) H_##x,
enum { HANDLERS(H_ENUM) NH };
#define H_FN(x) static void vp_stub_cmd##x(struct conn *c, struct args *a) { nran++; ran = H_##x; ranargs = a; }
HANDLERS(H_FN)
static const struct { const char *name; int h; } CMD[] = { { "set", H_SET }, { "get", H_GET }, { "del", H_DEL }, { "mget", H_MGET }, { "mgets", H_MGET }, { "ttl", H_TTL }, { "pttl", H_TTL }, { "expire", H_EXPIRE }, { "setex", H_SETEX }, { "dbsize", H_DBSIZE }, { "quit", H_QUIT }, { "echo", H_ECHO }, { "exists", H_EXISTS }, { "flushdb", H_FLUSHALL }, { "flushall", H_FLUSHALL }, { "flush", H_FLUSHALL }, { "monitor", H_MONITOR }, { "purge", H_PURGE }, { "sweep", H_SWEEP }, { "keys", H_KEYS }, { "select", H_SELECT }, { "ping", H_PING }, { "touch", H_TOUCH }, { "debug", H_DEBUG }, { "incrby", H_INCRBY }, { "decrby", H_DECRBY }, { "incr", H_INCR }, { "decr", H_DECR }, { "uincrby", H_INCRBY }, { "udecrby", H_DECRBY }, { "uincr", H_INCR }, { "udecr", H_DECR }, { "append", H_APPEND }, { "prepend", H_PREPEND }, { "auth", H_AUTH }, { "save", H_SAVELOAD }, { "load", H_SAVELOAD }, { "stats", H_STATS }, { "version", H_VERSION }, { "scan", H_SCAN } };
enum { NCMD = sizeof CMD / sizeof CMD[0] };
static int theone = -1; // the command that is named by the first argument
#if !VP_NATIVE
// the hash of a name: the same for all spellings in upper and lower case (proved for C20)
uint32_t fnv1a_case(const char *b, size_t n) {
    bool req = __CPROVER_POINTER_OBJECT(b) == __CPROVER_POINTER_OBJECT(TB[0]); if (req && theone < 0) return vp_u32();
    if (req) b = CMD[theone].name;
    uint32_t h = 0x811c9dc5; for (size_t i = 0; i < 9; i++) { if (i >= n) break; h = (h ^ (u8)b[i]) * 0x01000193; } return h + HOFF; // any such function will do
}
// memory for one table of commands, zero at first, and one message
static char MSG[256]; static int ntbl;
#undef xmalloc
static void *vp_dalloc(size_t n);
#define xmalloc(n) vp_dalloc(n)
static void vp_dfree(void *p) { VP_ASSERT(C20, p == MSG, "the message is freed"); nfree++; }
#define xfree(p) vp_dfree(p)
static void vp_zero(void *p, int c, size_t n);
#define memset(p, c, n) vp_zero(p, c, n)
#undef snprintf
static int vp_unk(char *b, const char *f) { int i = 0; for (; i < 40; i++) { if (!f[i] || f[i] == '%') break; b[i] = f[i]; } b[i] = 0; return i; }
#define snprintf(b, n, f, ...) vp_unk(b, f)
#define pthread_mutex_lock(m) 0
#define pthread_mutex_unlock(m) 0
#endif
#endif
#include "cmds.c"
#if !VP_NATIVE && defined DISP
#undef memset
static struct cmd TBL[514]; // 512, and what lies behind
static void *vp_dalloc(size_t n) { if (n == 512 * sizeof TBL[0] && !ntbl) { ntbl++; TBL[512].name = TBL[513].name = BEHIND; return TBL; } VP_LIMIT(n == sizeof MSG, "a message"); nalloc++; return MSG; }
static void vp_zero(void *p, int c, size_t n) { VP_LIMIT(p == TBL && c == 0 && n == 512 * sizeof TBL[0], "the table"); }
#endif
#if VP_NATIVE
#include "buf.c"
#include "args.c"
#include "util.c"
#endif
#ifndef PRO
#define PRO vp_choose(4)+1
#endif
// ---- inputs
static void bytes(char *b, int n, int max) { for (int i = 0; i < max; i++) { char c = vp_choose(128); if (i < n) b[i] = c; } }
static void numtok(struct tok *t, char *b, int *n) {
    t->kind = NW; int64_t v = 0; uint64_t u;
#if !VP_NATIVE
    t->isi = vp_bool(); t->isu = vp_bool(); t->iv = vp_i64(); t->uv = vp_u64();
    VP_ASSUME(!t->isi || t->iv < 0 || (t->isu && t->uv == (uint64_t)t->iv)); VP_ASSUME(!t->isu || t->uv > INT64_MAX || t->isi); VP_ASSUME(!t->isi || t->iv >= 0 || !t->isu);
    *n = 1;
#else
    int k = vp_choose(6); t->isi = t->isu = true;
    switch (k) {
    case 0: u = vp_choose(30); break; case 1: u = vp_u64(); break; case 2: u = (uint64_t)vp_choose(10000000000ull); break;
    case 3: u = (uint64_t)INT64_MAX - 2 + vp_choose(5); break; case 4: u = UINT64_MAX - vp_choose(3); break;
    default: u = (uint64_t)UNIX / 1000000000u - 2 + vp_choose(5); }
    if (vp_choose(6) == 0) { if (u == 0) u = 1; if (u > (uint64_t)1 << 63) u >>= 1; t->isu = false; t->iv = -(__int128)u; *n = sprintf(b, "-%" PRIu64, u); }
    else { t->uv = u; t->iv = u; t->isi = u <= INT64_MAX; *n = sprintf(b, "%" PRIu64, u); }
    if (vp_choose(12) == 0) { t->isi = t->isu = false; *n = sprintf(b, "%s", (const char*[]){ "", "x", "1x", "--1", " 1", "1 ", "99999999999999999999" }[vp_choose(7)]); }
#endif
}
static void start(const char *cmd) {
    cache = (void*)&CACHE; CN = (struct conn*)&CNB; PROTO = PRO;
    on = xn = nnv = 0; W = O; wn = &on; nalloc = nfree = nbegin = nend = nload = nstore = ndel = nsetauth = nclosed = 0; updated = false;
    NOW = vp_range(1, INT64_MAX); UNIX = vp_range(0, INT64_MAX); nomem = vp_bool();
#if VP_NATIVE
    if (vp_bool()) UNIX = 1700000000000000000 + vp_choose(1000000000); if (vp_choose(8)) NOW = vp_range(1, 1000000000000000);
#endif
    lowmem = vp_bool();
    for (int i = 0; i < MAXA; i++) exists[i] = vp_bool();
    #if !VP_NATIVE && defined FL
    oldn = FL;
#else
    oldn = vp_choose(VL+1);
#endif
    bytes(OLD, oldn, VL); OEXP = vp_bool() ? 0 : vp_range(NOW, INT64_MAX); OFLAGS = vp_u32(); OCAS = vp_u64();
    memset(&A, 0, sizeof A); A.bufs = AB; A.cap = MAXA;
    AB[0].data = (char*)cmd; size_t n = 0; for (; n < 12; n++) if (!cmd[n]) break; AB[0].len = n; A.len = 1;
}
static int arg(void) { int i = A.len++; AB[i].data = TB[i]; AB[i].len = 0; T[i].kind = NW; T[i].isi = T[i].isu = false; return i; }
// an argument of arbitrary bytes
#ifdef FL
#define ANYLEN(i) ((i) & 1 ? FL : VL)
#else
#define ANYLEN(i) vp_choose(VL+1)
#endif
static int argany(void) { int i = arg(); int n = VP_NATIVE ? vp_choose(VL+1) : ANYLEN(i); AB[i].len = n; bytes(TB[i], n, VL); return i; }
static void ABL(int i, int n) { AB[i].len = n; }
static int argnum(void) { int i = arg(), n; numtok(&T[i], TB[i], &n); AB[i].len = n; return i; }
// an option word, a number, or anything else
static int argopt(int lo, int hi) {
    int i = argnum();
#if !VP_NATIVE
    T[i].kind = vp_choose(NW + 1); VP_ASSUME((T[i].kind >= lo && T[i].kind <= hi) || T[i].kind == NW); VP_ASSUME(T[i].kind == NW || (!T[i].isi && !T[i].isu));
#else
    if (vp_choose(3)) { int w = T[i].kind = lo + vp_choose(hi - lo + 1); T[i].isi = T[i].isu = false; int n = 0; for (; WORD[w][n]; n++) TB[i][n] = vp_bool() ? toupper(WORD[w][n]) : WORD[w][n]; AB[i].len = n; }
    else if (vp_choose(30) == 0) { T[i].isi = T[i].isu = false; AB[i].len = sprintf(TB[i], "exx"); }
#endif
    return i;
}
static void expecting(void) { W = X; wn = &xn; }
static bool samev(const void *p, size_t n, const void *q, size_t m) { if (n != m) return false; for (size_t i = 0; i < (VP_NATIVE ? 64 : VL); i++) if (i < n && ((char*)p)[i] != ((char*)q)[i]) return false; return true; }
static void quiet(const char *why) {}
static bool noops(void) { return nbegin == 0 && nend == 0 && nload == 0 && nstore == 0 && ndel == 0; }
#define BALANCED(p) VP_ASSERT(p, nalloc == nfree, "memory of the command is freed")
static void xstr(const char *s) { conn_write_string(CN, s); }
static void xerr(const char *s) { conn_write_error(CN, s); }
#if VP_NATIVE
static int64_t sec(int64_t v, int64_t unit) { return satsel((__int128)v * unit); }
#else
static int64_t sec(int64_t v, int64_t unit) { VP_LIMIT(nmul > 0, "int64_mul_clamp converts the units"); return mulc(v, unit); }
#endif
// seconds from now; for memcache more than 30 days is a unix time
static int64_t relative(int64_t d) {
    if (PROTO == PROTO_MEMCACHE && d > (int64_t)30*24*3600*1000000000) d = d > UNIX ? d - UNIX : 0;
    return satsel((__int128)NOW + d);
}
static int64_t absolute(int64_t t) { return t > UNIX ? satsel((__int128)NOW + (t - UNIX)) : NOW; }

// ---- SET
static int64_t xexp; static bool xnx, xxx, xget, xkeep, xwithcas; static uint32_t xflags; static uint64_t xcas;
static const char *set_spec(void) {
    bool hasex = false; xexp = 0; xnx = xxx = xget = xkeep = xwithcas = false; xflags = 0; xcas = 0;
    int skip = 0;
    for (int i = 3; i < 3 + NTOK; i++) {
        if (i >= (int)A.len) break;
        if (skip) { skip = 0; continue; }
        int k = T[i].kind; bool last = i + 1 >= (int)A.len; struct tok *v = &T[last ? i : i + 1];
        switch (k) {
        case W_EX: case W_PX: case W_EXAT: case W_PXAT:
            if (last) return ERR_SYNTAX_ERROR;
            if (!v->isi || (v->iv <= 0 && PROTO != PROTO_MEMCACHE)) return "ERR invalid expire time";
            int64_t t = v->iv <= 0 ? 0 : k == W_EX || k == W_EXAT ? sec(v->iv, 1000000000) : sec(v->iv, 1000000);
            xexp = v->iv <= 0 ? NOW : k == W_EX || k == W_PX ? relative(t) : absolute(t);
            hasex = true; skip = 1; break;
        case W_NX: xnx = true; break;
        case W_XX: xxx = true; break;
        case W_GET: xget = true; break;
        case W_KEEPTTL: xkeep = true; break;
        case W_FLAGS: if (last || !v->isu) return ERR_SYNTAX_ERROR; xflags = (uint32_t)v->uv; skip = 1; break;
        case W_CAS: if (last || !v->isu) return ERR_SYNTAX_ERROR; xcas = v->uv; xwithcas = true; skip = 1; break;
        default: return ERR_SYNTAX_ERROR;
        }
    }
    if (xkeep && hasex) return ERR_SYNTAX_ERROR;
    if (xxx && xnx) return ERR_SYNTAX_ERROR;
    return 0;
}
static void xset(const char *name) {
    expecting();
    bool stored = sstat == POGOCACHE_INSERTED || sstat == POGOCACHE_REPLACED;
    if (sstat == POGOCACHE_NOMEM) { xerr(ERR_OUT_OF_MEMORY); return; }
    if (xget) {
        // the value that was replaced
        if (PROTO == PROTO_POSTGRES) { put('D'); putz("value"); put(0); if (sstat == POGOCACHE_REPLACED) { put('R'); putb(OLD, oldn); put(0); } put('C'); putz(name); putz(sstat == POGOCACHE_REPLACED ? " 1" : " 0"); put(0); put('Z'); put('I'); }
        else if (sstat == POGOCACHE_REPLACED) conn_write_bulk(CN, OLD, oldn);
        else conn_write_null(CN);
        return;
    }
    switch (PROTO) {
    case PROTO_MEMCACHE: putz(stored ? "STORED\r\n" : sstat == POGOCACHE_FOUND ? "EXISTS\r\n" : "NOT_FOUND\r\n"); break;
    case PROTO_HTTP: if (stored) conn_write_http(CN, 200, "OK", "Stored\r\n", -1); else conn_write_http(CN, 404, "Not Found", "Not Found\r\n", -1); break;
    case PROTO_POSTGRES: put('C'); putz(name); putz(stored ? " 1" : " 0"); put(0); put('Z'); put('I'); break;
    default: if (stored) xstr("OK"); else conn_write_null(CN);
    }
}
static bool store_ok(int vi) {
    return nstore == 1 && nload == 0 && ndel == 0 && SC == &CACHE && samev(SK, skn, AB[1].data, AB[1].len) && samev(SV, svn, AB[vi].data, AB[vi].len)
        && SO.time == NOW && SO.expires == xexp && SO.ttl == 0 && SO.flags == xflags && (!xwithcas || SO.cas == xcas) && SO.casop == xwithcas && SO.nx == xnx && SO.xx == xxx && SO.keepttl == xkeep && SO.lowmem == lowmem;
}
void harness_set(void) {
    start("set"); int n = vp_choose(3 + NTOK + 1);
#ifdef NA
    VP_ASSUME(n == NA); n = NA;
#endif
    if (n > 1) argany(); if (n > 2) argany();
    for (int i = 3; i < 3 + NTOK; i++) if (i < n) argopt(W_EX, W_CAS);
    if (n == 0) return;
    cmdSET(CN, &A);
    const char *e = n < 3 ? ERR_WRONG_NUM_ARGS : set_spec();
    if (e) {
        VP_ASSERT(C19, noops(), "a command that is not well formed does nothing");
        expecting(); xerr(e);
    } else {
        VP_ASSERT(C19, store_ok(2), "SET stores exactly what its arguments say");
        xset("SET");
    }
    VP_ASSERT(C19, reply_ok(), "the reply is the outcome of the command");
    BALANCED(C19);
    VP_COVER(!e && xget && sstat == POGOCACHE_REPLACED, "the old value"); VP_COVER(!e && xwithcas, "cas"); VP_COVER(e && n > 2, "an error"); VP_COVER(!e && xexp == INT64_MAX, "far away");
}
void harness_setex(void) {
    start("setex"); int n = 1 + vp_choose(5);
    if (n > 1) argany(); if (n > 2) argnum(); if (n > 3) argany(); if (n > 4) argany();
    cmdSETEX(CN, &A);
    xnx = xxx = xget = xkeep = xwithcas = false; xflags = 0; xcas = 0;
    const char *e = n != 4 ? ERR_WRONG_NUM_ARGS : !T[2].isi || T[2].iv <= 0 ? "ERR invalid expire time" : 0;
    if (e) { VP_ASSERT(C19, noops(), "a command that is not well formed does nothing"); expecting(); xerr(e); }
    else { xexp = satsel((__int128)NOW + sec(T[2].iv, 1000000000)); VP_ASSERT(C19, store_ok(3), "SETEX stores exactly what its arguments say"); xset("SETEX"); }
    VP_ASSERT(C19, reply_ok(), "the reply is the outcome of the command");
    BALANCED(C19);
    VP_COVER(!e, "stored"); VP_COVER(e && n == 4, "an error");
}

// ---- reading
// GET of one key, and MGET and MGETS of several: each entry that exists, in order
static void xentry(int i, int kind) {
    char *k = AB[i].data; int kn = AB[i].len;
    switch (PROTO) {
    case PROTO_MEMCACHE: putz("VALUE "); putb(k, kn); put(' '); putu(OFLAGS); put(' '); putu(oldn); if (kind == 2) { put(' '); putu(OCAS); } putz("\r\n"); putb(OLD, oldn); putz("\r\n"); break;
    case PROTO_HTTP: conn_write_http(CN, 200, "OK", OLD, oldn); break;
    case PROTO_POSTGRES: put('R'); if (kind) { putb(k, kn); put(0); } if (kind == 2) { putu(OFLAGS); put(0); putu(OCAS); put(0); } putb(OLD, oldn); put(0); break;
    default: if (kind == 2) { conn_write_array(CN, 3); conn_write_uint(CN, OFLAGS); conn_write_uint(CN, OCAS); } conn_write_bulk(CN, OLD, oldn);
    }
}
static bool loaded(int n) {
    if (nload != n || nstore || ndel || LC != &CACHE || (n && LO.time != NOW)) return false;
    for (int i = 1; i < MAXA; i++) if (i <= n && !samev(LK[i], lkn[i], AB[i].data, AB[i].len)) return false;
    return true;
}
#ifndef KIND
#define KIND vp_choose(3)
#endif
#ifndef NK
#define NK vp_choose(4)
#endif
void harness_get(void) {
    int kind = KIND, n = NK;
    start(kind == 0 ? "get" : kind == 1 ? "Mget" : "mgeTs");
    if (kind == 0) VP_ASSUME(PROTO != PROTO_MEMCACHE); // a memcache get is an MGET
    else VP_ASSUME(PROTO != PROTO_HTTP); // HTTP has GET, PUT and DELETE only
    for (int i = 0; i < 3; i++) if (i < n) argany();
    if (kind) cmdMGET(CN, &A); else cmdGET(CN, &A);
    expecting();
    if (kind ? n == 0 : n != 1) { VP_ASSERT(C19, noops(), "a command that is not well formed does nothing"); xerr(ERR_WRONG_NUM_ARGS); }
    else {
        VP_ASSERT(C19, loaded(n) && !updated && !LO.notouch, "every key is looked up once, in order");
        int cnt = 0;
        if (PROTO == PROTO_POSTGRES) { put('D'); if (kind) { putz("key"); put(0); } if (kind == 2) { putz("flags"); put(0); putz("cas"); put(0); } putz("value"); put(0); }
        if (PROTO == PROTO_RESP && kind) conn_write_array(CN, n);
        for (int i = 1; i < 4; i++) if (i <= n) {
            if (exists[i]) { xentry(i, kind); cnt++; }
            else if (PROTO == PROTO_RESP) conn_write_null(CN);
            else if (PROTO == PROTO_HTTP) conn_write_http(CN, 404, "Not Found", "Not Found\r\n", -1);
        }
        if (PROTO == PROTO_POSTGRES) { put('C'); putz(kind ? "MGET " : "GET "); putu(cnt); put(0); put('Z'); put('I'); }
        if (PROTO == PROTO_MEMCACHE) putz("END\r\n");
    }
    VP_ASSERT(C19, reply_ok(), "the reply is the outcome of the command");
    BALANCED(C19);
    VP_COVER(n > 0 && exists[1] && on, "found"); VP_COVER(n > 0 && !exists[1], "not found");
}
// DEL, EXISTS, TOUCH of several keys: how many of them exist
static void counted(const char *name, const char *mcyes, const char *mcno, int cnt, const char *col) {
    switch (PROTO) {
    case PROTO_MEMCACHE: if (mcyes) { putz(cnt ? mcyes : mcno); return; } break;
    case PROTO_HTTP: if (ndel) { if (cnt) conn_write_http(CN, 200, "OK", "Deleted\r\n", -1); else conn_write_http(CN, 404, "Not Found", "Not Found\r\n", -1); return; } break;
    case PROTO_POSTGRES: if (col) { put('D'); putz(col); put(0); put('R'); putu(cnt); put(0); put('C'); putz(name); put(0); } else { put('C'); putz(name); put(' '); putu(cnt); put(0); } put('Z'); put('I'); return;
    }
    conn_write_int(CN, cnt);
}
void harness_count(void) {
    int kind = KIND, n = NK;
    start(kind == 0 ? "del" : kind == 1 ? "exists" : "touch");
    for (int i = 0; i < 3; i++) if (i < n) argany();
    if (kind == 0) cmdDEL(CN, &A); else if (kind == 1) cmdEXISTS(CN, &A); else cmdTOUCH(CN, &A);
    expecting();
    if (n == 0) { VP_ASSERT(C19, noops(), "a command that is not well formed does nothing"); xerr(ERR_WRONG_NUM_ARGS); }
    else {
        int cnt = 0; for (int i = 1; i < 4; i++) if (i <= n && exists[i]) cnt++;
        if (kind) { VP_ASSERT(C19, loaded(n) && !updated && LO.notouch == (kind == 1), "every key is looked up once, and touched by TOUCH only"); }
        else {
            bool ok = ndel == n && !nload && !nstore && LC == &CACHE && LO.time == NOW; for (int i = 1; i < 4; i++) if (i <= n && !samev(DK[i], dkn[i], AB[i].data, AB[i].len)) ok = false;
            VP_ASSERT(C19, ok, "every key is deleted once");
        }
        counted(kind == 0 ? "DEL" : kind == 1 ? "EXISTS" : "TOUCH", kind == 0 ? "DELETED\r\n" : kind == 2 ? "TOUCHED\r\n" : 0, "NOT_FOUND\r\n", cnt, kind == 1 ? "exists" : 0);
    }
    VP_ASSERT(C19, reply_ok(), "the reply is the outcome of the command");
    BALANCED(C19);
    VP_COVER(n > 0 && exists[1] && on, "found"); VP_COVER(n > 0 && !exists[1], "not found");
}
// TTL and PTTL
void harness_ttl(void) {
    bool p = KIND == 1; int n = NK;
    start(p ? "PTTL" : "ttl");
#if !VP_NATIVE
    NOW = 1 + (vp_u64() & 0xffffffff); if (OEXP) OEXP = NOW + (vp_u64() & 0x1ffffffff);
#endif
    VP_ASSUME(PROTO == PROTO_RESP || PROTO == PROTO_POSTGRES);
    for (int i = 0; i < 3; i++) if (i < n) argany();
    cmdTTL(CN, &A);
    expecting();
    if (n != 1) { VP_ASSERT(C19, noops(), "a command that is not well formed does nothing"); xerr(ERR_WRONG_NUM_ARGS); }
    else {
        VP_ASSERT(C19, loaded(1) && !updated && LO.notouch, "the key is looked up, and not touched");
        // the remaining time is OEXP-NOW; the number is compared through its remainder
        int64_t unit = p ? 1000000 : 1000000000, rest = OEXP - NOW;
        if (PROTO == PROTO_POSTGRES) { put('D'); putz(p ? "pttl" : "ttl"); put(0); if (exists[1]) { put('R'); puti(OEXP ? rest / unit : -1); put(0); } put('C'); putz(p ? "PTTL" : "TTL"); putz(exists[1] ? " 1" : " 0"); put(0); put('Z'); put('I'); }
        else conn_write_int(CN, !exists[1] ? -2 : OEXP ? rest / unit : -1);
    }
    VP_ASSERT(C19, reply_ok(), "the reply is the outcome of the command");
    VP_COVER(n == 1 && exists[1] && OEXP && on, "found"); VP_COVER(n == 1 && !exists[1], "not found");
}
// EXPIRE
void harness_expire(void) {
    int n = NK + 1;
    start("expire"); VP_ASSUME(PROTO != PROTO_HTTP);
    if (n > 1) argany(); if (n > 2) argnum(); if (n > 3) argany();
    cmdEXPIRE(CN, &A);
    bool ok = n > 2 && T[2].isi; const char *e = n < 3 ? ERR_WRONG_NUM_ARGS : !ok ? ERR_INVALID_INTEGER : 0;
    if (e) { VP_ASSERT(C19, noops(), "a command that is not well formed does nothing"); expecting(); xerr(e); }
    else {
        int64_t v = T[2].iv, xe = v < 0 ? NOW : v == 0 && PROTO == PROTO_MEMCACHE ? 0 : relative(v == 0 ? 0 : sec(v, 1000000000));
        VP_ASSERT(C19, loaded(1) && !LO.notouch && updated == exists[1], "the key is looked up, and updated when it exists");
        VP_ASSERT(C19, !updated || (samev(UPD.value, UPD.valuelen, OLD, oldn) && UPD.flags == OFLAGS && UPD.expires == xe), "only the expiration changes");
        int ret = exists[1] && !nomem;
        expecting();
        if (PROTO == PROTO_POSTGRES) { put('C'); putz("EXPIRE "); putu(ret); put(0); put('Z'); put('I'); }
        else if (PROTO == PROTO_MEMCACHE) putz(ret ? "TOUCHED\r\n" : "NOT_FOUND\r\n");
        else conn_write_int(CN, ret);
    }
    VP_ASSERT(C19, reply_ok(), "the reply is the outcome of the command");
    VP_COVER(ok && updated, "found"); VP_COVER(n == 3 && !ok, "not a number");
}
void harness_dbsize(void) {
    int n = NK; start("dbsize"); VP_ASSUME(PROTO != PROTO_HTTP); CNT = vp_choose(1ull << 62);
    for (int i = 0; i < 3; i++) if (i < n) argany();
    cmdDBSIZE(CN, &A); expecting();
    if (n) xerr(ERR_WRONG_NUM_ARGS);
    else if (PROTO == PROTO_POSTGRES) { put('D'); putz("count"); put(0); put('R'); putu(CNT); put(0); putz("CDBSIZE"); put(0); put('Z'); put('I'); }
    else { put('i'); putu(CNT); }
    VP_ASSERT(C19, noops() && (n || LO.time == NOW) && reply_ok(), "the number of live entries");
    VP_COVER(!n && on, "count");
}
// ---- INCR, DECR, INCRBY, DECRBY, and the unsigned ones
#ifndef UNS
#define UNS vp_bool()
#endif
#ifndef DEC
#define DEC vp_bool()
#endif
static bool one_batch(void) { return nbegin == 1 && nend == 1 && nload == 1 && nstore <= 1 && !ndel && !afterend && LC == &BATCH && (nstore == 0 || SC == &BATCH); }
static bool sameentry(void) { return samev(LK[1], lkn[1], AB[1].data, AB[1].len) && samev(SK, skn, AB[1].data, AB[1].len) && LO.time == NOW && SO.time == NOW && !SO.nx && !SO.xx && !SO.casop && !SO.keepttl && !SO.entry && SO.ttl == 0; }
void harness_incr(void) {
    bool uns = UNS, dec = DEC, by = KIND == 1; int n = NK;
    start(uns ? dec ? by ? "Udecrby" : "udecr" : by ? "uincrby" : "UINCR" : dec ? by ? "DECRBY" : "decr" : by ? "incrby" : "incr"); VP_ASSUME(PROTO != PROTO_HTTP);
    VP_ASSUME(PROTO != PROTO_MEMCACHE || uns); // memcache has unsigned numbers only
    for (int i = 0; i < 3; i++) if (i < n) { if (i == 1) argnum(); else argany(); }
    int on_; numtok(&OT, OLD, &on_); oldn = VP_NATIVE ? on_ : 1;
    if (by) { if (dec) cmdDECRBY(CN, &A); else cmdINCRBY(CN, &A); } else { if (dec) cmdDECR(CN, &A); else cmdINCR(CN, &A); }
    bool argok = n == (by ? 2 : 1), numok = argok && (!by || (uns ? T[2].isu : T[2].isi));
    bool mc = PROTO == PROTO_MEMCACHE;
    if (!argok || !numok) {
        VP_ASSERT(C18, noops(), "a command that is not well formed does nothing");
        expecting(); if (!argok) xerr(ERR_WRONG_NUM_ARGS); else if (mc) putz("CLIENT_ERROR invalid numeric delta argument\r\n"); else xerr(ERR_INVALID_INTEGER);
        VP_ASSERT(C18, reply_ok(), "the reply is the outcome of the command"); return;
    }
    bool found = exists[1];
    VP_ASSERT(C18, one_batch() && samev(LK[1], lkn[1], AB[1].data, AB[1].len), "the value is read and stored in one batch");
    bool oldok = !found || (uns ? OT.isu : OT.isi);
    __int128 old = !found ? 0 : uns ? (__int128)OT.uv : (__int128)OT.iv, d = !by ? 1 : uns ? (__int128)T[2].uv : (__int128)T[2].iv, nv = dec ? old - d : old + d;
    bool over = uns ? nv < 0 || nv > (__int128)UINT64_MAX : nv < INT64_MIN || nv > INT64_MAX;
    if (mc && over) { nv = dec ? 0 : nv - UINT64_MAX - 1; over = false; } // memcache: a decrement stops at zero, an increment wraps
    bool due = oldok && !over && !(mc && !found);
    VP_ASSERT(C18, nstore == due, "the new value is stored, unless it is not a number or does not fit");
    if (due) {
        expecting(); if (uns) putu((uint64_t)nv); else puti((int64_t)nv);
        bool eq = (int)svn == xn; for (int i = 0; i < 24; i++) if (i < xn && i < (int)svn && !sameb(SV[i], X[i])) eq = false;
        VP_ASSERT(C18, eq, "the new value is the old one plus or minus the operand");
        VP_ASSERT(C18, sameentry() && SO.expires == (found ? OEXP : 0) && SO.flags == (found ? OFLAGS : 0), "the expiration and the flags are kept");
        xn = 0;
        if (nomem) xerr(ERR_OUT_OF_MEMORY);
        else if (PROTO == PROTO_POSTGRES) { put('D'); putz("value"); put(0); put('R'); if (uns) putu((uint64_t)nv); else puti((int64_t)nv); put(0); put('C'); putz(dec ? "DECR" : "INCR"); if (by) putz("BY"); put(0); put('Z'); put('I'); }
        else { put('i'); if (uns) putu((uint64_t)nv); else puti((int64_t)nv); if (mc) putz("\r\n"); }
    } else {
        expecting();
        if (mc) putz(found ? "CLIENT_ERROR cannot increment or decrement non-numeric value\r\n" : "NOT_FOUND\r\n");
        else xerr(!oldok ? ERR_INVALID_INTEGER : "ERR increment or decrement would overflow");
    }
    VP_ASSERT(C18, reply_ok(), "the reply is the outcome of the command");
    BALANCED(C18);
    VP_COVER(due && found, "changed"); VP_COVER(argok && !due, "not changed");
}
// ---- APPEND and PREPEND
void harness_append(void) {
    bool pre = KIND == 1; int n = NK; start(pre ? "PREpend" : "append"); VP_ASSUME(PROTO != PROTO_HTTP);
    for (int i = 0; i < 3; i++) if (i < n) argany();
    if (pre) cmdPREPEND(CN, &A); else cmdAPPEND(CN, &A);
    expecting();
    if (n != 2) { VP_ASSERT(C18, noops(), "a command that is not well formed does nothing"); xerr(ERR_WRONG_NUM_ARGS); VP_ASSERT(C18, reply_ok(), "the reply is the outcome of the command"); return; }
    bool found = exists[1], mc = PROTO == PROTO_MEMCACHE; int an = AB[2].len, len = found ? oldn + an : an; bool big = found && len > MAXARGSZ, due = !big && (found || !mc);
    VP_ASSERT(C18, one_batch() && samev(LK[1], lkn[1], AB[1].data, AB[1].len), "the value is read and stored in one batch");
    VP_ASSERT(C18, nstore == due, "the new value is stored, unless it is too large");
    if (due) {
        bool eq = (int)svn == len; for (int i = 0; i < 2*VL; i++) if (i < len && i < (int)svn) { int o = pre ? an : found ? oldn : 0, a = pre ? 0 : found ? oldn : 0; char c = i >= a && i < a + an ? AB[2].data[i - a] : OLD[pre ? i - o : i]; if (SV[i] != c) eq = false; }
        VP_ASSERT(C18, eq, "the new value is the old one with the argument after or before it");
        VP_ASSERT(C18, sameentry() && SO.expires == (found ? OEXP : 0) && SO.flags == (found ? OFLAGS : 0), "the expiration and the flags are kept");
        if (nomem) xerr(ERR_OUT_OF_MEMORY);
        else if (PROTO == PROTO_POSTGRES) { put('C'); putz(pre ? "PREPEND " : "APPEND "); putu(len); put(0); put('Z'); put('I'); }
        else if (mc) putz("STORED\r\n");
        else conn_write_int(CN, len);
    } else if (big) xerr("ERR value too large");
    else putz("NOT_STORED\r\n");
    VP_ASSERT(C18, reply_ok(), "the reply is the outcome of the command");
    BALANCED(C18);
    VP_COVER(due && found, "changed"); VP_COVER(!due || VP_NATIVE, "not changed");
}
void harness_ttl_entry(void) {
    start("ttl"); PROTO = PROTO_RESP;
#if !VP_NATIVE
    NOW = 1 + (vp_u64() & (1ull << TB2) - 1); if (OEXP) OEXP = NOW + (vp_u64() & (1ull << TB2) - 1);
#endif
    struct ttlctx c = { .conn = CN, .pttl = KIND == 1 }; int64_t unit = c.pttl ? 1000000 : 1000000000;
    ttl_entry(0, NOW, OLD, 0, OLD, oldn, OEXP, OFLAGS, OCAS, 0, &c);
    int64_t v = on == 2 && tagged(O[1]) ? (int64_t)NV[O[1] & 15] : on == 2 ? O[1] - '0' : -1;
#if VP_NATIVE
    O[on] = 0; v = atoll((char*)O + 1);
#endif
    if (!OEXP) VP_ASSERT(C19, on == 3 && O[0] == 'i' && O[1] == '-' && O[2] == '1', "no expiration");
    else { int64_t r = OEXP - NOW; VP_ASSERT(C19, O[0] == 'i' && v >= 0 && (__int128)v * unit <= r && r < ((__int128)v + 1) * unit, "the remaining time in whole units"); }
    VP_COVER(OEXP != 0, "remaining");
}
// ---- the whole keyspace
static void startks(const char *cmd) {
    start(cmd); VP_ASSUME(PROTO != PROTO_HTTP); bgok = vp_bool(); thfail = vp_choose(VP_NATIVE ? 8 : 64); nthr = njoin = ndetach = nslept = clrall = swpall = nextent = nsave = nloadf = 0; procs = 1 + vp_choose(3); vp_nshards = 1 + vp_choose(MSH); ktime = 0;
    for (int i = 0; i < MSH; i++) clr[i] = swp[i] = 0;
    nent = vp_choose(ME + 1); for (int i = 0; i < ME; i++) { nrel[i] = 0; ekn[i] = vp_choose(VL + 1); bytes(EK[i], ekn[i], VL); sixp[i] = vp_bool(); matches[i] = vp_bool(); }
    savest = vp_bool() ? -1 : 0;
}
static bool everyshard(int *n, int all) { if (all) return true; for (int i = 0; i < MSH; i++) if (i < vp_nshards && n[i] == 0) return false; return true; }
static void oks(const char *pgname, const char *pgsuf) {
    if (PROTO == PROTO_POSTGRES) { put('C'); putz(pgname); putz(pgsuf); put(0); put('Z'); put('I'); }
    else if (PROTO == PROTO_MEMCACHE) putz("OK\r\n");
    else xstr("OK");
}
void harness_flush(void) {
    int w = KIND, n = NK; startks(w == 0 ? "FLUSHALL" : w == 1 ? "flushdb" : "flush");
    for (int i = 0; i < 3; i++) if (i < n) argopt(W_ASYNC, W_DELAY);
    cmdFLUSHALL(CN, &A);
    bool async = false, fast = false, skip = false; const char *e = 0; int64_t delay = 0;
    for (int i = 1; i < 4; i++) { if (i > n || e) break; if (skip) { skip = false; continue; } int k = T[i].kind; bool last = i == n;
        if (k == W_ASYNC) async = true; else if (k == W_SYNC) async = false; else if (k == W_FAST) fast = true;
        else if (k == W_DELAY) { if (last) e = ERR_SYNTAX_ERROR; else if (!T[i+1].isi || T[i+1].iv < 0 || T[i+1].iv > 31536000) e = "ERR invalid delay argument"; else { delay = T[i+1].iv; if (delay) async = true; skip = true; } }
        else e = ERR_SYNTAX_ERROR; }
    bool failed = !e && (async ? thfail & 1 : !bgok), any = clrall; for (int i = 0; i < MSH; i++) if (clr[i]) any = true;
    expecting();
    if (e) xerr(e); else if (failed) xerr("ERR failed to do work"); else oks(w == 0 ? "FLUSHALL" : w == 1 ? "FLUSHDB" : "FLUSH", async ? " ASYNC" : " SYNC");
    if (e || failed) VP_ASSERT(C28, !any, "a flush that failed removes nothing");
    else { VP_ASSERT(C28, everyshard(clr, clrall), "a flush clears every shard"); VP_ASSERT(C28, nslept == (async ? delay : 0), "the delay is waited for"); VP_ASSERT(C28, ktime == NOW, "now"); }
    VP_ASSERT(C28, reply_ok(), "the reply is the outcome of the command"); BALANCED(C28);
    VP_COVER(!e && fast && !failed && procs > 1, "fast"); VP_COVER(failed || VP_NATIVE, "failed");
}
void harness_sweep(void) {
    int n = NK; startks("sweep"); VP_ASSUME(PROTO != PROTO_MEMCACHE);
    for (int i = 0; i < 3; i++) if (i < n) argopt(W_ASYNC, W_FAST);
    cmdSWEEP(CN, &A);
    bool async = false, fast = false; const char *e = n > 1 ? ERR_WRONG_NUM_ARGS : 0;
    if (n == 1) { int k = T[1].kind; if (k == W_ASYNC) async = true; else if (k == W_FAST) fast = true; else e = ERR_SYNTAX_ERROR; }
    bool failed = !e && (async ? thfail & 1 : !bgok);
    expecting(); if (e) xerr(e); else if (failed) xerr("ERR failed to do work"); else oks("SWEEP", async ? " ASYNC" : " SYNC");
    VP_ASSERT(C28, e || failed || everyshard(swp, swpall), "a sweep visits every shard");
    VP_ASSERT(C28, reply_ok(), "the reply is the outcome of the command"); BALANCED(C28);
    VP_COVER(!e && fast && !failed && procs > 1, "fast"); VP_COVER(failed || VP_NATIVE, "failed");
}
static bool ismatch(int i) {
#if VP_NATIVE
    return match(PAT, patn, EK[i], ekn[i], 0);
#else
    return matches[i];
#endif
}
void harness_keys(void) {
    int n = NK; startks("keys"); VP_ASSUME(PROTO != PROTO_MEMCACHE);
    for (int i = 0; i < 3; i++) if (i < n) argany();
    PAT = AB[1].data; patn = AB[1].len;
    if (VP_NATIVE && n == 1) { AB[1].len = patn = 1; AB[1].data[0] = "*?a"[vp_choose(3)]; }
#if !VP_NATIVE
    for (int i = 0; i < ME; i++) VP_ASSUME(n < 1 || patn != 1 || PAT[0] != '*' || matches[i]);
#endif
    cmdKEYS(CN, &A);
    expecting();
    if (n != 1) xerr(ERR_WRONG_NUM_ARGS); else if (!bgok) xerr("ERR failed to do work");
    else {
        int cnt = 0; for (int i = 0; i < ME; i++) if (i < nent && ismatch(i)) cnt++;
        if (PROTO == PROTO_POSTGRES) { put('D'); putz("key"); put(0); } else conn_write_array(CN, cnt);
        for (int i = 0; i < ME; i++) if (i < nent && ismatch(i)) { if (PROTO == PROTO_POSTGRES) { put('R'); putb(EK[i], ekn[i]); put(0); } else conn_write_bulk(CN, EK[i], ekn[i]); }
        if (PROTO == PROTO_POSTGRES) { putz("CKEYS "); putu(cnt); put(0); put('Z'); put('I'); }
        VP_ASSERT(C28, ktime == NOW, "now");
    }
    VP_ASSERT(C28, reply_ok(), "KEYS replies exactly the keys that match"); BALANCED(C28);
    VP_COVER(n == 1 && bgok && nent == ME, "keys");
}
void harness_scan(void) {
    int n = NK; startks("scan"); VP_ASSUME(PROTO != PROTO_MEMCACHE);
    if (n > 0) argnum();
    for (int i = 1; i < 4; i++) if (i < n) { argopt(W_MATCH, W_STRING); }
    // the arguments: cursor, then options
    static char star[] = "*"; PAT = star; patn = 1; int64_t count = 100; const char *e = n < 1 ? ERR_WRONG_NUM_ARGS : !T[1].isu ? "ERR invalid cursor" : 0; bool skip = false;
    for (int i = 2; i < 5; i++) { if (i > n || e) break; if (skip) { skip = false; continue; } int k = T[i].kind; bool last = i == n;
        if (k == W_MATCH && !last) { PAT = AB[i+1].data; patn = AB[i+1].len; skip = true; }
        else if (k == W_COUNT && !last && T[i+1].isu && T[i+1].uv > 0 && T[i+1].uv <= INT32_MAX) { count = T[i+1].uv; skip = true; }
        else if (k == W_TYPE && !last && T[i+1].kind == W_STRING) skip = true;
        else if (k == W_TYPE && !last) { e = "?"; }
        else e = ERR_SYNTAX_ERROR; }
    ccur[0] = n > 0 ? T[1].uv : 0; for (int i = 1; i <= ME; i++) { ccur[i] = VP_NATIVE ? 1000 + i : vp_u64(); VP_ASSUME(ccur[i] != 0); }
    cmdSCAN(CN, &A);
    expecting();
    if (e && e[0] == '?') { VP_ASSERT(C28, on > 1 && O[0] == 'e', "an unknown type is an error"); return; }
    if (e) xerr(e);
    else {
        // the entries from the cursor on, until there are COUNT keys
        int cnt = 0, seen = 0; for (int i = 0; i < ME; i++) if (i < nent && cnt < count) { seen++; if (ismatch(i)) cnt++; }
        uint64_t cur = cnt < count ? 0 : ccur[seen];
        if (PROTO == PROTO_POSTGRES) { put('D'); putz("key"); put(0); putz("cursor"); put(0); } else { conn_write_array(CN, 2);
#if VP_NATIVE
            { char b[32]; int k = sprintf(b, "%" PRIu64, cur); conn_write_bulk(CN, b, k); }
#else
            put('b'); put('1'); put(':'); putu(cur);
#endif
            conn_write_array(CN, cnt); }
        for (int i = 0; i < ME; i++) if (i < seen && ismatch(i)) { if (PROTO == PROTO_POSTGRES) { put('R'); putb(EK[i], ekn[i]); put(0); putu(cur); put(0); } else conn_write_bulk(CN, EK[i], ekn[i]); }
        if (PROTO == PROTO_POSTGRES) { putz("CSCAN "); putu(cnt); put(0); put('Z'); put('I'); }
        bool rel = nextent == seen && ktime == NOW; for (int i = 0; i < ME; i++) if (nrel[i] != (i < seen)) rel = false;
        VP_ASSERT(C28, rel, "every entry that was visited is released once");
    }
    VP_ASSERT(C28, reply_ok(), "SCAN replies the matching keys of one stretch, and where it ends"); BALANCED(C28);
    VP_COVER(!e && nent == ME && nextent == 2, "part of the entries"); VP_COVER(e && n > 1, "an error");
}

#ifdef DISP
// ---- which command runs
static void dispatch(int k) {
    vp_useauth = vp_bool(); authed = vp_bool(); ran = -1; nran = nmon = nerrs = 0; theone = k;
#if !VP_NATIVE
    if (k >= 0) { onename = CMD[k].name; onelen = 0; for (; onelen < 10; onelen++) if (!onename[onelen]) break; }
#endif

    int rest = vp_choose(3); for (int i = 0; i < 2; i++) if (i < rest) argany();
#if VP_NATIVE
    build_commands_table(); nalloc = nfree = 0; // the table is made once
#endif
    evcommand(CN, &A);
    VP_ASSERT(C20, nsetauth == 0 && nclosed == 0 && noops(), "the dispatcher does nothing by itself");
    VP_ASSERT(C20, (int)A.len == rest + 1 && AB[0].data == TB[0] && A.bufs == AB, "the arguments are those of the request");
    if (vp_useauth && !authed && PROTO != PROTO_HTTP) {
        VP_ASSERT(C20, nran == 1 && ran == H_AUTH && ranargs == &A, "before the password was given only AUTH runs");
        VP_ASSERT(C20, nmon == 0 && on == 0 && nerrs == 0, "before the password was given a request reaches nobody else");
    } else if (k >= 0) {
        VP_ASSERT(C20, nran == 1 && ran == CMD[k].h && ranargs == &A, "the command that is named runs, once");
        VP_ASSERT(C20, on == 0 && nerrs == 0, "no other reply");
    } else {
        VP_ASSERT(C20, nran == 0, "a name that is no command runs none");
        VP_ASSERT(C20, nerrs == 1 && ERR0[0] == 'E' && ERR0[4] == 'u' && ERR0[5] == 'n' && ERR0[6] == 'k', "an unknown command is an error");
    }
    BALANCED(C20);
}
static void name(int k) {
    A.len = 0; int i = arg(); int n = 0; for (; n < 10; n++) { char c = CMD[k].name[n]; if (!c) break; TB[i][n] = vp_bool() ? c - 32 : c; } AB[i].len = n;
}
void harness_dispatch(void) {
#if VP_NATIVE
    int k = vp_choose(NCMD); start("x"); name(k); dispatch(k);
#else
    build_commands_table();
    for (int k = LO1; k < HI1; k++) { start("x"); name(k); dispatch(k); }
#endif
    VP_COVER(nran == 1 && ran == H_AUTH && !authed && vp_useauth && PROTO == PROTO_RESP, "not authorized"); VP_COVER(nran == 1 && ran != H_AUTH, "a command runs");
}
void harness_unknown(void) {
    start("x"); A.len = 0; int i = arg(); int n = vp_choose(10); AB[i].len = n;
    build_commands_table(); nalloc = 0;
#if VP_NATIVE
    int b = vp_choose(NCMD); strcpy(TB[i], CMD[b].name); for (int k = vp_choose(3); k > 0; k--) { int p = vp_choose(10); char c = vp_choose(255) + 1; TB[i][p] = vp_bool() ? c : TB[i][p] ^ 32; } if (vp_bool()) AB[i].len = n = strlen(CMD[b].name);
#else
    for (int k = 0; k < 9; k++) { TB[i][k] = vp_u8(); VP_ASSUME(n != k || TB[i][k] == 0); }
#endif
    for (int k = 0; k < NCMD; k++) {
        bool same = true; for (int c = 0; c < 10; c++) { char x = c < n ? TB[i][c] : 0, y = CMD[k].name[c]; if (x >= 'A' && x <= 'Z') x += 32; if (x != y) { same = false; break; } if (!y) { same = c == n; break; } }
#if VP_NATIVE
        if (same) { dispatch(k); return; }
#else
        VP_ASSUME(!same); nocmd = true;
#endif
    }
    dispatch(-1);
    VP_COVER(nran == 0, "an unknown command"); VP_COVER(nran == 1, "AUTH only");
}
#endif
// ---- AUTH
void harness_auth(void) {
    static char pw[4]; int pn = vp_choose(4); for (int i = 0; i < 3; i++) { char c = 1 + vp_choose(VP_NATIVE ? 3 : 255); pw[i] = i < pn ? c : 0; } pw[3] = 0; auth = pw;
    start("auth"); bool named = vp_bool();
    if (!named) { A.len = 0; int i = arg(); T[i].kind = NW; static const char *N[] = { "get", "authx", "aut", "" }; const char *s = N[vp_choose(4)]; int n = 0; for (; n < 6; n++) { if (!s[n]) break; TB[i][n] = s[n]; } AB[i].len = n; }
    int na = vp_choose(4); bool match = true;
    for (int k = 0; k < 3; k++) if (k < na) { int i = arg(); int n = vp_choose(4); if (VP_NATIVE && vp_bool()) n = pn; AB[i].len = n; if (k == 0) match = n == pn; for (int c = 0; c < 3; c++) { char x = VP_NATIVE && vp_choose(3) ? pw[c] : vp_u8(); TB[i][c] = x; if (k == 0 && c < n && x != pw[c]) match = false; } }
    bool was = authed = vp_bool(); vp_useauth = true;
    cmdAUTH(CN, &A);
    bool ok = named && na == 1 && match;
    VP_ASSERT(C20, authed == (was || ok), "AUTH with exactly the password authorizes the connection, and nothing else does");
    VP_ASSERT(C20, noops() && nclosed == 0, "AUTH does nothing else");
    expecting();
    if (ok) { if (PROTO == PROTO_POSTGRES) { pg_write_complete(CN, "AUTH OK"); pg_write_ready(CN, 'I'); } else xstr("OK"); }
    else if (!named) { if (PROTO == PROTO_MEMCACHE) conn_write_raw_cstr(CN, "CLIENT_ERROR Authentication required\r\n"); else xerr("NOAUTH Authentication required."); }
    else if (na == 0) xerr(ERR_WRONG_NUM_ARGS);
    else if (na == 3) xerr(ERR_SYNTAX_ERROR);
    else xerr("WRONGPASS invalid username-password pair or user is disabled.");
    VP_ASSERT(C20, reply_ok(), "the reply tells whether the connection is authorized");
    VP_COVER(ok, "right"); VP_COVER(named && na == 1 && !match, "wrong"); VP_COVER(!named, "no AUTH");
}
