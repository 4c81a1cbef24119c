// memcache.c: the memcache text protocol. The line tokenizer on arbitrary
// bytes, and each command against arbitrary tokens (tokenizer by contract).
#ifndef RN
#define RN 12
#endif
#ifndef PMAX
#define PMAX 10
#endif
#define CAPB RN
#define VP_ARGS 1
#include "pcommon.h"
__thread char parse_lasterr[1024];
#if !VP_NATIVE
#define argi64 vp_argi64
#define argu64 vp_argu64
bool vp_argi64(struct args *a, int i, int64_t *x);
bool vp_argu64(struct args *a, int i, uint64_t *x);
#endif
#undef bytes_const_eq
#if !VP_NATIVE
#define bytes_const_eq(d, n, s) vp_tokeq(d, n, s, sizeof(s)-1)
static bool vp_tokeq(const char *d, size_t n, const char *s, size_t sn);
#else
#define bytes_const_eq(d, n, s) ((n) == sizeof(s)-1 && memcmp(d, s, sizeof(s)-1) == 0)
#endif
#include "memcache.c"

// ---- keys
void harness_key(void) {
    static char k[260]; struct buf b[1]; struct args a; memset(&a, 0, sizeof a); a.bufs = b; a.len = 1; int n = vp_choose(253); b[0].data = k; b[0].len = n; b[0].cap = 0;
#if !VP_NATIVE
    for (int i = 0; i < 253; i++) k[i] = vp_u8();
#else
    for (int i = 0; i < n; i++) k[i] = vp_choose(40) ? 'a' : vp_u8();
#endif
    bool ok = n >= 1 && n <= 250; for (int i = 0; i < 253; i++) if (i < n && ((unsigned char)k[i] <= 32 || k[i] == 127)) ok = false;
    VP_ASSERT(C13, mc_valid_key(&a, 0) == ok, "a key has 1 to 250 bytes and no blank or control characters");
    VP_COVER(ok && n == 250, "longest"); VP_COVER(!ok && n == 251, "too long");
}
// ---- commands
#ifndef NT
#define NT 7
#endif
#define TL 9
static char T[NT][TL+1]; static int tl[NT], nt; static ssize_t linen; static char *D; static size_t L;
static bool okkey[NT], isi[NT], isu[NT]; static int64_t iv[NT]; static uint64_t uv[NT];
#if !VP_NATIVE
static struct buf TB[NT];
static int which(struct args *a, int i) { VP_LIMIT(i >= 0 && i < NT && a->bufs[i].data == T[i], "a token"); return i; }
bool vp_argi64(struct args *a, int i, int64_t *x) { int k = which(a, i); if (isi[k]) *x = iv[k]; return isi[k]; }
bool vp_argu64(struct args *a, int i, uint64_t *x) { int k = which(a, i); if (isu[k]) *x = uv[k]; return isu[k]; }
bool vp_stub_mc_valid_key(struct args *a, int i) { return okkey[which(a, i)]; }
ssize_t vp_stub_parse_memcache_telnet(const char *d, size_t n, struct args *a) {
    VP_ASSERT(C13, d == D && n == L, "the line is at the start of the input");
    a->bufs = TB; a->len = nt; a->cap = NT;
    for (int i = 0; i < NT; i++) { TB[i].data = T[i]; TB[i].len = tl[i]; TB[i].cap = 0; }
    return linen;
}
#endif
#if !VP_NATIVE
// kind of a token: 'w' a word of the protocol (constant bytes), 'u' a first
// word that is no command, 'n' noreply, 'o' anything but noreply
static char kind[NT];
static bool cis(int i, const char *w) { int k = 0; for (; k < TL; k++) { if (k >= tl[i] || !w[k]) break; if (T[i][k] != w[k]) return false; } return k == tl[i] && !w[k]; }
static bool is(int i, const char *w) {
    if (kind[i] == 'u') return false;
    if (kind[i] == 'o' && w[0] == 'n') return false;
    return cis(i, w);
}
static bool vp_tokeq(const char *d, size_t n, const char *s, size_t sn) {
    for (int i = 0; i < NT; i++) if (d == T[i]) { VP_LIMIT(n == (size_t)tl[i] && sn < TL+1, "word"); return is(i, s); }
    VP_LIMIT(0, "a token"); return false;
}
#else
static bool is(int i, const char *w) { int k = 0; for (; k < TL; k++) { if (k >= tl[i] || !w[k]) break; if (T[i][k] != w[k]) return false; } return k == tl[i] && !w[k]; }
#endif
static void lit(const char *w) { X[nx].p = w; X[nx].n = 0; for (int k = 0; k < 10; k++) if (w[X[nx].n]) X[nx].n++; else break; nx++; }
static void tk(int i) {
#if VP_NATIVE
    // where the token is in the line
    int o = 0; for (int k = 0; k < i; k++) o += tl[k] + 1;
    X[nx].p = D + o;
#else
    X[nx].p = T[i];
#endif
    X[nx].n = tl[i]; nx++;
}
enum { R_ERR = -1, R_MORE = 0 };
static bool xnoreply; static const char *xerr; static size_t xskip;
static ssize_t bad(const char *e) { xerr = e; return R_ERR; }
// what the protocol says about the tokens
static ssize_t spec(void) {
    nx = 0; xnoreply = false; xerr = 0; xskip = linen;
    if (linen <= 0) return R_MORE;
    if (nt == 0) return linen;
    int n = nt;
    bool set = is(0,"set"), add = is(0,"add"), cas = is(0,"cas"), rep = is(0,"replace"), app = is(0,"append"), pre = is(0,"prepend");
    bool inc = is(0,"incr"), dec = is(0,"decr"), del = is(0,"delete"), tou = is(0,"touch"), fl = is(0,"flush_all"), ver = is(0,"verbosity");
    bool get = is(0,"get"), gets = is(0,"gets"), gat = is(0,"gat"), gats = is(0,"gats"), st = is(0,"stats"), vers = is(0,"version"), q = is(0,"quit");
    bool store = set || add || cas || rep || app || pre;
    if (!(store || inc || dec || del || tou || fl || ver || get || gets || gat || gats || st || vers || q)) return bad("ERROR");
    if ((store || inc || dec || del || tou || fl || ver) && is(n-1, "noreply")) { xnoreply = true; n--; }
    if (store) {
        if (n != (cas ? 6 : 5)) return bad(set && nt == 5 ? 0 : "ERROR");
        if (!okkey[1]) return bad(tl[1] ? CLIENT_ERROR_BAD_FORMAT : 0);
        if (!isi[2] || iv[2] < 0 || !isi[3] || !isi[4] || iv[4] < 0 || iv[4] > MAXARGSZ) return bad(CLIENT_ERROR_BAD_FORMAT);
        if (cas && !isu[5]) return bad(CLIENT_ERROR_BAD_FORMAT);
        if (L - (size_t)linen < (size_t)iv[4] + 2) return R_MORE;
        size_t z = linen + iv[4]; xskip = z + 2;
        if (D[z] != '\r' || D[z+1] != '\n') return bad(CLIENT_ERROR_BAD_CHUNK);
        lit(app ? "append" : pre ? "prepend" : "set"); tk(1); X[nx].p = D + linen; X[nx].n = iv[4]; nx++;
        if (app || pre) return z + 2;
        if (!is(2,"0")) { lit("flags"); tk(2); }
        if (!is(3,"0")) { lit("ex"); tk(3); }
        if (add) lit("nx"); if (rep) lit("xx");
        if (cas) { lit("cas"); tk(5); }
        return z + 2;
    }
    if (get || gets || gat || gats) {
        int k = gat || gats ? 2 : 1;
        if (n <= k) return bad("ERROR");
        if (k == 2 && !isi[1]) return bad(CLIENT_ERROR_BAD_FORMAT);
        for (int i = 1; i < NT; i++) if (i >= k && i < n && !okkey[i]) return bad(tl[1] == 0 ? 0 : CLIENT_ERROR_BAD_FORMAT);
        lit(get ? "mget" : gets ? "mgets" : gat ? "gat" : "gats");
        for (int i = 1; i < NT; i++) if (i < n) tk(i);
        return linen;
    }
    if (del) { if (n == 1) return bad("ERROR"); if (n > 2 || !okkey[1]) return bad(CLIENT_ERROR_BAD_FORMAT); lit("del"); tk(1); return linen; }
    if (inc || dec || tou) { if (n != 3) return bad("ERROR"); if (!okkey[1]) return bad(CLIENT_ERROR_BAD_FORMAT); lit(inc ? "uincrby" : dec ? "udecrby" : "expire"); tk(1); tk(2); return linen; }
    if (fl) { if (n > 2) return bad("ERROR"); lit("flushall"); if (n == 2) { lit("delay"); tk(1); } return linen; }
    if (st) { lit("stats"); for (int i = 1; i < NT; i++) if (i < n) tk(i); return linen; }
    if (q) { lit("quit"); xnoreply = true; return linen; }
    if (vers) { lit("version"); return linen; }
    if (n != 2) return bad("ERROR");
    lit("verbosity"); tk(1);
    return linen;
}
static const char *const V[] = { "set","add","cas","replace","append","prepend","incr","decr","delete","touch","flush_all","verbosity","get","gets","gat","gats","stats","version","quit","noop" };
void run(void);
void harness_cmd(void) {
    nt = vp_choose(NT+1);
#if VP_NATIVE
    for (int i = 0; i < nt; i++) {
        int c = i == 0 ? 0 : vp_choose(8);
        if (i == 0) strcpy(T[i], V[vp_choose(20)]);
        else if (i == nt-1 && vp_bool()) strcpy(T[i], "noreply");
        else if (c == 0) strcpy(T[i], "0"); else if (c <= 4) sprintf(T[i], "%d", (int)vp_choose(12)); else if (c == 5) strcpy(T[i], "-1");
        else { int n = vp_choose(4) + (i == nt-1); for (int k = 0; k < n; k++) T[i][k] = vp_byte_from("abc0\x01"); T[i][n] = 0; }
        if (strchr(T[i], ' ') || strchr(T[i], '\n') || strchr(T[i], '\r') || strlen(T[i]) == 0 && i == nt-1) vp_reject();
        tl[i] = strlen(T[i]);
        okkey[i] = tl[i] >= 1; for (int k = 0; k < tl[i]; k++) if ((unsigned char)T[i][k] <= 32 || T[i][k] == 127) okkey[i] = false;
        isi[i] = parse_i64(T[i], tl[i], &iv[i]); isu[i] = parse_u64(T[i], tl[i], &uv[i]);
    }
    char b[400]; int o = 0; for (int i = 0; i < nt; i++) { memcpy(b+o, T[i], tl[i]); o += tl[i]; if (i < nt-1) b[o++] = ' '; }
    if (vp_bool()) b[o++] = '\r'; b[o++] = '\n'; linen = o;
    int vn = vp_choose(14); for (int k = 0; k < vn; k++) b[o++] = vp_byte_from("ab\r\n");
    if (nt >= 5 && isi[4] && iv[4] >= 0 && iv[4] < 14 && vp_choose(4)) { o = linen + iv[4]; b[o++] = '\r'; b[o++] = '\n'; if (vp_bool()) b[o++] = 'z'; }
    L = o; D = malloc(L); memcpy(D, b, L);
    if (vp_choose(8) == 0) { L = vp_choose(linen); linen = 0; }
#else
    static char buf[24]; D = buf; for (int j = 0; j < 3; j++) for (int i = 0; i < 8; i++) D[j*8+i] = vp_u8();
    L = vp_choose(19); linen = vp_choose(9); VP_ASSUME((size_t)linen <= L);
    for (int i = 0; i < NT; i++) {
        tl[i] = vp_choose(TL+1); for (int k = 0; k < TL; k++) T[i][k] = vp_u8();
        for (int k = 0; k < TL; k++) VP_ASSUME(k >= tl[i] || T[i][k]); // a number has no NUL
        okkey[i] = vp_bool(); isi[i] = vp_bool(); isu[i] = vp_bool(); iv[i] = vp_i64(); uv[i] = vp_u64();
        VP_ASSUME(tl[i] > 0 || (!okkey[i] && !isi[i] && !isu[i]));
        VP_ASSUME(!cis(i, "noreply") || okkey[i]);
        VP_ASSUME((T[i][0] >= '0' && T[i][0] <= '9') || T[i][0] == '-' || T[i][0] == '+' || (!isi[i] && !isu[i]));
        if (cis(i, "0")) VP_ASSUME(isi[i] && iv[i] == 0);
    }
    // one command word (each has its job) with every number of words, one after
    // the other, so that each case is nearly concrete
    int c = vp_choose(20), n = vp_choose(NT+1);
    VP_ASSUME(c == PART);
    bool nr = vp_bool();
    for (int m = 0; m <= NT; m++) for (int r = 0; r < 2; r++) if (n == m && nr == r) {
        for (int i = 0; i < NT; i++) kind[i] = 'o';
        if (PART < 19) { kind[0] = 'w'; tl[0] = 0; for (int k = 0; k < TL; k++) { if (!V[PART][k]) break; T[0][k] = V[PART][k]; tl[0]++; } }
        else { kind[0] = 'u'; for (int i = 0; i < 4; i++) for (int k = 0; k < 5; k++) if (i < 3 || k < 4) VP_ASSUME(!cis(0, V[i*5+k])); }
        if (r) { if (m < 2) continue; kind[m-1] = 'n'; tl[m-1] = 7; for (int k = 0; k < 7; k++) T[m-1][k] = "noreply"[k]; isi[m-1] = isu[m-1] = false; okkey[m-1] = true; }
        else for (int i = 1; i < NT; i++) if (i == m-1) VP_ASSUME(!cis(i, "noreply"));
        nt = m; run();
        VP_ASSUME(0); // the cases are independent
    }
#endif
#if VP_NATIVE
    run();
#endif
}
void run(void) {
    struct args a; memset(&a, 0, sizeof a); bool noreply = vp_bool(), nr0 = noreply;
#if !VP_NATIVE
    npb = 0;
#endif
    ssize_t s = spec();
    ssize_t n = parse_memcache(D, L, &a, &noreply);
    VP_ASSERT(C13, n == s, "a request is complete, incomplete or rejected exactly as the protocol says");
    if (n > 0 && nt > 0) {
        VP_ASSERT(C13, same_args(&a), "the request becomes the equivalent command with its arguments");
        VP_ASSERT(C13, noreply == xnoreply, "only noreply requests are not answered");
    }
    if (n < 0) VP_ASSERT(C13, parse_lastmc_n() == xskip, "a rejected request is skipped up to its end");
#if VP_NATIVE
    if (n < 0 && xerr) VP_ASSERT(C13, strcmp(parse_lasterr, xerr) == 0, "a rejected request is answered with the right error");
    parse_lasterr[0] = 0;
#endif
    VP_COVER(n > 0 && nt > 1, "accepted"); VP_COVER(n < 0 && linen > 0, "rejected");
#if VP_NATIVE
    args_free(&a); free(D);
#endif
}
