// http.c: HTTP requests. The request is PRE, then W arbitrary bytes, then SUF,
// of which only the first L bytes have arrived.
#ifndef PRE
#define PRE "GET /"
#define W 4
#define SUF " HTTP/1.1\r\n\r\nG"
#define NRL 10
#endif
#define CAPB 4
#define ONEARG
#include "pcommon.h"
__thread char parse_lasterr[1024];
bool vp_useauth asm("useauth"); const char *auth;
#if !VP_NATIVE
#undef MAXARGSZ
#define MAXARGSZ 9
#define memmem vp_memmem
static void *vp_memmem(const void *h, size_t n, const void *w, size_t k) { (void)h; (void)n; (void)w; (void)k; return vp_bool() ? (void*)h : 0; }
#endif
#include "http.c"
static char *D; static int L;
void harness_key(void) {
    static char k[260]; int n = vp_choose(253);
#if !VP_NATIVE
    for (int i = 0; i < 253; i++) k[i] = vp_u8();
#else
    for (int i = 0; i < n; i++) k[i] = vp_choose(40) ? 'a' : vp_u8();
#endif
    bool ok = n >= 1 && n <= 250; for (int i = 0; i < 253; i++) if (i < n && ((unsigned char)k[i] <= 32 || (unsigned char)k[i] >= 127 || k[i] == '%' || k[i] == '+' || k[i] == '@' || k[i] == '$' || k[i] == '?' || k[i] == '=')) ok = false;
    VP_ASSERT(C14, http_valid_key(k, n) == ok, "a key has 1 to 250 plain characters");
    VP_COVER(ok && n == 250, "longest"); VP_COVER(!ok && n == 251, "too long");
}
// ---- reference
static bool lc(const char *p, int n, const char *w) { int k = 0; for (; k < 20; k++) { if (k >= n || !w[k]) break; char c = p[k]; if (c >= 'A' && c <= 'Z') c += 32; if (c != w[k]) return false; } return k == n && !w[k]; }
static bool ex(const char *p, int n, const char *w) { int k = 0; for (; k < 20; k++) { if (k >= n || !w[k]) break; if (p[k] != w[k]) return false; } return k == n && !w[k]; }
static void xlit(const char *w) { int n = 0; for (; n < 10; n++) if (!w[n]) break; if (nx == J) for (int k = 0; k < 10; k++) if (k < n) xown[k] = w[k]; xborrow(w, n); }
static const char *xerr; static int xvers; static bool xkeep;
static bool unauth; static ssize_t bad(const char *e) { xerr = e; unauth = e && e[0] == 'U'; return -1; }
static int L0;
static ssize_t spec(void) {
    nx = 0; xp = 0; xerr = 0; xvers = 0; xkeep = false;
    // the request line
    int nl = -1, s1 = -1, s2 = -1;
    for (int i = 0; i < L; i++) { if (D[i] == '\n') { nl = i; break; } if (D[i] == ' ') { if (s1 < 0) s1 = i; else if (s2 < 0) s2 = i; } }
    if (nl < 0) return 0;
    if (s2 < 0 || D[nl-1] != '\r' || nl - s2 - 2 != 8) return bad("Bad Request");
    const char *v = D + s2 + 1;
    if (!ex(v, 5, "HTTP/") || v[5] < '0' || v[5] > '9' || v[6] != '.' || v[7] < '0' || v[7] > '9') return bad("Bad Request");
    xvers = (v[5]-'0')*10 + v[7]-'0'; if (xvers < 9 || xvers > 29) return bad("Bad Request");
    xkeep = xvers >= 11;
    // the headers
    int st = 0, h = nl + 1, he = 0, hv = 0, body = -1; size_t blen = 0; bool bearer = false, other = false; const char *tok = 0; int tokn = 0;
    for (int i = nl + 1; i < L; i++) {
        char c = D[i];
        if (st == 0) { // line start
            h = i;
            if (c == '\r') { st = 4; continue; }
            st = 1;
        }
        if (st == 1) { if (c == ':') { he = i; st = 2; } else if (c == '\n') { VP_ASSUME(0); } continue; } // a header line without colon: not specified
        if (st == 2) { hv = i; if (c == ' ') continue; st = 3; }
        if (st == 3) {
            if (c != '\n') continue;
            if (D[i-1] != '\r') return bad("Bad Request");
            const char *N = D + h, *V = D + hv; int n = he - h, m = i - 1 - hv;
            if (lc(N, n, "content-length")) { uint64_t x; if (!parse_u64(V, m, &x) || x > MAXARGSZ) return bad("Bad Request"); blen = x; }
            else if (lc(N, n, "connection")) xkeep = lc(V, m, "keep-alive");
            else if (lc(N, n, "authorization")) { other = m > 0; bearer = m >= 7 && ex(V, 7, "Bearer "); tok = V + 7; tokn = m - 7; }
            st = 0; continue;
        }
        if (st == 4) { if (c != '\n') return bad("Bad Request"); body = i + 1; break; }
    }
    if (body < 0) return 0;
    if ((size_t)(L - body) < blen) return 0;
    // what is asked for
    const char *U = D + s1 + 1; int un = s2 - s1 - 1;
    if (un == 0 || U[0] != '/') return bad("Bad Request");
    U++; un--;
    int q = un; for (int i = un - 1; i >= 0; i--) if (U[i] == '?') q = i;
    const char *P[4] = { 0, 0, 0, 0 }; int pn[4] = { 0, 0, 0, 0 }; bool xx = false, nx_ = false; // cas ex flags auth
    int a = q + 1, eq = -1;
    for (int i = q + 1; i <= un; i++) {
        if (i < un && U[i] == '=' && eq < 0) eq = i;
        if (i < un && U[i] != '&') continue;
        if (i == un && a == un) break; // nothing after the last &
        const char *k = U + a; int kn = (eq < 0 ? i : eq) - a;
        int w = ex(k, kn, "cas") ? 0 : ex(k, kn, "ex") || ex(k, kn, "ttl") ? 1 : ex(k, kn, "flags") ? 2 : ex(k, kn, "auth") ? 3 : 4;
        if (w < 4) { P[w] = eq < 0 ? 0 : U + eq + 1; pn[w] = eq < 0 ? 0 : i - eq - 1; }
        else if (ex(k, kn, "xx")) xx = true; else if (ex(k, kn, "nx")) nx_ = true;
        a = i + 1; eq = -1;
    }
    bool get = ex(D, s1, "GET"), put = ex(D, s1, "PUT"), del = ex(D, s1, "DELETE");
    if (!get && !put && !del) return bad("Bad Request");
    if (q > 0 && U[0] == '@') return bad("Bad Request");
    if (get && q == 0) return bad(0);
    if (!http_valid_key(U, q)) return bad("Invalid Key");
    xlit(get ? "get" : put ? "set" : "del"); xborrow(U, q);
    if (put) {
        xborrow(D + body, blen);
        if (P[0]) { xlit("cas"); xborrow(P[0], pn[0]); }
        if (P[1]) { xlit("ex"); xborrow(P[1], pn[1]); }
        if (P[2]) { xlit("flags"); xborrow(P[2], pn[2]); }
        if (xx) xlit("xx");
        if (nx_) xlit("nx");
    }
    // who asks
    if (pn[3] > 0) { tok = P[3]; tokn = pn[3]; other = bearer = true; }
    if (other && !bearer) return bad("Unauthorized");
    if (!other) tokn = 0;
    if (vp_useauth || tokn > 0) { int an = strlen(auth); if (tokn != an) return bad("Unauthorized"); for (int i = 0; i < an; i++) if (tok[i] != auth[i]) return bad("Unauthorized"); }
    return body + (ssize_t)blen;
}
#if VP_NATIVE
static char *genreq(int *len) {
    static char b[700]; int o = 0;
    static const char *Me[] = { "GET", "PUT", "DELETE", "POST", "get" }; static const char *Q[] = { "ex=10", "ttl=5", "flags=7", "cas=9", "xx", "nx", "auth=pw", "auth=px", "auth=", "flags", "=", "foo=bar", "", "x", "ex=", "auth=pw=" };
    o += sprintf(b+o, "%s%s ", Me[vp_choose(vp_choose(4) ? 3 : 5)], "");
    if (vp_choose(30)) b[o++] = '/';
    int kn = vp_choose(20) ? vp_choose(5) : 248 + vp_choose(4); for (int i = 0; i < kn; i++) b[o++] = vp_choose(30) ? 'k' : vp_byte_from("@%=+$\x7f\x80\x01");
    if (vp_bool()) { b[o++] = '?'; int n = vp_choose(5); for (int i = 0; i < n; i++) { if (i) b[o++] = '&'; o += sprintf(b+o, "%s", Q[vp_choose(16)]); } }
    o += sprintf(b+o, " HTTP/%d.%d\r\n", vp_choose(8) ? 1 : (int)vp_choose(4), vp_choose(8) ? (int)vp_choose(2) : (int)vp_choose(10));
    int hn = vp_choose(4), bl = 0;
    for (int i = 0; i < hn; i++) switch (vp_choose(8)) {
        case 0: bl = vp_choose(6); o += sprintf(b+o, "Content-Length: %d\r\n", bl); break;
        case 1: o += sprintf(b+o, "Connection: %s\r\n", vp_bool() ? "close" : "Keep-Alive"); break;
        case 2: o += sprintf(b+o, "Authorization: Bearer %s\r\n", vp_bool() ? "pw" : "pwx"); break;
        case 3: o += sprintf(b+o, "Authorization:%s\r\n", vp_bool() ? "" : "Basic pw"); break;
        case 4: o += sprintf(b+o, "Accept: text/html\r\n"); break;
        case 5: o += sprintf(b+o, "Content-Length: %s\r\n", vp_bool() ? "x1" : "-1"); break;
        default: o += sprintf(b+o, "X-Y: a:b \r\n"); }
    o += sprintf(b+o, "\r\n");
    int x = vp_bool() ? bl : vp_choose(8); for (int i = 0; i < x; i++) b[o++] = vp_byte_from("ab\r\n ");
    if (vp_choose(4) == 0) o = vp_choose(o+1);
    if (vp_choose(4) == 0 && o) b[vp_choose(o)] = vp_byte_from(" \r\n:?&=/\0a");
    *len = o; return b;
}
#endif
void harness_http(void) {
    J = vp_choose(VP_NATIVE ? 12 : 10);
    static const char *A[] = { "", "pw" }; vp_useauth = vp_bool(); auth = A[vp_useauth ? 1 : vp_bool()];
#if VP_NATIVE
    char *b = genreq(&L); D = malloc(L); memcpy(D, b, L);
#else
    static char buf[sizeof PRE - 1 + W + sizeof SUF]; static const char pre[] = PRE, suf[] = SUF; D = buf;
    int o = 0; for (int i = 0; i < (int)sizeof pre - 1; i++) D[o++] = pre[i];
    for (int i = 0; i < W; i++) D[o++] = vp_u8();
#ifdef NONL
    for (int i = 0; i < W; i++) VP_ASSUME(D[sizeof pre - 1 + i] != '\n');
#endif
    for (int i = 0; i < (int)sizeof suf - 1; i++) D[o++] = suf[i];
#ifdef CUT
    L = vp_choose(o + 1);
#else
    L = o;
#endif
#endif
    unauth = false; ssize_t s = spec();
    struct args a; memset(&a, 0, sizeof a); int vers = 5; bool keep = vp_bool(); nauthcmd = nautherr = 0; parse_lasterr[0] = 0;
    ssize_t n = parse_http(D, L, &a, &vers, &keep);
    VP_ASSERT(C20, !unauth || n < 0, "a request that does not carry exactly the password is not accepted");
    VP_ASSERT(C14, n == s, "a request is complete, incomplete or rejected exactly as HTTP says");
    if (s > 0) {
        VP_ASSERT(C14, same_args(&a), "the request becomes the equivalent command with its arguments");
        VP_ASSERT(C14, vers == xvers && keep == xkeep, "version and keep-alive are those of the request");
    }
#if VP_NATIVE
    if (s < 0 && xerr) VP_ASSERT(C14, strcmp(parse_lasterr, xerr) == 0, "a rejected request is answered with the right error");
    args_free(&a); free(D);
#endif
    VP_COVER(n > 0, "accepted"); VP_COVER(n < 0, "rejected");
}
