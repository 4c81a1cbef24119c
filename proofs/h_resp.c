// resp.c: the RESP and inline (telnet) command parsers.
#ifndef RN
#define RN 10
#endif
#define CAPB RN
#define ONEARG
#include "pcommon.h"
__thread char parse_lasterr[1024];
#if !VP_NATIVE
#undef MAXARGS
#undef MAXARGSZ
#define MAXARGS 2
#define MAXARGSZ 3
#endif
#include "resp.c"
static char *D; static int L;
// inline: the automaton of blank separated, optionally quoted arguments
enum { GAP, WORD, QUOTED, ESCAPE, CLOSED };
static ssize_t spec_inline(void) {
    int st = GAP; char q = 0; size_t n = 0; nx = 0; xp = 0;
    for (int p = 0; p < L; p++) {
        char c = D[p], add = 0; bool adds = false, ends = false, fail = false, fin = false;
        if (st == GAP) {
            if (c == '\n') fin = true;
            else if (c == '"' || c == '\'') { st = QUOTED; q = c; }
            else if (!blank(c)) { st = WORD; add = c; adds = true; }
        } else if (st == WORD) {
            if (c == '"' || c == '\'') { st = QUOTED; q = c; }
            else if (blank(c)) { ends = true; st = GAP; fin = c == '\n'; }
            else { add = c; adds = true; }
        } else if (st == QUOTED) {
            if (c == '\n') fail = true;
            else if (c == q) { ends = true; st = CLOSED; }
            else if (c == '\\') st = ESCAPE;
            else { add = c; adds = true; }
        } else if (st == ESCAPE) {
            add = c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c; adds = true; st = QUOTED;
        } else {
            if (!blank(c)) fail = true;
            st = GAP; fin = c == '\n';
        }
        if (adds) { if (nx == J) xown[n] = add; if (++n > MAXARGSZ) fail = true; }
        if (ends) { if (nx == J) xn = n; n = 0; if (++nx > MAXARGS) fail = true; }
        if (fail) return -1;
        if (fin) return p + 1;
    }
    return 0;
}
// RESP: *<n>CRLF then n times $<len>CRLF<len bytes><2 bytes>
static int num(int *p, int64_t lo, int64_t hi, int64_t *v) { // 1 ok, 0 need more, -1 bad
    int e = *p; while (e < L && D[e] != '\r') e++;
    if (e == L) return L - *p > 32 ? -1 : 0;
    if (e + 1 == L) return 0;
    if (D[e+1] != '\n') return -1;
    if (!parse_i64(D + *p, e - *p, v) || *v < lo || *v > hi) return -1;
    *p = e + 2;
    return 1;
}
static ssize_t spec_resp(void) {
    int p = 0; int64_t n, m; nx = 0;
    if (L == 0) return 0;
    if (D[p++] != '*') return -1;
    if (p == L) return 0;
    int r = num(&p, INT64_MIN, MAXARGS, &n); if (r <= 0) return r;
    while ((int64_t)nx < n) {
        if (p == L) return 0;
        if (D[p++] != '$') return -1;
        if (p == L) return 0;
        r = num(&p, 0, MAXARGSZ, &m); if (r <= 0) return r;
        if (L - p < m + 2) return 0;
        xborrow(D + p, m); p += m + 2;
    }
    return p;
}
static void mk(const char *alpha) {
    J = vp_choose(VP_NATIVE ? 8 : MAXARGS + 1);
    L = vp_choose(RN+1);
#if VP_NATIVE
    D = malloc(L); // so that reading past the end is noticed
#else
    static char buf[RN]; D = buf;
#endif
    for (int i = 0; i < L; i++) D[i] = vp_byte_from(alpha);
}
static void fin(struct args *a, ssize_t n, ssize_t s) {
    VP_ASSERT(C12, n == s, "a request is complete, incomplete or malformed exactly as the protocol says");
    if (s > 0) VP_ASSERT(C12, same_args(a), "the command has exactly the arguments of the request");
#if VP_NATIVE
    args_free(a); free(D);
#endif
}
void harness_inline(void) {
    mk("ab\"\"'\\nrt  \t\r\n\n\x80");
    ssize_t s = spec_inline();
    struct args a; memset(&a, 0, sizeof a);
    ssize_t n = parse_resp_telnet(D, L, &a);
    VP_COVER(n > 0 && nx == 2, "two arguments"); VP_COVER(n < 0, "malformed"); VP_COVER(n == 0 && L == RN, "incomplete");
    fin(&a, n, s);
}
void harness_resp(void) {
#if VP_NATIVE
    // mostly well-formed, then cut, damaged or extended
    char b[256]; int n0 = 0; int na = vp_choose(4);
    n0 += sprintf(b, "*%d\r\n", na);
    for (int i = 0; i < na; i++) { int m = vp_choose(12); n0 += sprintf(b+n0, "$%d\r\n", m); for (int k = 0; k < m; k++) b[n0++] = vp_byte_from("a\r\n$*1"); b[n0++]='\r'; b[n0++]='\n'; }
    J = vp_choose(4); int extra = vp_choose(4); for (int k = 0; k < extra; k++) b[n0++] = vp_byte_from("*$1\r\n");
    L = vp_bool() ? n0 : vp_choose(n0+1); D = malloc(L); memcpy(D, b, L);
    int dmg = vp_choose(3); for (int k = 0; k < dmg && L; k++) D[vp_choose(L)] = vp_byte_from("*$-+ 0129\r\n\0x");
#else
    mk("");
    if (L > 0) VP_ASSUME(1);
#endif
    ssize_t s = spec_resp();
    struct args a; memset(&a, 0, sizeof a);
    ssize_t n = parse_resp(D, L, &a);
    VP_COVER(n > 0 && nx == 1, "one argument"); VP_COVER(n < 0, "malformed"); VP_COVER(n == 0 && L == RN, "incomplete");
    fin(&a, n, s);
}
