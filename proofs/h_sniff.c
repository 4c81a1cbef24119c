// parse.c: which protocol a connection speaks, and the choice of its parser.
#ifndef RN
#define RN 14
#endif
#define CAPB 4
#include "pcommon.h"
#include "parse.c"
static char *D; static int L; static int ncall, whichcall; static ssize_t pret; static const char *pdata; static size_t plen; static struct args *pargs; static struct pg **ppg;
static bool wnoreply, wkeep; static int whttp;
static ssize_t called(int which, const char *d, size_t n, struct args *a) { ncall++; whichcall = which; pdata = d; plen = n; pargs = a; VP_ASSERT(C27, a->len == 0, "each request starts with no arguments"); return pret; }
ssize_t parse_resp(const char *d, size_t n, struct args *a) { return called(1, d, n, a); }
ssize_t parse_resp_telnet(const char *d, size_t n, struct args *a) { return called(2, d, n, a); }
ssize_t parse_memcache(const char *d, size_t n, struct args *a, bool *nr) { VP_ASSERT(C27, !*nr, "noreply is off unless asked for"); *nr = wnoreply; return called(3, d, n, a); }
ssize_t parse_http(const char *d, size_t n, struct args *a, int *v, bool *k) { *v = whttp; *k = wkeep; return called(4, d, n, a); }
ssize_t parse_postgres(const char *d, size_t n, struct args *a, struct pg **pg) { ppg = pg; return called(5, d, n, a); }
// the first line decides; 0 when there is none yet
static int spec_proto(void) {
    if (L > 0 && D[0] == '*') return PROTO_RESP;
    if (L > 0 && D[0] == 0) return PROTO_POSTGRES;
    int e = -1; for (int i = 0; i < L; i++) if (D[i] == '\n' && e < 0) e = i;
    if (e < 0) return 0;
    const char *suf = " HTTP/";
    if (e >= 10 && D[e-1] == '\r' && D[e-3] == '.') { bool h = true; for (int i = 0; i < 5; i++) if (D[e-10+i] != suf[i]) h = false; if (h) return PROTO_HTTP; }
    int s = 0; while (s < e && D[s] == ' ') s++;
    return D[s] >= 'A' && D[s] <= 'Z' ? PROTO_RESP : PROTO_MEMCACHE;
}
void harness_sniff(void) {
#if VP_NATIVE
    static const char *T[] = { "GET / HTTP/1.1\r\n", "set k 0 0 1\r\nx\r\n", "SET k v\r\n", "  get a\n", "*1\r\n$4\r\nPING\r\n", "a HTTP/1x1\r\n", "x HTTX/1.1\r\n", " HTTP/1.0\r\n", " Get HTTP/2.0\n", "   \n" };
    char b[80]; int k = vp_choose(10); strcpy(b, T[k]); L = strlen(b); if (vp_bool()) L = vp_choose(L+1);
    D = malloc(L); memcpy(D, b, L); if (L && vp_bool()) D[vp_choose(L)] = vp_byte_from(" \n\r*\0Aa./HP");
#else
    static char buf[RN]; D = buf; L = vp_choose(RN+1); for (int i = 0; i < RN; i++) D[i] = vp_u8();
#endif
    VP_ASSUME(L > 0);
    struct args a; memset(&a, 0, sizeof a); a.len = 0;
    if (vp_bool()) { args_append(&a, "x", 1, true); }
    int proto0 = vp_choose(5), proto = proto0; // as left by earlier requests
    static const int PR[5] = { 0, PROTO_RESP, PROTO_MEMCACHE, PROTO_HTTP, PROTO_POSTGRES };
    proto = proto0 = PR[proto0];
    bool noreply = vp_bool(), keep = vp_bool(); int hv = vp_int(); struct pg *pg = 0; wnoreply = vp_bool(); wkeep = vp_bool(); whttp = vp_int(); pret = vp_int(); ncall = 0;
    ssize_t n = parse_command(D, L, &a, &proto, &noreply, &hv, &keep, &pg);
    int want = proto0 ? proto0 : spec_proto();
    VP_ASSERT(C27, proto == want, "the first line decides the protocol, which then stays");
    if (want == 0) VP_ASSERT(C27, n == 0 && ncall == 0, "a protocol is not chosen before the first line is complete");
    else {
        int w = want == PROTO_RESP ? (D[0] == '*' ? 1 : 2) : want == PROTO_MEMCACHE ? 3 : want == PROTO_HTTP ? 4 : 5;
        VP_ASSERT(C27, ncall == 1 && whichcall == w, "a request is read by the parser of its protocol");
        VP_ASSERT(C27, pdata == D && plen == (size_t)L && pargs == &a && n == pret, "the whole input is handed to the parser, its answer is handed on");
        VP_ASSERT(C27, noreply == (w == 3 && wnoreply), "noreply holds for memcache requests that ask for it");
        VP_ASSERT(C27, keep == (w == 4 && wkeep) && hv == (w == 4 ? whttp : 0), "version and keep-alive are those of the HTTP request");
        if (w == 5) VP_ASSERT(C27, ppg == &pg, "the postgres state is handed on");
    }
    VP_ASSERT(C27, parse_lasterror()[0] == 0, "no error is left from an earlier request");
    VP_COVER(proto0 == 0 && want == PROTO_HTTP, "http"); VP_COVER(proto0 == 0 && want == 0 && L == RN, "undecided"); VP_COVER(proto0 == 0 && want == PROTO_RESP && D[0] == ' ', "inline");
#if VP_NATIVE
    args_free(&a); free(D);
#endif
}
