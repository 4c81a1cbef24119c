// conn.c: the stream of a connection (evdata), and the frames of the replies.
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/types.h>
#include "net.h"
#include "args.h"
#include "cmds.h"
#include "xmalloc.h"
#include "parse.h"
#include "util.h"
#ifndef EV
#define EV (VP_NATIVE ? 40 : 4)
#endif
#define OC 64
void *xmalloc(size_t n) { return malloc(n); }
void *xrealloc(void *p, size_t n) { return realloc(p, n); }
void xfree(void *p) { free(p); }
// ---- the network connection by contract
static char *OUT; static size_t olen, room, ocap; static bool closed, bgw; static int nclose;
static void *UD; static char NC;
#define NCP ((struct net_conn*)&NC)
void net_conn_setudata(struct net_conn *c, void *u) { UD = u; }
void *net_conn_udata(struct net_conn *c) { return UD; }
bool net_conn_isclosed(struct net_conn *c) { return closed; }
void net_conn_close(struct net_conn *c) { closed = true; nclose++; }
bool net_conn_istls(struct net_conn *c) { return false; }
bool net_conn_bgworking(struct net_conn *c) { return bgw; }
bool net_conn_bgwork(struct net_conn *c, void (*w)(void *), void (*d)(struct net_conn *, void *), void *u) { return false; }
void net_stat_cmd_get_incr(struct net_conn *c) {} void net_stat_cmd_set_incr(struct net_conn *c) {} void net_stat_get_hits_incr(struct net_conn *c) {} void net_stat_get_misses_incr(struct net_conn *c) {}
int net_conn_setnonblock(struct net_conn *c, bool s) { return 0; } ssize_t net_conn_read(struct net_conn *c, char *b, size_t n) { return -1; } ssize_t net_conn_write(struct net_conn *c, const char *b, size_t n) { return -1; } const char *net_conn_addr(struct net_conn *c) { return ""; }
char *net_conn_out(struct net_conn *c) { return OUT; }
size_t net_conn_out_len(struct net_conn *c) { return olen; }
size_t net_conn_out_cap(struct net_conn *c) { return room; }
void net_conn_out_ensure(struct net_conn *c, size_t n) {
    if (room - olen >= n) return;
#if VP_NATIVE
    char *o = malloc(olen + n); memcpy(o, OUT, olen); free(OUT); OUT = o;
#endif
    room = olen + n; VP_LIMIT(room <= ocap || VP_NATIVE, "output");
}
void net_conn_out_setlen(struct net_conn *c, size_t n) { VP_ASSERT(C16, n <= room, "the reply fits in the space that was reserved"); olen = n; }
void net_conn_out_write_byte_nocheck(struct net_conn *c, char b) { VP_ASSERT(C16, olen < room, "the reply fits in the space that was reserved"); OUT[olen++] = b; }
void net_conn_out_write_nocheck(struct net_conn *c, const void *d, size_t n) { VP_ASSERT(C16, room - olen >= n, "the reply fits in the space that was reserved"); const char *p = d;
#if VP_NATIVE
    memcpy(OUT + olen, p, n); olen += n;
#else
    VP_LIMIT(n <= 24, "output piece"); for (size_t i = 0; i < 24; i++) if (i < n) OUT[olen + i] = p[i]; olen += n;
#endif
}
void net_conn_out_write(struct net_conn *c, const void *d, size_t n) { net_conn_out_ensure(c, n); net_conn_out_write_nocheck(c, d, n); }
void net_conn_out_write_byte(struct net_conn *c, char b) { net_conn_out_ensure(c, 1); net_conn_out_write_byte_nocheck(c, b); }
// ---- the rest of the server by contract
static char *V; static size_t tot, cons; static int P; static int nev;
enum { NOTHING, COMMAND, ERRORED, PGREPLY, EMPTY_MC };
static int due; static struct conn *CN; static bool pgready, stopped; static struct pg *PG; static size_t mcn; static int nparse;
static void did(int w);
size_t parse_lastmc_n(void) { return mcn; }
const char *parse_lasterror(void) { return "E"; }
bool pg_respond(struct conn *c, struct pg *pg);
bool pg_precommand(struct conn *c, struct args *a, struct pg *pg);
void pg_free(struct pg *pg) {}
void pg_write_error(struct conn *c, const char *e); void pg_write_ready(struct conn *c, unsigned char code);
static int npgerr, npgready;
void pg_write_error(struct conn *c, const char *e) { npgerr++; } void pg_write_ready(struct conn *c, unsigned char code) { npgready++; }
void vp_stub_conn_write_error(struct conn *c, const char *e);
#if !VP_NATIVE
#define memmove vp_memmove
static void *vp_memmove(void *d, const void *s, size_t n) { char *p = d; const char *q = s; VP_LIMIT(n <= 2*EV && (p <= q || n == 0), "moved towards the start"); for (size_t i = 0; i < 2*EV; i++) if (i < n) p[i] = q[i]; return d; }
#define memcpy vp_memcpy
static void *vp_memcpy(void *d, const void *s, size_t n) { char *p = d; const char *q = s; VP_LIMIT(n <= 24, "copied"); for (size_t i = 0; i < 24; i++) if (i < n) p[i] = q[i]; return d; }
#endif
#include "conn.c"
#if VP_NATIVE
#include "buf.c"
#include "util.c"
#include "args.c"
#else
static char pkt[2*EV+1];
void buf_append(struct buf *b, const void *d, size_t n) { VP_LIMIT(b->len + n <= 2*EV, "packet"); const char *q = d; b->data = pkt; b->cap = b->len + n > b->cap ? b->len + n : b->cap; for (size_t i = 0; i < 2*EV; i++) if (i < n) pkt[b->len + i] = q[i]; b->len += n; }
void buf_clear(struct buf *b) { b->data = 0; b->len = b->cap = 0; }
void args_free(struct args *a) {}
size_t vp_digits(uint64_t x, uint8_t *o) { VP_LIMIT(x < 100, "number"); if (x < 10) { o[0] = '0' + x; return 1; } o[0] = '0' + x/10; o[1] = '0' + x%10; return 2; }
size_t u64toa(uint64_t x, uint8_t *o) { return vp_digits(x, o); }
size_t i64toa(int64_t x, uint8_t *o) { if (x >= 0) return vp_digits(x, o); o[0] = '-'; return 1 + vp_digits(-x, o+1); }
#endif
#ifdef STREAM
// ---- C25: what is parsed is what was received and not consumed yet
static void did(int w) { VP_ASSERT(C25, due == w, "each request is executed, answered or rejected once, in order"); due = NOTHING; if (vp_choose(6) == 0) closed = true; else if (w == COMMAND && vp_choose(6) == 0) bgw = true; }
ssize_t parse_command(const void *data, size_t len, struct args *args, int *proto, bool *noreply, int *hv, bool *keep, struct pg **pg) {
    const char *d = data;
    VP_ASSERT(C25, !closed && !bgw && !stopped, "nothing is read from a closed or a busy connection");
    VP_ASSERT(C25, due == NOTHING, "each request is dealt with before the next one is read");
    VP_ASSERT(C25, len > 0 && len == tot - cons, "exactly the bytes that were received and not used yet are parsed");
    for (size_t i = 0; i < 2*EV; i++) if (i < len) VP_ASSERT(C25, d[i] == V[cons + i], "exactly the bytes that were received and not used yet are parsed");
    VP_ASSERT(C25, args == &CN->args && proto == &CN->proto && noreply == &CN->noreply && hv == &CN->httpvers && keep == &CN->keepalive && pg == &CN->pg, "the state of the connection is kept");
    nparse++; *proto = P; CN->pg = PG;
    int k = vp_choose(8);
    if (k == 0) { stopped = true; return 0; }
    size_t n = 1 + vp_choose(len); VP_ASSUME(n <= len);
    if (k == 1) { due = ERRORED; if (P == PROTO_MEMCACHE) { mcn = n; cons += n; } return -1; }
    args->len = P == PROTO_HTTP ? 1 : vp_choose(3); cons += n;
    due = args->len == 0 ? (P == PROTO_POSTGRES ? PGREPLY : P == PROTO_MEMCACHE ? ERRORED : NOTHING) : P == PROTO_POSTGRES && !pgready ? NOTHING : COMMAND;
    if (P == PROTO_POSTGRES && args->len && !pgready) stopped = true;
    return n;
}
static bool pgok;
void vp_stub_conn_write_error(struct conn *c, const char *e) { VP_ASSERT(C25, c == CN, "this connection"); did(ERRORED); if (P != PROTO_MEMCACHE) stopped = true; }
bool pg_respond(struct conn *c, struct pg *pg) { VP_ASSERT(C25, c == CN && pg == PG, "this connection"); did(PGREPLY); pgok = vp_choose(5); if (!pgok) stopped = true; return pgok; }
bool pg_precommand(struct conn *c, struct args *a, struct pg *pg) { VP_ASSERT(C25, c == CN && pg == PG && a == &CN->args, "this connection"); pgok = vp_choose(5); if (!pgok) { VP_ASSERT(C25, due == COMMAND, "each request once"); due = NOTHING; } return pgok; }
void evcommand(struct conn *c, struct args *a) { VP_ASSERT(C25, c == CN && a == &CN->args, "this connection"); did(COMMAND); if (P == PROTO_HTTP) stopped = true; }
void harness_stream(void) {
    static struct conn cn; memset(&cn, 0, sizeof cn); CN = &cn; UD = CN; cn.conn5 = NCP;
    static struct pg pg; PG = &pg; memset(&pg, 0, sizeof pg); pgready = pg.ready = vp_bool();
    static const int PR[4] = { PROTO_RESP, PROTO_MEMCACHE, PROTO_HTTP, PROTO_POSTGRES }; P = PR[vp_choose(4)]; cn.proto = P; cn.pg = PG;
    size_t u = vp_choose(EV + 1), e = vp_choose(EV + 1); tot = u + e; cons = 0; nclose = nparse = 0; due = NOTHING; stopped = false; closed = vp_choose(8) == 0; bgw = false;
    bool was = closed;
#if VP_NATIVE
    V = malloc(tot + 1); for (size_t i = 0; i < tot; i++) V[i] = vp_u8(); char *E = malloc(e); memcpy(E, V + u, e); if (u) buf_append(&cn.packet, V, u);
#else
    static char vb[2*EV+1], E[EV+1]; V = vb; for (size_t i = 0; i < 2*EV; i++) V[i] = vp_u8();
    for (size_t i = 0; i < EV; i++) if (i < e) E[i] = V[u + i];
    for (size_t i = 0; i < EV; i++) if (i < u) pkt[i] = V[i];
    cn.packet.len = u; cn.packet.cap = vp_bool() ? 2*EV : 2*1048576; cn.packet.data = pkt; if (!u && vp_bool()) { cn.packet.cap = 0; cn.packet.data = 0; }
#endif
    evdata(NCP, E, e, 0);
    VP_ASSERT(C25, due == NOTHING, "each request is executed, answered or rejected");
    if (was) VP_ASSERT(C25, nparse == 0 && closed, "a closed connection stays closed");
    if (stopped && P == PROTO_HTTP && nparse && cons) VP_ASSERT(C25, closed || bgw, "an HTTP connection is closed after its request");
    if (!closed) {
        VP_ASSERT(C25, stopped || bgw || cons == tot, "every complete request is dealt with when its last byte arrives");
        VP_ASSERT(C25, cn.packet.len == tot - cons, "the bytes that were not used are kept for the next packet");
        for (size_t i = 0; i < 2*EV; i++) if (i < cn.packet.len && i < tot - cons) VP_ASSERT(C25, cn.packet.data[i] == V[cons + i], "the bytes that were not used are kept for the next packet");
    } else VP_ASSERT(C25, was || nclose > 0, "closing is carried out");
    VP_COVER(nparse >= 3 && !closed && cons < tot && u > 0, "several requests"); VP_COVER(closed && P == PROTO_HTTP && nparse == 1, "http"); VP_COVER(bgw && cons < tot, "busy"); VP_COVER(!closed && u == 0 && cons < tot, "kept");
#if VP_NATIVE
    free(V); free(E); buf_clear(&cn.packet);
#endif
}
#else
static void did(int w) {}
ssize_t parse_command(const void *data, size_t len, struct args *args, int *proto, bool *noreply, int *hv, bool *keep, struct pg **pg) { return 0; }
bool pg_respond(struct conn *c, struct pg *pg) { return false; }
bool pg_precommand(struct conn *c, struct args *a, struct pg *pg) { return false; }
void evcommand(struct conn *c, struct args *a) {}
// ---- C16: replies
#if VP_NATIVE
#define WHAT 0
#endif
#define DN (VP_NATIVE ? 300 : 12)
static char X[VP_NATIVE ? 3000 : OC]; static size_t xn;
static void xb(char c) { X[xn++] = c; }
static void xs(const char *s, size_t n) { for (size_t i = 0; i < (VP_NATIVE ? 2000 : 24); i++) if (i < n) xb(s[i]); }
static void xl(const char *s) { for (int i = 0; i < (VP_NATIVE ? 2000 : 24); i++) { if (!s[i]) break; xb(s[i]); } }
static void xu(uint64_t v) { char t[24]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v && n < 20); while (n > 0) xb(t[--n]); }
static bool same(size_t o0) { if (olen - o0 != xn) return false; for (size_t i = 0; i < (VP_NATIVE ? 3000 : OC); i++) if (i < xn && OUT[o0 + i] != X[i]) return false; return true; }
void harness_reply(void) {
    static struct conn cn; memset(&cn, 0, sizeof cn); cn.conn5 = NCP; static const int PR[4] = { PROTO_RESP, PROTO_MEMCACHE, PROTO_HTTP, PROTO_POSTGRES }; cn.proto = PR[vp_choose(4)];
    int p = cn.proto; xn = 0; npgerr = npgready = 0;
#if VP_NATIVE
    olen = vp_choose(5); room = olen + vp_choose(20); OUT = malloc(room); for (size_t i = 0; i < olen; i++) OUT[i] = 'o';
    char d[301]; size_t n = vp_choose(vp_choose(4) ? 20 : 300); for (size_t i = 0; i < n; i++) d[i] = vp_byte_from("ab \r\n\t\x01\x80z"); d[n] = 0;
#else
    static char o[OC]; OUT = o; ocap = OC; olen = vp_choose(5); room = olen + vp_choose(20); for (int i = 0; i < 5; i++) o[i] = 'o';
    static char d[DN+1]; size_t n = vp_choose(DN+1); for (int i = 0; i < DN; i++) { d[i] = vp_u8(); if ((size_t)i < n) VP_ASSUME(WHAT == 0 || d[i]); } d[n] = 0;
#endif
    size_t o0 = olen; uint64_t v = VP_NATIVE ? vp_u64() >> vp_choose(64) : vp_choose(100); int64_t w = VP_NATIVE ? vp_i64() >> vp_choose(64) : vp_range(-99, 99);
    int what = VP_NATIVE ? vp_choose(7) : WHAT;
#if VP_NATIVE
    if (what) n = strlen(d);
#endif
    switch (what) {
    case 0: conn_write_bulk(&cn, d, n); xb('$'); xu(n); xl("\r\n"); xs(d, n); xl("\r\n");
        VP_ASSERT(C16, same(o0), "a bulk reply has the length of its data, and the data"); break;
    case 1: { bool s = vp_bool(); if (!s && p != PROTO_RESP) VP_ASSUME(0); if (s) conn_write_string(&cn, d); else conn_write_error(&cn, d);
        xb(s ? '+' : '-'); for (size_t i = 0; i < DN; i++) if (i < n) xb((unsigned char)d[i] < ' ' ? ' ' : d[i]); xl("\r\n");
        VP_ASSERT(C16, same(o0), "a line reply is one line"); break; }
    case 2: conn_write_uint(&cn, v); if (p != PROTO_MEMCACHE) xb('+'); xu(v); if (p != PROTO_MEMCACHE) xl("\r\n"); VP_ASSERT(C16, same(o0), "a number reply is that number"); break;
    case 3: conn_write_int(&cn, w); if (p != PROTO_MEMCACHE) xb(':'); if (w < 0) { xb('-'); xu(-(uint64_t)w); } else xu(w); if (p != PROTO_MEMCACHE) xl("\r\n"); VP_ASSERT(C16, same(o0), "a number reply is that number"); break;
    case 4: if (vp_bool()) { conn_write_array(&cn, v); xb('*'); xu(v); xl("\r\n"); } else { conn_write_null(&cn); xl("$-1\r\n"); } VP_ASSERT(C16, same(o0), "the header of an array has its length"); break;
#if VP_NATIVE
    case 5: { // errors in the other protocols
        static const char *const E[] = { "ERR no", "ERROR", "CLIENT_ERROR bad command line format", "ERR out of memory", "Unauthorized", "Bad Request", "Invalid Key", "Method Not Allowed", "x" }; const char *e = E[vp_choose(9)]; if (p == PROTO_RESP) vp_reject();
        const char *t = strncmp(e, "ERR ", 4) ? e : e + 4;
        conn_write_error(&cn, e);
        if (p == PROTO_POSTGRES) VP_ASSERT(C16, olen == o0 && npgerr == 1 && npgready == 1, "an error is answered with one error, then ready");
        else if (p == PROTO_MEMCACHE) {
            if (!strcmp(e, "ERR out of memory")) { xl("SERVER_ERROR "); xl(t); } else if (t != e) { xl("CLIENT_ERROR "); xl(t); } else if (!strncmp(e, "CLIENT_ERROR ", 13)) xl(e); else xl("ERROR");
            xl("\r\n"); VP_ASSERT(C16, same(o0), "a memcache error is one line that names the side to blame");
        } else {
            char b[400]; const char *st = !strcmp(t, "Unauthorized") ? "401 Unauthorized" : !strcmp(t, "Bad Request") ? "400 Bad Request" : !strcmp(t, "Method Not Allowed") ? "405 Method Not Allowed" : "500 Internal Server Error";
            if (st[0] == '5') sprintf(b, "ERR %s\r\n", t); else sprintf(b, "%s\r\n", t);
            xl("HTTP/1.1 "); xl(st); xl("\r\nContent-Length: "); xu(strlen(b)); xl("\r\nConnection: Close\r\n\r\n"); xl(b);
            VP_ASSERT(C16, same(o0), "an HTTP error has its status, and the length of its body");
        }
        break; }
    case 6: { int code = 100 + vp_choose(500); bool own = vp_bool(); bool body = vp_choose(4); 
        conn_write_http(&cn, code, "St at", body ? d : 0, own ? -1 : body ? (ssize_t)n : 0); const char *b = body ? d : own ? "St at" : ""; size_t bn = body ? (own ? strlen(d) : n) : strlen(b);
        xl("HTTP/1.1 "); xu(code); xl(" St at\r\nContent-Length: "); xu(bn); xl("\r\nConnection: Close\r\n\r\n"); xs(b, bn);
        VP_ASSERT(C16, same(o0), "an HTTP reply has its status, and the length of its body"); break; }
#endif
    }
    bool keep = true; for (int i = 0; i < 5; i++) if ((size_t)i < o0 && OUT[i] != 'o') keep = false;
    VP_ASSERT(C16, keep, "the replies before it stay");
    VP_COVER(p == PROTO_MEMCACHE, "memcache");
#if VP_NATIVE
    free(OUT);
#endif
}
#endif
