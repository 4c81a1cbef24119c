// memcache.c: the line tokenizer, on arbitrary bytes.
#ifndef RN
#define RN 12
#endif
#define CAPB 2
#define ONEARG
#include "pcommon.h"
__thread char parse_lasterr[1024];
#include "memcache.c"
void harness_line(void) {
    static char buf[256]; char *D = buf; int L = vp_choose(RN+1);
#if VP_NATIVE
    D = malloc(L);
#endif
    for (int i = 0; i < L; i++) D[i] = vp_byte_from("ab \r\n  ");
    // up to the first newline, without the carriage return right before it; split at each blank
    int e = -1; for (int i = 0; i < L; i++) if (D[i] == '\n' && e < 0) e = i;
    ssize_t s = e + 1; nx = 0; J = vp_choose(RN+1);
    if (e >= 0) {
        int z = e > 0 && D[e-1] == '\r' ? e - 1 : e, b = 0;
        for (int i = 0; i < RN; i++) if (i < z && D[i] == ' ') { xborrow(D + b, i - b); b = i + 1; }
        if (z > b) xborrow(D + b, z - b);
    }
    struct args a; memset(&a, 0, sizeof a);
    ssize_t n = parse_memcache_telnet(D, L, &a);
    VP_ASSERT(C13, n == s, "a line is complete when its end is there");
    if (s > 0) VP_ASSERT(C13, same_args(&a), "the words of the line, in order");
    VP_COVER(s > 0 && nx == 3, "three words"); VP_COVER(s == 0 && L == RN, "no end");
#if VP_NATIVE
    args_free(&a); free(D);
#endif
}
