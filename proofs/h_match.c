// match() (util.c): the pattern matcher, with its recursive calls by contract.
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#if VP_NATIVE
#define PN 14
#define SN 14
#endif
#ifndef PN
#define PN 5
#define SN 5
#endif
static char P[PN+1], S[SN+1]; static int pn, sn;
// M[i][j]: does the pattern from i on match the text from j on
static bool M[PN+2][SN+2];
static void spec(void) {
    for (int i = PN; i >= 0; i--) for (int j = SN; j >= 0; j--) {
        if (i > pn || j > sn) continue;
        bool m;
        if (i == pn) m = j == sn;
        else if (P[i] == '\\') m = i + 1 < pn && j < sn && P[i+1] == S[j] && M[i+2][j+1];
        else if (P[i] == '*') m = M[i+1][j] || (j < sn && M[i][j+1]);
        else m = j < sn && (P[i] == '?' || P[i] == S[j]) && M[i+1][j+1];
        M[i][j] = m;
    }
}
#include "util.c"
#if VP_NATIVE
void *xmalloc(size_t n) { return malloc(n); }
void xfree(void *p) { free(p); }
#endif
static int dep;
bool vp_stub_match(const char *pat, size_t plen, const char *str, size_t slen, int depth) {
    VP_ASSERT(C22, depth == dep + 1, "the depth of the recursion is counted");
    int i = pn - (int)plen, j = sn - (int)slen;
    VP_ASSERT(C22, i >= 0 && j >= 0 && pat == P + i && str == S + j, "the rest of the pattern is matched with the rest of the text");
    return M[i][j];
}
void harness_match(void) {
    pn = vp_choose(PN+1); sn = vp_choose(SN+1);
    for (int i = 0; i < pn; i++) P[i] = vp_byte_from("**?\\abab");
    for (int j = 0; j < sn; j++) S[j] = vp_byte_from("abab*?\\");
#if VP_NATIVE
    int stars = 0; for (int i = 0; i < pn; i++) stars += P[i] == '*';
    if (stars > 6) vp_reject(); // exponential
#endif
    memset(M, 0, sizeof M);
    spec();
    dep = VP_NATIVE ? 0 : vp_choose(127); // deeper than 127 stars there is no match
    bool r = match(P, pn, S, sn, dep);
    VP_ASSERT(C22, r == M[0][0], "a pattern matches exactly the texts it describes");
    VP_COVER(r && pn == PN && sn == SN, "match"); VP_COVER(!r && pn > 2, "no match");
}
