// Sixpack key compression (pogocache.c): for every key of up to 128 bytes.
#include "vp.h"
#include <string.h>
#include "pogocache.c"
#ifndef LMAX
#define LMAX 128
#endif
static bool inset(uint8_t c) {
    return (c >= '0' && c <= ':') || (c >= 'A' && c <= 'Y' && c != 'Q') ||
        (c >= 'a' && c <= 'y') || c == '-' || c == '.' || c == '_';
}
void harness(void) {
    static char key[LMAX+1]; char pk[128+8], up[128+8];
    int len = (int)vp_range(0, LMAX);
    size_t bad = vp_choose(4) == 0 ? vp_choose(LMAX) : LMAX;
    for (int i = 0; i < LMAX; i++) {
        uint8_t c = vp_byte_from("-.0123456789:ABCDEFGHIJKLMNOPRSTUVWXY_abcdefghijklmnopqrstuvwxy");
#if VP_NATIVE
        if (!inset(c) && (size_t)i != bad) c = 'a' + c%25;
#endif
        key[i] = (char)c;
    }
    (void)bad;
    memset(pk, 0x55, sizeof pk); memset(up, 0x55, sizeof up);
    int n = sixpack(key, len, pk);
    size_t k = vp_choose(LMAX+1);   // an arbitrary index
    if (n == 0) {
        bool all = len > 0;
        for (int i = 0; i < LMAX; i++) if (i < len && !inset((uint8_t)key[i])) all = false;
        VP_ASSERT(C02, !all, "a key is left unpacked only when it has a byte outside the set");
        VP_COVER(len > 3, "unpackable key");
        return;
    }
    VP_ASSERT(C02, n > 0 && n <= 128, "packed key fits its buffer");
    VP_ASSERT(C02, n <= len, "packing does not grow the key");
    VP_ASSERT(C02, pk[128] == 0x55, "nothing is written past the packed buffer");
    int m = unsixpack(pk, n, up);
    VP_ASSERT(C02, m == len, "unpacking restores the length");
    VP_ASSERT(C02, up[128] == 0x55, "nothing is written past the unpacked buffer");
    VP_ASSERT(C02, k >= (size_t)len || up[k] == key[k], "unpacking restores every byte");
    VP_COVER(len == LMAX, "longest key packed");
    VP_COVER(len == 1, "shortest key packed");
}
