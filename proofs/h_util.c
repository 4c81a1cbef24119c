// util.c: decimal numbers, clamped arithmetic, varints, fixed-width integers.
// Complete for every argument (the loops end with the data type).
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#if !VP_NATIVE
// contract of strtoll/strtoull of the C library (base 10, "C" locale): which
// characters are taken; the value, and whether it is out of range, are left
// open (natively it is the C library itself, against the decimal value)
static bool sover; static uint64_t sval; static int scalls;
static void scan(const char *s, char **end, int base) {
    int i = 0; bool any = false;
    __CPROVER_assert(base == 10, "C17: numbers are decimal");
    while (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) i++;
    if (s[i] == '-' || s[i] == '+') i++;
    while (s[i] >= '0' && s[i] <= '9') { any = true; i++; }
    *end = (char*)s + (any ? i : 0);
    sover = vp_bool(); sval = vp_u64(); scalls++;
    if (sover) errno = ERANGE;
}
long long vp_strtoll(const char *s, char **end, int base) { scan(s, end, base); return (long long)sval; }
unsigned long long vp_strtoull(const char *s, char **end, int base) { scan(s, end, base); return sval; }
#define strtoll vp_strtoll
#define strtoull vp_strtoull
#endif
#define FNVN 10
static uint8_t LOWB[FNVN]; static int ntl;
#if !VP_NATIVE && defined FNVL
// tolower by contract: call k is about byte k of the name, and answers the
// byte the name has in lower case
static int vp_tolower(int c) { int i = ntl++; VP_LIMIT(i < FNVN, "one call for a byte"); VP_ASSERT(C20, c == LOWB[i] || (c >= 'A' && c <= 'Z' && c + 32 == LOWB[i]), "the bytes in order"); return LOWB[i]; }
#define tolower(c) vp_tolower(c)
#endif
#include "util.c"
#if VP_NATIVE
void *xmalloc(size_t n) { return malloc(n); }
void xfree(void *p) { free(p); }
#endif

// the number a string denotes: optional sign, digits, nothing else
#define MAXNUM 22
static bool spec_num(const char *s, int n, bool allowneg, bool *neg, bool *over, uint64_t *v) {
    int i = 0; *neg = *over = false; *v = 0;
    if (n > 0 && (s[0] == '-' || s[0] == '+')) { *neg = s[0] == '-'; i = 1; }
    if (*neg && !allowneg) return false;
    if (i == n) return false;
    for (; i < n; i++) {
        if (s[i] < '0' || s[i] > '9') return false;
#if VP_NATIVE
        unsigned d = s[i] - '0';
        if (*v > (UINT64_MAX - d) / 10) *over = true;
        *v = *v*10 + d;
#endif
    }
    return true;
}
static char in[MAXNUM+2]; static int inl;
static void mk(void) {
    inl = vp_choose(MAXNUM+1);
    bool dig = vp_bool(); // natively: mostly digits
    for (int i = 0; i < inl; i++) in[i] = vp_byte_from(i == 0 ? "-+0123456789 \n\t" : dig ? "0123456789" : "0123456789 -+.x");
    in[inl] = VP_NATIVE ? '7' : (char)vp_u8();  // what follows is not part of it
}
void harness_i64(void) {
    mk(); int64_t x = 0x1234567812345678; bool neg, over; uint64_t v;
    bool good = spec_num(in, inl, true, &neg, &over, &v) && inl <= 21;
    errno = vp_bool() ? ERANGE : 0;
    bool ok = parse_i64(in, inl, &x);
#if VP_NATIVE
    if (over || v > (uint64_t)INT64_MAX + neg) good = false;
    v = neg ? 0 - v : v;
#else
    VP_LIMIT(scalls || !good, "the C library converts the digits");
    if (scalls) { if (sover) good = false; v = sval; }
#endif
    VP_ASSERT(C17, ok == good, "a signed number is accepted exactly when it is one in range");
    if (good) VP_ASSERT(C17, x == (int64_t)v, "a signed number has its value");
    VP_COVER(ok && neg && inl == 20, "long negative"); VP_COVER(!ok && inl > 0, "not a number");
}
void harness_u64(void) {
    mk(); uint64_t x = 0x1234567812345678; bool neg, over; uint64_t v;
    bool good = spec_num(in, inl, false, &neg, &over, &v) && inl <= 21;
    errno = vp_bool() ? ERANGE : 0;
    bool ok = parse_u64(in, inl, &x);
#if VP_NATIVE
    if (over) good = false;
#else
    VP_LIMIT(scalls || !good, "the C library converts the digits");
    if (scalls) { if (sover) good = false; v = sval; }
#endif
    VP_ASSERT(C17, ok == good, "an unsigned number is accepted exactly when it is one in range");
    if (good) VP_ASSERT(C17, x == v, "an unsigned number has its value");
    VP_COVER(ok && inl == 20, "long"); VP_COVER(!ok && inl > 0, "not a number");
}
static int spec_dec(uint64_t x, uint8_t *d) { // digits, least significant first
    int n = 0;
    do { d[n++] = '0' + x % 10; x /= 10; } while (x > 0);
    return n;
}
void harness_utoa(void) {
    uint64_t x = vp_u64(); uint8_t out[24], d[20]; memset(out, 0xAA, sizeof out);
    int n = spec_dec(x, d); size_t m = u64toa(x, out);
    VP_ASSERT(C17, m == (size_t)n, "u64toa: as many digits as needed, no leading zero");
    for (int i = 0; i < 20; i++) if (i < n) VP_ASSERT(C17, out[i] == d[n-1-i], "u64toa: decimal digits, most significant first");
    VP_ASSERT(C17, out[n] == 0 && (n >= 22 || out[n+1] == 0xAA), "u64toa: ends with a null and writes no more");
    VP_COVER(n == 20, "20 digits"); VP_COVER(x == 0, "zero");
}
#if !VP_NATIVE
static uint64_t ux; static uint8_t *udata; static int un;
size_t vp_stub_u64toa(uint64_t x, uint8_t *data) { ux = x; udata = data; un++; data[0] = 0x55; return 3; }
// with u64toa by contract: sign and magnitude
void harness_itoa_c(void) {
    int64_t x = vp_i64(); uint8_t out[24]; memset(out, 0xAA, sizeof out);
    size_t m = i64toa(x, out);
    if (x == INT64_MIN) {
        const char *e = "-9223372036854775808";
        bool same = un == 0 && m == 20; for (int i = 0; i < 21; i++) same = same && out[i] == (uint8_t)e[i];
        VP_ASSERT(C17, same || (un == 1 && ux == (uint64_t)1 << 63 && udata == out+1 && out[0] == '-' && m == 4), "i64toa: the smallest number");
    } else if (x < 0) VP_ASSERT(C17, out[0] == '-' && un == 1 && ux == 0 - (uint64_t)x && udata == out+1 && m == 4, "i64toa: sign and magnitude");
    else VP_ASSERT(C17, un == 1 && ux == (uint64_t)x && udata == out && m == 3, "i64toa: magnitude");
    VP_COVER(x == INT64_MIN, "smallest"); VP_COVER(x > 0, "positive");
}
#endif
void harness_itoa(void) {
    int64_t x = vp_i64(); uint8_t out[24], d[20]; memset(out, 0xAA, sizeof out);
    uint64_t ax = x < 0 ? 0 - (uint64_t)x : (uint64_t)x; int neg = x < 0;
    int n = spec_dec(ax, d); size_t m = i64toa(x, out);
    VP_ASSERT(C17, m == (size_t)(n + neg), "i64toa: sign and digits");
    if (neg) VP_ASSERT(C17, out[0] == '-', "i64toa: sign");
    for (int i = 0; i < 20; i++) if (i < n) VP_ASSERT(C17, out[neg+i] == d[n-1-i], "i64toa: decimal digits, most significant first");
    VP_ASSERT(C17, out[n+neg] == 0 && out[n+neg+1] == 0xAA, "i64toa: ends with a null and writes no more");
    VP_COVER(neg && n == 19, "19 digits"); VP_COVER(x == INT64_MIN, "smallest");
}
static int64_t clamp128(__int128 s) { return s > INT64_MAX ? INT64_MAX : s < INT64_MIN ? INT64_MIN : (int64_t)s; }
void harness_add(void) {
    int64_t a = vp_i64(), b = vp_i64();
    VP_ASSERT(C17, int64_add_clamp(a, b) == clamp128((__int128)a + b), "a sum saturates");
    VP_COVER((__int128)a + b > INT64_MAX, "over"); VP_COVER((__int128)a + b < INT64_MIN, "under");
}
#ifndef MULB
#define MULB SECOND
#endif
void harness_mul(void) {
    // every factor the server multiplies with
    int64_t a = vp_i64(), b = MULB;
    VP_ASSERT(C17, int64_mul_clamp(a, b) == clamp128((__int128)a * b), "a product saturates");
    VP_ASSERT(C17, int64_mul_clamp(b, a) == clamp128((__int128)a * b), "a product saturates");
    VP_COVER((__int128)a * b > INT64_MAX, "over"); VP_COVER((__int128)a * b < INT64_MIN, "under");
}
void harness_mulany(void) {
    int64_t a = vp_i64(), b = vp_i64();
    if (vp_bool()) b >>= vp_choose(64);
    VP_ASSERT(C17, int64_mul_clamp(a, b) == clamp128((__int128)a * b), "a product saturates");
}
void harness_uvarint(void) {
    uint64_t x = vp_u64(), y = ~x, z = 0; uint8_t b[12]; memset(b, 0xAA, sizeof b);
    int n = varint_write_u64(b, x);
    VP_ASSERT(C21, n >= 1 && n <= 10, "a varint has 1 to 10 bytes");
    VP_ASSERT(C21, b[10] == 0xAA && (n >= 10 || b[n] == 0xAA), "nothing is written past the varint");
    size_t len = vp_range(n, 12);
    VP_ASSERT(C21, varint_read_u64(b, len, &y) == n, "a varint is read with its length");
    VP_ASSERT(C21, y == x, "a varint reads back");
    int cut = vp_choose(10); VP_ASSUME(cut < n);
    VP_ASSERT(C21, varint_read_u64(b, cut, &z) <= 0, "a varint that was cut off is not read");
    int64_t sx = vp_i64(), sy = ~sx;
    n = varint_write_i64(b, sx);
    VP_ASSERT(C21, n >= 1 && n <= 10, "a signed varint has 1 to 10 bytes");
    VP_ASSERT(C21, varint_read_i64(b, n, &sy) == n, "a signed varint is read with its length");
    VP_ASSERT(C21, sy == sx, "a signed varint reads back");
    VP_COVER(n == 10, "long"); VP_COVER(cut > 0, "cut");
}
void harness_fixed(void) {
    uint64_t x = vp_u64(); uint32_t w = vp_u32(); uint8_t b[10]; memset(b, 0xAA, sizeof b);
    write_u64(b, x);
    VP_ASSERT(C21, read_u64(b) == x && b[8] == 0xAA && b[0] == (uint8_t)x && b[7] == (uint8_t)(x>>56), "a 64-bit number is stored little endian and reads back");
    memset(b, 0xAA, sizeof b); write_u32(b, w);
    VP_ASSERT(C21, read_u32(b) == w && b[4] == 0xAA && b[0] == (uint8_t)w && b[3] == (uint8_t)(w>>24), "a 32-bit number is stored little endian and reads back");
    VP_COVER(x > 1, "number");
}
#ifndef CRCN
#define CRCN 4
#endif
void harness_crc(void) {
    uint8_t b[CRCN]; int n = vp_choose(CRCN+1);
    for (int i = 0; i < n; i++) b[i] = vp_u8();
    uint32_t c = 0xffffffff; // CRC-32 of ISO 3309, bit by bit
    for (int i = 0; i < n; i++) { c ^= b[i]; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xedb88320 : c >> 1; }
    uint32_t want = ~c;
    VP_ASSERT(C21, crc32(b, n) == want, "the checksum is CRC-32");
    VP_COVER(n == CRCN, "checksum");
}
// fnv1a_case: the same for every spelling in upper and lower case
void harness_fnv(void) {
    char a[FNVN], b[FNVN]; int n = vp_choose(FNVN+1);
    for (int i = 0; i < FNVN; i++) { char c = vp_choose(128); VP_ASSUME(!(c >= 'A' && c <= 'Z')); bool l = c >= 'a' && c <= 'z'; LOWB[i] = c; a[i] = l && vp_bool() ? c - 32 : c; b[i] = l && vp_bool() ? c - 32 : c; }
    ntl = 0; uint32_t x = fnv1a_case(a, n);
    ntl = 0; uint32_t y = fnv1a_case(b, n);
    VP_ASSERT(C20, x == y, "the hash of a name does not depend on the case of its letters");
    VP_COVER(n == FNVN, "names");
}
// argeq_bytes: equality up to the case of letters, for strings and constants
// of any content up to the given lengths
#define AEN 8
void harness_argeq(void) {
    char d[AEN+1], c[AEN+2]; int n = vp_choose(AEN+1), m = vp_choose(AEN+1); bool eq = n == m;
    for (int i = 0; i < n; i++) d[i] = vp_byte_from("aAbBzZ\xc1@[`{09");
    for (int i = 0; i < m; i++) { c[i] = vp_bool() && i < n ? (d[i] >= 'A' && d[i] <= 'Z' ? d[i]+32 : d[i]) : vp_byte_from("abz@[`{09"); VP_ASSUME(c[i] > 0 && !(c[i] >= 'A' && c[i] <= 'Z')); }
    c[m] = 0; d[n] = c[n < m ? n : 0];
    for (int i = 0; eq && i < n; i++) { uint8_t x = d[i]; if (x >= 'A' && x <= 'Z') x += 32; if (x != (uint8_t)c[i]) eq = false; }
    VP_ASSERT(C17, argeq_bytes(d, n, c) == eq, "an option is recognised whatever its case, and nothing else is");
    VP_COVER(eq && n == AEN, "equal");
}
