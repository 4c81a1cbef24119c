// Leaf functions of pogocache.c: varint, bucket fields, clamped addition,
// liveness. Complete for every argument.
#include "vp.h"
#include <string.h>
#include "pogocache.c"

void harness_varint(void) {
    uint64_t x = vp_u64(), y = ~x;
    uint8_t buf[12]; memset(buf, 0xAA, sizeof buf);
    int n = varint_write_u64(buf, x);
    VP_ASSERT(C01, n >= 1 && n <= 10, "a varint has 1 to 10 bytes");
    VP_ASSERT(C01, buf[10] == 0xAA && (n >= 10 || buf[n] == 0xAA), "nothing is written past the varint");
    int m = varint_read_u64(buf, &y);
    VP_ASSERT(C01, m == n && y == x, "a varint reads back");
    VP_COVER(n == 10, "10-byte varint"); VP_COVER(n == 1, "1-byte varint");
}

void harness_bucket(void) {
    struct bucket b; memset(&b, 0, sizeof b);
    uint64_t p = vp_u64() & (PTRSIZE == 6 ? 0xFFFFFFFFFFFFull : ~0ull);
    uint32_t h = vp_u32(); uint8_t d = vp_u8();
    set_dib(&b, d); set_entry(&b, (struct entry*)(uintptr_t)p); set_hash(&b, clip_hash(h));
    VP_ASSERT(C03, (uintptr_t)get_entry(&b) == p, "bucket: entry pointer read back");
    VP_ASSERT(C03, get_hash(&b) == clip_hash(h), "bucket: hash read back");
    VP_ASSERT(C03, get_dib(&b) == d, "bucket: dib read back");
    uint64_t p2 = vp_u64() & (PTRSIZE == 6 ? 0xFFFFFFFFFFFFull : ~0ull);
    set_entry(&b, (struct entry*)(uintptr_t)p2);
    VP_ASSERT(C03, get_hash(&b) == clip_hash(h) && get_dib(&b) == d, "bucket: setting the entry leaves hash and dib");
    set_dib(&b, vp_u8());
    VP_ASSERT(C03, (uintptr_t)get_entry(&b) == p2 && get_hash(&b) == clip_hash(h), "bucket: setting dib leaves the rest");
    VP_ASSERT(C03, clip_hash(clip_hash(h)) == clip_hash(h), "clipping is idempotent");
    VP_COVER(p != p2, "bucket");
}

void harness_time(void) {
    int64_t a = vp_i64(), b = vp_i64();
    __int128 s = (__int128)a + b;
    int64_t want = s > INT64_MAX ? INT64_MAX : s < INT64_MIN ? INT64_MIN : (int64_t)s;
    VP_ASSERT(C05, int64_add_clamp(a, b) == want, "now+ttl saturates");
    VP_ASSERT(C05, entry_alive_exp(a, b) == (a == 0 || a > b), "alive iff no expiration or expiration after now");
    VP_COVER(s > INT64_MAX, "saturating sum");
    VP_COVER(s < INT64_MIN, "saturating negative sum");
}
