// vp.h: one contract harness, two executions.
//
//  - VP_CBMC (goto-cc): inputs are unconstrained, VP_ASSUME is the
//    precondition, VP_ASSERT is a postcondition obligation that CBMC must
//    discharge for every input.
//  - native (gcc -fsanitize=address): the same harness, with nothing replaced
//    by a contract, executed on concrete inputs: either the values of a CBMC
//    counterexample (replay), or generated ones.
//
// The first argument of VP_ASSERT is the id of the property that the
// obligation belongs to; a check compiles in only its own obligations
// (-DVP_ON_C03=1), the others are inert.
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include "vp_on.h"

#ifdef VP_CBMC

uint64_t nondet_vp_u64(void);
static uint64_t vp_trace_val;
static inline uint64_t vp_in(void) {
    uint64_t v = nondet_vp_u64();
    vp_trace_val = v;
    return v;
}
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(p, c, msg) do { \
    if (VP_ON_##p) { __CPROVER_assert((c), #p ": " msg); } } while (0)
// Model limits: the harness's own book-keeping must never be what stops a
// path. Checked for every property.
#define VP_LIMIT(c, msg) __CPROVER_assert((c), "LIMIT: " msg)
// Reachability: must be reported as failing by the vacuity run.
#ifdef VP_VACUITY
#define VP_COVER(c, msg) __CPROVER_assert(!(c), "COVER: " msg)
#undef VP_ASSERT
#undef VP_LIMIT
#define VP_ASSERT(p, c, msg) do { (void)(c); } while (0)
#define VP_LIMIT(c, msg) __CPROVER_assume(c)
#else
#define VP_COVER(c, msg) do { } while (0)
#endif
static inline uint64_t vp_choose(uint64_t n) {
    uint64_t v = vp_in();
    __CPROVER_assume(v < n);
    return v;
}
static inline int64_t vp_range(int64_t lo, int64_t hi) {
    int64_t v = (int64_t)vp_in();
    __CPROVER_assume(lo <= v && v <= hi);
    return v;
}
static inline uint8_t vp_byte_from(const char *alphabet) {
    (void)alphabet;
    return (uint8_t)vp_in();
}
#define VP_NATIVE 0

#else // native

#include <stdio.h>
#include <stdlib.h>
#include <setjmp.h>
#include <string.h>
uint64_t vp_in(void);
uint64_t vp_choose(uint64_t n);
int64_t vp_range(int64_t lo, int64_t hi);
uint8_t vp_byte_from(const char *alphabet);
void vp_reject(void);
void vp_fail(const char *prop, const char *msg, const char *cond);
void vp_cover(const char *msg);
#define VP_ASSUME(c) do { if (!(c)) vp_reject(); } while (0)
#define VP_ASSERT(p, c, msg) do { \
    if (!(c) && VP_ON_##p) vp_fail(#p, msg, #c); } while (0)
#define VP_LIMIT(c, msg) do { if (!(c)) vp_reject(); } while (0)
#define VP_COVER(c, msg) do { if (c) vp_cover(msg); } while (0)
#define VP_NATIVE 1

#endif

static inline uint64_t vp_u64(void) { return vp_in(); }
static inline int64_t vp_i64(void) { return (int64_t)vp_in(); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_in(); }
static inline int vp_int(void) { return (int)vp_in(); }
static inline uint8_t vp_u8(void) { return (uint8_t)vp_in(); }
static inline bool vp_bool(void) { return vp_in() & 1; }

#endif
