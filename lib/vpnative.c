// Native driver of a contract harness: replays given inputs, or generates
// inputs from a seed for a bounded time or number of trials.
//
//   prog replay FILE            FILE: one unsigned decimal number per line
//   prog gen SEED SECONDS MAXTRIALS OUTFILE
//
// Exit status: 0 no contract was violated, 10 violated (inputs in OUTFILE),
// 11 the inputs do not satisfy the precondition (replay only).
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

void VP_HARNESS(void);
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

static uint64_t *ins; static size_t nins, capins, posins;
static bool gen; static uint64_t rng; static jmp_buf env;
static const char *outfile; static bool dumped;
static size_t ncovers; static size_t trials, accepted;

static uint64_t rnd(void) {
    rng += 0x9e3779b97f4a7c15ull;
    uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t record(uint64_t v) {
    if (nins == capins) {
        capins = capins ? capins*2 : 1024;
        ins = realloc(ins, capins*8);
    }
    ins[nins++] = v;
    return v;
}
static uint64_t next(void) {
    return posins < nins ? ins[posins++] : 0;
}
uint64_t vp_in(void) {
    if (!gen) return next();
    uint64_t r = rnd();
    uint64_t v;
    switch (r & 15) {
    case 0: v = 0; break;
    case 1: v = 1; break;
    case 2: case 3: case 4: v = (r >> 8) & 7; break;
    case 5: case 6: v = (r >> 8) & 0xff; break;
    case 7: v = ((uint64_t)1 << ((r >> 8) & 63)) + (r >> 16 & 3) - 1; break;
    case 8: v = (uint64_t)0 - ((r >> 8) & 3); break;
    case 9: v = (uint64_t)INT64_MAX - ((r >> 8) & 3); break;
    case 10: v = r >> (8 + ((r >> 8) & 55)); break;
    default: v = rnd(); break;
    }
    return record(v);
}
uint64_t vp_choose(uint64_t n) {
    if (!gen) { uint64_t v = next(); if (v >= n) longjmp(env, 1); return v; }
    return record(n ? rnd() % n : 0);
}
int64_t vp_range(int64_t lo, int64_t hi) {
    if (!gen) {
        int64_t v = (int64_t)next();
        if (v < lo || v > hi) longjmp(env, 1);
        return v;
    }
    uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
    uint64_t r = rnd(), x;
    if ((r & 7) == 0) x = 0;
    else if ((r & 7) == 1) x = span - 1;
    else if ((r & 7) == 2) x = span ? (r >> 8 & 7) % span : (r >> 8 & 7);
    else x = span ? rnd() % span : rnd();
    return (int64_t)record((uint64_t)lo + x);
}
uint8_t vp_byte_from(const char *alphabet) {
    if (!gen) return (uint8_t)next();
    uint64_t r = rnd();
    if ((r & 15) == 0 || !*alphabet) return (uint8_t)record(r >> 8 & 0xff);
    return (uint8_t)record((uint8_t)alphabet[(r >> 8) % strlen(alphabet)]);
}
void vp_reject(void) { longjmp(env, 1); }
static void dump(void) {
    if (dumped || !gen || !outfile) return;
    dumped = true;
    FILE *f = fopen(outfile, "w");
    if (!f) return;
    for (size_t i = 0; i < nins; i++) fprintf(f, "%llu\n", (unsigned long long)ins[i]);
    fclose(f);
}
void vp_fail(const char *prop, const char *msg, const char *cond) {
    dump();
    fprintf(stderr, "CONTRACT VIOLATED %s: %s  [%s]\n", prop, msg, cond);
    fflush(0);
    _exit(10);
}
void vp_cover(const char *msg) { (void)msg; ncovers++; }
static void onsig(int sig) {
    dump();
    fprintf(stderr, "CONTRACT VIOLATED: the code under contract %s\n",
        sig == SIGALRM ? "does not terminate" : "aborted (signal)");
    fflush(0);
    _exit(10);
}
static void ondeath(void) {
    dump();
    fprintf(stderr, "CONTRACT VIOLATED: memory error in the code under contract\n");
    fflush(0);
    _exit(10);
}
static bool timeup;
int main(int argc, char **argv) {
    signal(SIGALRM, onsig); signal(SIGABRT, onsig);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(ondeath);
    else { signal(SIGSEGV, onsig); }
    setvbuf(stdout, 0, _IONBF, 0);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        FILE *f = fopen(argv[2], "r"); unsigned long long v;
        if (!f) { perror(argv[2]); return 2; }
        while (fscanf(f, "%llu", &v) == 1) record(v);
        fclose(f);
        alarm(20);
        if (setjmp(env)) { fprintf(stderr, "precondition not satisfied\n"); return 11; }
        VP_HARNESS();
        return 0;
    }
    if (argc < 6) return 2;
    gen = true;
    uint64_t seed = strtoull(argv[2], 0, 10);
    double secs = atof(argv[3]); size_t maxtrials = strtoull(argv[4], 0, 10);
    outfile = argv[5];
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (; trials < maxtrials; trials++) {
        rng = seed * 0x2545f4914f6cdd1dull + trials * 0xd1342543de82ef95ull;
        nins = 0;
        alarm(10);
        if (!setjmp(env)) { VP_HARNESS(); accepted++; }
        if ((trials & 15) == 0) {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            double el = (t1.tv_sec-t0.tv_sec)+(t1.tv_nsec-t0.tv_nsec)/1e9;
            if (el > secs) { timeup = true; trials++; break; }
        }
    }
    alarm(0);
    printf("trials=%zu accepted=%zu covers=%zu\n", trials, accepted, ncovers);
    fflush(0);
    _exit(0);
}
