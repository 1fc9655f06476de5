// Native bodies of the symbolic intrinsics: they replay one concrete assignment.
// The file named by SYM_REPLAY holds one line per input, in creation order: "<bits> <hex> <name>".
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static FILE *f;
static uint64_t n_in, n_checks, n_covers;
static int expect_panic;

static uint64_t next(int bits, const char *name, uint64_t len) {
    if (!f) {
        const char *p = getenv("SYM_REPLAY");
        f = p ? fopen(p, "r") : NULL;
        if (!f) { fprintf(stderr, "SYM: no replay file\n"); _Exit(79); }
    }
    int b; unsigned long long v; char nm[512];
    if (fscanf(f, "%d %llx %511[^\n]", &b, &v, nm) != 3 || b != bits) {
        fprintf(stderr, "SYM: replay input %llu missing or of another shape\n", (unsigned long long)n_in);
        _Exit(79);
    }
    char want[512];
    snprintf(want, sizeof want, "%llu#%.*s", (unsigned long long)n_in, (int)len, name);
    if (strcmp(want, nm)) {
        fprintf(stderr, "SYM: replay input %s where %s is wanted\n", nm, want);
        _Exit(79);
    }
    n_in++;
    return v;
}
uint8_t __sym_u8(const char *n, uint64_t l) { return (uint8_t)next(8, n, l); }
uint16_t __sym_u16(const char *n, uint64_t l) { return (uint16_t)next(16, n, l); }
uint32_t __sym_u32(const char *n, uint64_t l) { return (uint32_t)next(32, n, l); }
uint64_t __sym_u64(const char *n, uint64_t l) { return next(64, n, l); }
void __sym_bytes(const char *n, uint64_t l, uint8_t *p, uint64_t k) {
    for (uint64_t i = 0; i < k; i++) p[i] = (uint8_t)next(8, n, l);
}
void __sym_assume(uint8_t c) {
    if (!(c & 1)) { fprintf(stderr, "SYM-ASSUMPTION-FALSE\n"); _Exit(78); }
}
void __sym_check(uint8_t c, const char *m, uint64_t l) {
    n_checks++;
    if (!(c & 1)) {
        printf("SYM-CHECK-FAILED: %.*s\n", (int)l, m);
        fflush(stdout);
        if (!getenv("SYM_KEEP_GOING")) _Exit(77);
    }
}
void __sym_fail(const char *m, uint64_t l) { __sym_check(0, m, l); }
void __sym_cover(uint8_t c, const char *m, uint64_t l) { n_covers += (c & 1); (void)m; (void)l; }
uint64_t __sym_concretize(uint64_t v) { return v; }
void __sym_merge(uint8_t v) { (void)v; }
void __sym_real_fmt(uint8_t v) { (void)v; }
void __sym_expect_panic(uint8_t v) { expect_panic = v & 1; }
int __sym_panic_expected(void) { return expect_panic; }
uint8_t __sym_is_symbolic(void) { return 0; }
uint64_t __sym_ite64(uint8_t c, uint64_t a, uint64_t b) { return (c & 1) ? a : b; }
void __sym_trace(const char *m, uint64_t l, uint64_t v) {
    if (getenv("SYM_TRACE")) fprintf(stderr, "trace %.*s: %llx\n", (int)l, m, (unsigned long long)v);
}
void __sym_done(void) {
    printf("SYM-END inputs=%llu checks=%llu covers=%llu\n", (unsigned long long)n_in,
           (unsigned long long)n_checks, (unsigned long long)n_covers);
    fflush(stdout);
}

// replays run the real division
void __sym_set_model_div(uint8_t v) { (void)v; }
uint8_t __sym_model_div(void) { return 0; }
uint64_t __sym_uint(uint32_t kind, const uint64_t *a, const void *b, uint64_t *o, void *o2, uint64_t n) { abort(); }
void __sym_udivrem(const uint64_t *a, const uint64_t *b, uint64_t *q, uint64_t *r, uint64_t n) { abort(); }
