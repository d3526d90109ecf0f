/* Native side of the symbolic interface: inputs are read from a file, assertions are checked. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *f;
void sym_open(const char *p) {
    f = fopen(p, "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", p); exit(21); }
}
static uint64_t next(void) {
    char line[4096];
    while (f && fgets(line, sizeof line, f)) {
        if (line[0] == '#' || line[0] == '\n') continue;
        return strtoull(line, 0, 16);
    }
    return 0;
}
uint64_t sym_bits(const char *n, uint64_t l, uint32_t w) {
    uint64_t v = next();
    return w >= 64 ? v : v & (((uint64_t)1 << w) - 1);
}
uint64_t sym_range(const char *n, uint64_t l, uint64_t lo, uint64_t hi) {
    uint64_t v = next();
    if (v < lo || v > hi) { fflush(stdout); _Exit(20); }
    return v;
}
void sym_assume(_Bool b) { if (!b) { fflush(stdout); _Exit(20); } }
void sym_assert(_Bool b, const char *n, uint64_t l) {
    if (!b) { printf("ASSERT-FAIL %.*s\n", (int)l, n); fflush(stdout); _Exit(10); }
}
void sym_reach(const char *n, uint64_t l) {}
void sym_require(const char *n, uint64_t l) {}
void sym_observe(uint64_t v) { printf("OBS %llx\n", (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_may_wait(void) {}
_Bool sym_is_engine(void) { return 0; }
