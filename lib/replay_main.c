/* Native replay: feeds recorded inputs to a harness linked with the real library. */
#include <inttypes.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
void harness(void);
static FILE* in;
uint64_t vp_next(const char* name) {
    uint64_t v = 0;
    if (fscanf(in, "%" SCNu64, &v) != 1) {
        printf("VP-EXHAUSTED %s\n", name);
        fflush(stdout);
        exit(43);
    }
    return v;
}
void vp_fail(const char* msg, const char* file, int line) {
    printf("VP-FAIL %s (%s:%d)\n", msg, file, line);
    fflush(stdout);
    exit(42);
}
void vp_infeasible(const char* msg) {
    printf("VP-INFEASIBLE %s\n", msg);
    fflush(stdout);
    exit(44);
}
uint64_t vp_concrete(uint64_t v) { return v; }
void vp_out(uint64_t v) { printf("VP-OUT %" PRIu64 "\n", v); }
int main(int argc, char** argv) {
    in = fopen(argc > 1 ? argv[1] : "/dev/null", "r");
    if (in == NULL) { return 45; }
    harness();
    printf("VP-DONE\n");
    return 0;
}
