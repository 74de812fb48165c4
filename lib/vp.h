/* Harness vocabulary shared by the symbolic encoding (goto-cc/CBMC) and the
 * native replay (gcc with sanitizers).  A harness is a plain C file with
 * `void harness(void)` that draws inputs, assumes preconditions, calls the
 * public API of the library and asserts the property.
 *
 *   VP_U8("name") ...   symbolic input; in a replay, the next recorded value
 *   VP_ASSUME(c)        precondition
 *   VP_ASSERT(c, msg)   the property
 *   VP_OUT(v)           observation compared between model and native run
 *   VP_ALLOC(n)         fresh object of exactly n bytes, contents arbitrary
 *                       but recorded
 *
 * With -DVP_WITNESS the assertions are not checked and `assert(false)` stands at
 * the end: the solver must be able to reach it (vacuity guard). */
#ifndef VP_H
#define VP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_REPLAY
uint64_t vp_next(const char* name);
void vp_fail(const char* msg, const char* file, int line);
void vp_infeasible(const char* msg);
void vp_out(uint64_t v);
#define VP_IN(type, name) ((type)vp_next(name))
#define VP_ASSUME(c) do { if (!(c)) { vp_infeasible(#c); } } while (0)
#define VP_ASSERT(c, msg) do { if (!(c)) { vp_fail(msg, __FILE__, __LINE__); } } while (0)
#define VP_OUT(v) vp_out((uint64_t)(v))
#else
extern uint8_t nondet_vp_u8(void);
extern uint16_t nondet_vp_u16(void);
extern uint32_t nondet_vp_u32(void);
extern uint64_t nondet_vp_u64(void);
static inline uint8_t vp_in8(void) { uint8_t v = nondet_vp_u8(); __CPROVER_input("vp", v); return v; }
static inline uint16_t vp_in16(void) { uint16_t v = nondet_vp_u16(); __CPROVER_input("vp", v); return v; }
static inline uint32_t vp_in32(void) { uint32_t v = nondet_vp_u32(); __CPROVER_input("vp", v); return v; }
static inline uint64_t vp_in64(void) { uint64_t v = nondet_vp_u64(); __CPROVER_input("vp", v); return v; }
#define VP_ASSUME(c) __CPROVER_assume(c)
#ifdef VP_WITNESS
#define VP_ASSERT(c, msg) do { (void)(c); } while (0)
#define VP_OUT(v) do { uint64_t vp_o = (uint64_t)(v); __CPROVER_output("vpo", vp_o); } while (0)
#else
#define VP_ASSERT(c, msg) __CPROVER_assert((c), "VP: " msg)
#define VP_OUT(v) ((void)0)
#endif
#endif

#ifdef VP_REPLAY
#define VP_U8(name) VP_IN(uint8_t, name)
#define VP_U16(name) VP_IN(uint16_t, name)
#define VP_U32(name) VP_IN(uint32_t, name)
#define VP_U64(name) VP_IN(uint64_t, name)
#else
#define VP_U8(name) vp_in8()
#define VP_U16(name) vp_in16()
#define VP_U32(name) vp_in32()
#define VP_U64(name) vp_in64()
#endif
#define VP_BOOL(name) ((VP_U8(name) & 1U) != 0U)

/* exact-size object: one byte beyond it is a violation for CBMC and for ASan */
static inline void* vp_alloc(size_t n) {
    void* p = malloc(n);
#ifdef VP_REPLAY
    if (p == NULL) { abort(); }
    memset(p, 0xA5, n);
#else
    __CPROVER_assume(p != NULL);
#endif
    return p;
}
static inline uint8_t* vp_bytes(size_t n) {
    uint8_t* p = (uint8_t*)vp_alloc(n);
    for (size_t vp_i = 0; vp_i < n; ++vp_i) {
        p[vp_i] = VP_U8("byte");
    }
    return p;
}

void harness(void);
/* dimension of a static array that depends on a size of the query */
#ifdef VP_PICK
#define VP_DIM(n) 400
#else
#define VP_DIM(n) (n)
#endif
#ifdef VP_PICK
/* sizes that vary within one query (executor of LLVM IR only): VP_PICK gives the range of vp_n, VP_PICK2 that of vp_m;
 * every value of the range is followed on its own path */
#ifdef VP_REPLAY
static size_t vp_n;
static size_t vp_m;
extern uint64_t vp_concrete(uint64_t v);
void vp_body(void);
void harness(void) {
    const uint32_t r[] = {VP_PICK};
    const uint32_t n = VP_U32("size");
    VP_ASSUME((n >= r[0]) && (n <= r[1]));
    vp_n = (size_t)vp_concrete(n);
#ifdef VP_PICK2
    const uint32_t lo = (uint32_t)(VP_PICK2_LO);
    const uint32_t m = VP_U32("size");
    VP_ASSUME((m >= lo) && (m <= (uint32_t)(VP_PICK2)));
    vp_m = (size_t)vp_concrete(m);
#endif
    vp_body();
}
#define harness vp_body
#endif
#endif
#ifndef VP_REPLAY
int main(void) {
    harness();
#ifdef VP_WITNESS
    __CPROVER_assert(0, "VP-WITNESS");
#endif
    return 0;
}
#endif
#endif
