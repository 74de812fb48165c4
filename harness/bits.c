/* R01 R02 R03: single-bit operations, reflection, rotation */
#include "vp.h"
#include "bit_manipulation.h"

#if defined(T_BIT)
void harness(void) {
    uint32_t data = VP_U32("data");
    uint8_t n = VP_U8("n");
    uint32_t before = VP_U32("before");
    bool b_before = VP_BOOL("b_before");
    bool bit = b_before;
    uint32_t s = before, c = before, t = before;
    bool r1 = BitManipulation_bitSet(data, n, &bit);
    bool r2 = BitManipulation_setBit(data, n, &s);
    bool r3 = BitManipulation_clearBit(data, n, &c);
    bool r4 = BitManipulation_toggleBit(data, n, &t);
    bool in = (n < 32U);
    VP_ASSERT(r1 == in && r2 == in && r3 == in && r4 == in, "bit operations succeed exactly for positions 0-31");
    if (in) {
        VP_ASSERT(bit == (((data >> n) & 1U) == 1U), "bit test reports the bit");
        for (uint32_t i = 0U; i < 32U; ++i) {
            uint32_t old = (data >> i) & 1U;
            uint32_t ws = (i == n) ? 1U : old;
            uint32_t wc = (i == n) ? 0U : old;
            uint32_t wt = (i == n) ? (1U - old) : old;
            VP_ASSERT(((s >> i) & 1U) == ws, "set affects exactly the addressed bit");
            VP_ASSERT(((c >> i) & 1U) == wc, "clear affects exactly the addressed bit");
            VP_ASSERT(((t >> i) & 1U) == wt, "toggle affects exactly the addressed bit");
        }
    } else {
        VP_ASSERT(bit == b_before && s == before && c == before && t == before, "failed bit operation leaves the output alone");
    }
    VP_OUT(bit); VP_OUT(s); VP_OUT(c); VP_OUT(t);
}
#elif defined(T_BIT_ALIAS)
/* the output may be the variable the data came from */
void harness(void) {
    uint32_t data = VP_U32("data");
    uint8_t n = VP_U8("n");
    VP_ASSUME(n < 32U);
    uint32_t x = data;
    (void)BitManipulation_setBit(x, n, &x);
    VP_ASSERT(x == (data | (1U << n)), "set in place");
    (void)BitManipulation_clearBit(x, n, &x);
    VP_ASSERT(x == (data & ~(1U << n)), "clear in place");
    (void)BitManipulation_toggleBit(x, n, &x);
    VP_ASSERT(x == (data | (1U << n)), "toggle in place");
    VP_OUT(x);
}
#elif defined(T_REFLECT)
void harness(void) {
    uint32_t data = VP_U32("data");
    uint8_t n = VP_U8("n");
    VP_ASSUME(n <= 32U);
    uint32_t r = BitManipulation_reflect(data, n);
    for (uint32_t i = 0U; i < 32U; ++i) {
        uint32_t want = (i < n) ? ((data >> (n - 1U - i)) & 1U) : 0U;
        VP_ASSERT(((r >> i) & 1U) == want, "reflection reverses the low bits and clears the others");
    }
    uint32_t rr = BitManipulation_reflect(r, n);
    uint32_t mask = (n == 32U) ? 0xFFFFFFFFU : ((1U << n) - 1U);
    VP_ASSERT(rr == (data & mask), "reflecting twice gives the low bits back");
    VP_OUT(r);
}
#elif defined(T_ROTL)
void harness(void) {
    uint32_t data = VP_U32("data");
    uint32_t n = VP_U32("n");
    VP_ASSUME(n <= 32U);
    uint32_t r = BitManipulation_rotl32(data, n);
    for (uint32_t i = 0U; i < 32U; ++i) {
        VP_ASSERT(((r >> ((i + n) & 31U)) & 1U) == ((data >> i) & 1U), "rotation moves bit i to bit i+n mod 32");
    }
    VP_OUT(r);
}
#endif
