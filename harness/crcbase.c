/* C03 C04: generic CRC engines, W = 8, 16 or 32 */
#include "vp.h"
#if W == 8
#include "crc8_base.h"
typedef uint8_t crc_t;
#define GEN Crc8Base_tableCalculator
#define ENGINE Crc8Base
#elif W == 16
#include "crc16_base.h"
typedef uint16_t crc_t;
#define GEN Crc16Base_tableCalculator
#define ENGINE Crc16Base
#else
#include "crc32_base.h"
typedef uint32_t crc_t;
#define GEN Crc32Base_tableCalculator
#define ENGINE Crc32Base
#endif

static crc_t in_reg(void) {
#if W == 8
    return VP_U8("reg");
#elif W == 16
    return VP_U16("reg");
#else
    return VP_U32("reg");
#endif
}
static uint8_t rev8(uint8_t b) {
    uint8_t r = 0U;
    for (int i = 0; i < 8; ++i) {
        r = (uint8_t)((r << 1) | ((b >> i) & 1U));
    }
    return r;
}
static crc_t rev_reg(crc_t v) {
    crc_t r = 0U;
    for (int i = 0; i < W; ++i) {
        r = (crc_t)((crc_t)(r << 1) | ((v >> i) & 1U));
    }
    return r;
}
static crc_t divide(crc_t reg, crc_t poly) { /* eight division steps */
    for (int i = 0; i < 8; ++i) {
        const crc_t top = (crc_t)(reg >> (W - 1));
#ifdef ITE
        if (top == 0U) {
            reg = (crc_t)(reg << 1);
        } else {
            reg = (crc_t)((crc_t)(reg << 1) ^ poly);
        }
#else
        reg = (crc_t)((crc_t)(reg << 1) ^ ((top != 0U) ? poly : 0U));
#endif
    }
    return reg;
}

#if defined(T_TABLE)
/* every polynomial; entries FROM..TO-1 are compared here */
void harness(void) {
    const crc_t poly = in_reg();
    crc_t* t = (crc_t*)vp_alloc(sizeof(crc_t) * 258U);
    const crc_t before = in_reg();
    const crc_t after = in_reg();
    t[0] = before;
    t[257] = after;
    GEN(poly, &t[1]);
    VP_ASSERT(t[0] == before && t[257] == after, "generator writes only the 256 entries");
    for (uint32_t i = FROM; i < TO; ++i) {
        VP_ASSERT(t[1U + i] == divide((crc_t)((crc_t)i << (W - 8)), poly), "table entry is the remainder of index * x^(width)");
    }
    VP_OUT(t[1U + FROM]);
}
#elif defined(T_TABLE_EXACT)
/* exact-size table object, canary-free: any write or read beyond it is an error; all entries are written */
void harness(void) {
    crc_t* t = (crc_t*)vp_alloc(sizeof(crc_t) * 256U);
    const crc_t poly = in_reg();
    const uint8_t i = VP_U8("index");
    t[i] = in_reg();
    GEN(poly, t);
    VP_OUT(t[0]);
    VP_ASSERT(t[0] == 0U && t[1] == divide((crc_t)((crc_t)1U << (W - 8)), poly), "first entries");
}
#elif defined(T_GENUSE)
/* generated table used by the engine: equals bit-by-bit division (polynomial symbolic, or POLY) */
void harness(void) {
    crc_t* t = (crc_t*)vp_alloc(sizeof(crc_t) * 256U);
#ifdef POLY
    const crc_t poly = (crc_t)POLY;
#else
    const crc_t poly = in_reg();
#endif
    GEN(poly, t);
    const crc_t init = in_reg();
    uint8_t* m = vp_bytes(N);
    crc_t reg = init;
    for (uint32_t k = 0U; k < N; ++k) {
        reg = divide((crc_t)(reg ^ (crc_t)((crc_t)m[k] << (W - 8))), poly);
    }
    VP_ASSERT(ENGINE(t, m, N, init, 0U, false, false, false) == reg, "generated table gives the bitwise CRC");
    VP_OUT(reg);
}
#elif defined(T_ENGINE)
/* arbitrary table and parameters, N message bytes (PRE fixed bytes in front), all eight switch combinations */
void harness(void) {
    crc_t* t = (crc_t*)vp_alloc(sizeof(crc_t) * 256U);
    crc_t copy[256];
    for (uint32_t i = 0U; i < 256U; ++i) {
#ifdef FIXTAB
        t[i] = (crc_t)((i * 0x9E3779B1U) ^ (i << 3) ^ 0x5BU);
#else
        t[i] = in_reg();
#endif
        copy[i] = t[i];
    }
    uint8_t* m = (uint8_t*)vp_alloc(PRE + N);
    uint8_t mc[PRE + N + 1];
    for (uint32_t i = 0U; i < PRE + N; ++i) {
        m[i] = (i < PRE) ? (uint8_t)(i * 7U) : VP_U8("m");
        mc[i] = m[i];
    }
#ifdef RI
    const crc_t init = (crc_t)0x3C96A5E1U;
    const bool ri = (RI != 0);
#else
    const crc_t init = in_reg();
    const bool ri = VP_BOOL("reflected_input");
#endif
    const crc_t fx = in_reg();
    const bool ro = VP_BOOL("reflected_output");
    const bool x = VP_BOOL("final_xor");
    crc_t reg = init;
    for (uint32_t k = 0U; k < PRE + N; ++k) {
        const uint8_t b = ri ? rev8(m[k]) : m[k];
        const uint8_t idx = (uint8_t)((uint8_t)(reg >> (W - 8)) ^ b);
#if W == 8
        reg = t[idx];
#else
        reg = (crc_t)((crc_t)(reg << 8) ^ t[idx]);
#endif
    }
    if (ro) {
        reg = rev_reg(reg);
    }
    if (x) {
        reg ^= fx;
    }
    const crc_t r = ENGINE(t, m, PRE + N, init, fx, ro, ri, x);
    VP_ASSERT(r == reg, "engine returns the table-driven CRC of the message");
    for (uint32_t i = 0U; i < 256U; ++i) {
        VP_ASSERT(t[i] == copy[i], "table is not modified");
    }
    for (uint32_t i = 0U; i < PRE + N; ++i) {
        VP_ASSERT(m[i] == mc[i], "message is not modified");
    }
    VP_OUT(r);
}
#endif
