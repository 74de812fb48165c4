/* C01 C02 C05: one CRC variant, described by its published catalogue parameters
 *   HDR, FN       header and function
 *   W             width (8, 16, 32)
 *   POLY, INIT, REFIN, REFOUT, XOROUT */
#include "vp.h"
#include HDR

#if W == 8
typedef uint8_t crc_t;
#elif W == 16
typedef uint16_t crc_t;
#else
typedef uint32_t crc_t;
#endif

/* variants without final step have no such argument */
#ifdef NOFINAL
#define CALL(m, n, f, prev) FN(m, n, prev)
#else
#define CALL(m, n, f, prev) FN(m, n, f, prev)
#endif

static crc_t reflect_reg(crc_t v) {
    crc_t r = 0;
    for (int i = 0; i < W; ++i) {
        if (((v >> i) & 1U) != 0U) {
            r |= (crc_t)((crc_t)1U << (W - 1 - i));
        }
    }
    return r;
}
/* bit-by-bit division, most significant bit first */
static crc_t spec_byte(crc_t reg, uint8_t b) {
    for (int i = 0; i < 8; ++i) {
        const uint32_t in = (REFIN) ? ((uint32_t)(b >> i) & 1U) : ((uint32_t)(b >> (7 - i)) & 1U);
        const uint32_t top = ((uint32_t)(reg >> (W - 1)) & 1U) ^ in;
        reg = (crc_t)(reg << 1);
        if (top != 0U) {
            reg ^= (crc_t)POLY;
        }
    }
    return reg;
}
static crc_t spec_final(crc_t reg) {
    return (crc_t)(((REFOUT) ? reflect_reg(reg) : reg) ^ (crc_t)XOROUT);
}

#if defined(T_MSG)
/* every message of LO..HI bytes */
void harness(void) {
    for (uint32_t n = LO; n <= HI; ++n) {
        uint8_t* m = vp_bytes(n);
        uint8_t copy[HI + 1];
        crc_t reg = (crc_t)INIT;
        for (uint32_t i = 0U; i < n; ++i) {
            copy[i] = m[i];
            reg = spec_byte(reg, m[i]);
        }
        crc_t r = CALL(m, n, true, NULL_PTR);
        VP_ASSERT(r == spec_final(reg), "checksum is the published CRC of the message");
        for (uint32_t i = 0U; i < n; ++i) {
            VP_ASSERT(m[i] == copy[i], "message is not modified");
        }
        VP_OUT(r);
    }
}
#elif defined(T_LONG)
/* LEN bytes: fixed prefix, the last SYM bytes arbitrary */
void harness(void) {
    uint8_t* m = (uint8_t*)vp_alloc(LEN);
    crc_t reg = (crc_t)INIT;
    for (uint32_t i = 0U; i < LEN; ++i) {
        m[i] = (i + SYM >= LEN) ? VP_U8("m") : (uint8_t)((i * 11U) ^ (i >> 8U));
        reg = spec_byte(reg, m[i]);
    }
    crc_t r = CALL(m, LEN, true, NULL_PTR);
    VP_ASSERT(r == spec_final(reg), "checksum of a long message is the published CRC");
    VP_OUT(r);
}
#elif defined(T_CHUNK)
/* every message of N bytes, cut at A and B (A <= B <= N) */
void harness(void) {
    uint8_t* m = vp_bytes(N);
    uint8_t copy[N + 1];
    memcpy(copy, m, N);
    const crc_t whole = CALL(m, N, true, NULL_PTR);
    crc_t v1 = CALL(m, A, false, NULL_PTR);
    const crc_t keep1 = v1;
    crc_t v2 = CALL(&m[A], B - A, false, &v1);
    const crc_t keep2 = v2;
    const crc_t r = CALL(&m[B], N - B, true, &v2);
    VP_ASSERT(v1 == keep1 && v2 == keep2, "previous value is not modified");
    VP_ASSERT(r == whole, "CRC in chunks equals CRC of the whole message");
    for (uint32_t i = 0U; i < N; ++i) {
        VP_ASSERT(m[i] == copy[i], "message is not modified");
    }
    VP_OUT(whole);
}
#elif defined(T_INTER)
/* two messages of two bytes computed alternately, a finished one in between */
void harness(void) {
    uint8_t* m = vp_bytes(2);
    uint8_t* o = vp_bytes(2);
    const crc_t wm = CALL(m, 2U, true, NULL_PTR);
    const crc_t wo = CALL(o, 2U, true, NULL_PTR);
    crc_t vm = CALL(m, 1U, false, NULL_PTR);
    crc_t vo = CALL(o, 1U, false, NULL_PTR);
    const crc_t x = CALL(&m[1], 1U, true, NULL_PTR);
    const crc_t rm = CALL(&m[1], 1U, true, &vm);
    const crc_t ro = CALL(&o[1], 1U, true, &vo);
    VP_ASSERT(rm == wm, "interleaved CRC is not influenced");
    VP_ASSERT(ro == wo, "interleaved CRC is not influenced");
    VP_OUT(x);
    VP_OUT(rm);
    VP_OUT(ro);
}
#elif defined(T_CHUNKS_BYTEWISE)
/* N bytes given one by one, with an empty chunk after each */
void harness(void) {
    uint8_t* m = vp_bytes(N);
    const crc_t whole = CALL(m, N, true, NULL_PTR);
    crc_t v = CALL(m, 0U, false, NULL_PTR);
    for (uint32_t i = 0U; i < N; ++i) {
        v = CALL(&m[i], 1U, false, &v);
        v = CALL(m, 0U, false, &v);
    }
    v = CALL(m, 0U, true, &v);
    VP_ASSERT(v == whole, "CRC byte by byte equals CRC of the whole message");
    VP_OUT(v);
}
#elif defined(T_CHUNK_LONG)
/* long message (fixed prefix, symbolic tail), symbolic position of the split among the last bytes */
void harness(void) {
    uint8_t* m = (uint8_t*)vp_alloc(LEN);
    for (uint32_t i = 0U; i < LEN; ++i) {
        m[i] = (i + SYM >= LEN) ? VP_U8("m") : (uint8_t)((i * 13U) ^ (i >> 8U));
    }
    const crc_t whole = CALL(m, LEN, true, NULL_PTR);
    crc_t p = CALL(m, CUT, false, NULL_PTR);
    crc_t r = CALL(&m[CUT], LEN - CUT, true, &p);
    VP_ASSERT(r == whole, "CRC of a long message in two chunks equals CRC of the whole message");
    VP_OUT(r);
}
#elif defined(T_BURST)
/* N arbitrary bytes; a burst of up to W bits starting at bit P of the message (in the order the bits enter the CRC) */
void harness(void) {
    uint8_t* m = vp_bytes(N);
    uint8_t* d = (uint8_t*)vp_alloc(N);
    uint64_t e = VP_U32("error");
#if W < 32
    e &= ((uint64_t)1U << W) - 1U;
#endif
#if (8 * N - P) < 32
    e &= ((uint64_t)1U << (8U * N - P)) - 1U; /* the burst lies within the message */
#endif
    VP_ASSUME(e != 0U);
    for (uint32_t i = 0U; i < N; ++i) {
        uint8_t x = 0U;
        for (uint32_t b = 0U; b < 8U; ++b) {
            const uint32_t s = i * 8U + b;
            if ((s >= P) && (s - P < W) && (((e >> (s - P)) & 1U) != 0U)) {
                x |= (uint8_t)(1U << ((REFIN) ? b : (7U - b)));
            }
        }
        d[i] = m[i] ^ x;
    }
    const crc_t a = CALL(m, N, true, NULL_PTR);
    const crc_t c = CALL(d, N, true, NULL_PTR);
    VP_OUT(a);
    VP_OUT(c);
    VP_ASSERT(a != c, "a burst of errors no longer than the checksum changes the checksum");
}
#endif
