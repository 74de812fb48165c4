/* U01..U05: serialization, blobs, string conversion, character classes, swap */
#include "vp.h"
#include "utils.h"

#if defined(T_SER)
/* BITS 8/16/24/32, ORDER 0 = little endian, 1 = big endian */
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#if BITS == 8
#define SER Utils_serialize8
#define DES Utils_deserialize8
#elif ORDER == 1
#define SER CAT(Utils_serialize, BITS, BE)
#define DES CAT(Utils_deserialize, BITS, BE)
#else
#define SER CAT(Utils_serialize, BITS, LE)
#define DES CAT(Utils_deserialize, BITS, LE)
#endif
#define NB (BITS / 8)
static uint32_t pos(uint32_t i) { return (ORDER == 1) ? (NB - 1U - i) : i; } /* byte i (least significant first) lives here */
void harness(void) {
    uint8_t* buf = vp_bytes(NB);
#if BITS == 8
    uint8_t v = VP_U8("v");
#elif BITS == 16
    uint16_t v = VP_U16("v");
#else
    uint32_t v = VP_U32("v");
#endif
    uint8_t orig[NB];
    memcpy(orig, buf, NB);
    uint32_t den = 0U;
    for (uint32_t i = 0U; i < NB; ++i) {
        den += (uint32_t)orig[pos(i)] << (8U * i);
    }
    uint32_t d0 = (uint32_t)DES(buf);
    VP_ASSERT(d0 == den, "deserializing yields the value the bytes denote");
    for (uint32_t i = 0U; i < NB; ++i) {
        VP_ASSERT(buf[i] == orig[i], "deserializing does not modify the bytes");
    }
    SER(buf, v);
    for (uint32_t i = 0U; i < NB; ++i) {
        VP_ASSERT(buf[pos(i)] == (uint8_t)((uint32_t)v >> (8U * i)), "serialized bytes are in the stated order");
    }
    uint32_t mask = (BITS == 32) ? 0xFFFFFFFFU : ((1U << (BITS % 32)) - 1U);
    VP_ASSERT((uint32_t)DES(buf) == ((uint32_t)v & mask), "round trip value -> bytes -> value");
    SER(buf, d0);
    for (uint32_t i = 0U; i < NB; ++i) {
        VP_ASSERT(buf[i] == orig[i], "round trip bytes -> value -> bytes");
    }
    /* unaligned position inside a larger buffer: neighbours stay */
    uint8_t big[NB + 2];
    uint8_t g0 = VP_U8("g0"), g1 = VP_U8("g1");
    memset(big, 0, sizeof(big));
    big[0] = g0;
    big[NB + 1] = g1;
    SER(&big[1], v);
    VP_ASSERT(big[0] == g0 && big[NB + 1] == g1, "serializing writes nothing else");
    VP_ASSERT((uint32_t)DES(&big[1]) == ((uint32_t)v & mask), "round trip at an odd address");
    VP_OUT(d0);
    for (uint32_t i = 0U; i < NB; ++i) { VP_OUT(big[1 + i]); }
}
#elif defined(T_BLOB)
/* SIZE bytes, all symbolic unless SPARSE: then only every SPARSE-th byte is */
#ifndef SPARSE
#define SPARSE 1
#endif
static void check(void (*f)(byte_t*, const byte_t*, uint32_t), uint8_t* dst, const uint8_t* src, const uint8_t* copy, bool rev) {
    dst[0] = 0xC3U;
    dst[SIZE + 1U] = 0x3CU;
    f(&dst[1], src, SIZE);
    for (uint32_t i = 0U; i < SIZE; ++i) {
        VP_ASSERT(dst[1U + i] == copy[rev ? (SIZE - 1U - i) : i], "blob is copied in the stated byte order");
        VP_ASSERT(src[i] == copy[i], "source blob is not modified");
    }
    VP_ASSERT(dst[0] == 0xC3U && dst[SIZE + 1U] == 0x3CU, "blob functions write only the given number of bytes");
}
static void des_be(byte_t* d, const byte_t* s, uint32_t n) { Utils_deserializeBlobBE(s, d, n); }
static void des_le(byte_t* d, const byte_t* s, uint32_t n) { Utils_deserializeBlobLE(s, d, n); }
static void ser_be(byte_t* d, const byte_t* s, uint32_t n) { Utils_serializeBlobBE(d, s, n); }
static void ser_le(byte_t* d, const byte_t* s, uint32_t n) { Utils_serializeBlobLE(d, s, n); }
void harness(void) {
    uint8_t* src = (uint8_t*)vp_alloc(SIZE);
    uint8_t* copy = (uint8_t*)vp_alloc(SIZE);
    uint8_t* dst = (uint8_t*)vp_alloc(SIZE + 2U);
    memset(dst, 0x55, SIZE + 2U);
    for (uint32_t i = 0U; i < SIZE; ++i) {
        src[i] = (((i % SPARSE) == 0U) || (i + 3U >= SIZE)) ? VP_U8("b") : (uint8_t)((i * 7U) ^ (i >> 8U) ^ (i >> 16U));
        copy[i] = src[i];
    }
#if MODE == 0
    check(ser_be, dst, src, copy, false);
#elif MODE == 1
    check(ser_le, dst, src, copy, true);
#elif MODE == 2
    check(des_be, dst, src, copy, false);
#else
    check(des_le, dst, src, copy, true);
#endif
    VP_OUT(dst[0]); VP_OUT(dst[SIZE / 2U]);
}
#elif defined(T_STR)
/* exactly LEN characters, no terminator */
void harness(void) {
    uint8_t* s = vp_bytes(LEN);
    uint32_t out = VP_U32("old");
    bool ok = Utils_stringToUint32((const char*)s, LEN, &out);
    bool digits = true;
    uint64_t v = 0U;
    for (uint32_t i = 0U; i < LEN; ++i) {
        if (s[i] < (uint8_t)'0' || s[i] > (uint8_t)'9') {
            digits = false;
        }
#if !defined(REF_SUM)
        /* the number written, evaluated left to right */
        if (i < 10U) {
            v = (v * 10U) + (uint64_t)(uint8_t)(s[i] - (uint8_t)'0');
        }
#endif
    }
#if defined(REF_SUM)
    /* the same number as a sum of digit times power of ten (an equivalent statement that is
     * easier for the solver when the code sums too; which one is used does not matter) */
    {
        static const uint32_t p10[9] = {1U, 10U, 100U, 1000U, 10000U, 100000U, 1000000U, 10000000U, 100000000U};
        uint32_t head = 0U;
        const uint32_t n = (LEN > 9U) ? 9U : LEN;
        for (uint32_t i = 0U; i < n; ++i) {
            head += (uint32_t)(uint8_t)(s[i] - (uint8_t)'0') * p10[n - 1U - i];
        }
        v = head;
        if (LEN > 9U) {
            v = ((uint64_t)head * 10U) + (uint64_t)(uint8_t)(s[9] - (uint8_t)'0');
        }
    }
#endif
    bool want = digits && (LEN <= 10U) && (v <= 0xFFFFFFFFULL);
    VP_ASSERT(ok == want, "conversion succeeds exactly for 1-10 digits that fit in 32 bits");
    if (ok) {
        VP_ASSERT((uint64_t)out == v, "converted value is the number written");
    }
    VP_OUT(ok);
    if (ok) { VP_OUT(out); }
}
#elif defined(T_POW)
void harness(void) {
    uint8_t e = VP_U8("e");
    uint32_t old = VP_U32("old");
    uint32_t r = old;
    bool ok = Utils_quickUint32Pow10(e, &r);
    uint32_t want = 1U;
    for (uint32_t i = 0U; i < 9U; ++i) {
        if (i < e) {
            want *= 10U;
        }
    }
    VP_ASSERT(ok == (e <= 9U), "power of ten succeeds exactly for exponents 0-9");
    VP_ASSERT(r == (ok ? want : old), "power of ten is exact, or the result is left alone");
    VP_OUT(ok); VP_OUT(r);
}
#elif defined(T_CHARS)
void harness(void) {
    char c = (char)VP_U8("c");
    const bool up = (c >= 'A') && (c <= 'Z');
    const bool lo = (c >= 'a') && (c <= 'z');
    VP_ASSERT(Utils_isUpperChar(c) == up, "upper-case test");
    VP_ASSERT(Utils_isLowerChar(c) == lo, "lower-case test");
    VP_ASSERT(Utils_isAlpha(c) == (up || lo), "letter test");
    VP_OUT(Utils_isAlpha(c));
}
#elif defined(T_SWAP)
#ifndef SPARSE
#define SPARSE 1
#endif
void harness(void) {
    uint8_t* buf = (uint8_t*)vp_alloc((2U * SIZE) + 3U);
    uint8_t* copy = (uint8_t*)vp_alloc((2U * SIZE) + 3U);
    for (uint32_t i = 0U; i < (2U * SIZE) + 3U; ++i) {
        buf[i] = (((i % SPARSE) == 0U) || (i + 4U >= 2U * SIZE)) ? VP_U8("b") : (uint8_t)((i * 5U) ^ (i >> 8U));
        copy[i] = buf[i];
    }
    /* layout: guard, A, guard, B, guard */
    uint8_t* a = &buf[1];
    uint8_t* b = &buf[SIZE + 2U];
#ifdef SELF
    Utils_swapElements(a, a, SIZE);
    for (uint32_t i = 0U; i < (2U * SIZE) + 3U; ++i) {
        VP_ASSERT(buf[i] == copy[i], "swapping an element with itself changes nothing");
    }
#else
#ifdef REV
    Utils_swapElements(b, a, SIZE);
#else
    Utils_swapElements(a, b, SIZE);
#endif
    for (uint32_t i = 0U; i < SIZE; ++i) {
        VP_ASSERT(a[i] == copy[SIZE + 2U + i], "first element holds the second one's bytes");
        VP_ASSERT(b[i] == copy[1U + i], "second element holds the first one's bytes");
    }
    VP_ASSERT(buf[0] == copy[0] && buf[SIZE + 1U] == copy[SIZE + 1U] && buf[(2U * SIZE) + 2U] == copy[(2U * SIZE) + 2U],
              "swap touches nothing else");
#endif
    VP_OUT(buf[1]);
}
#endif
