/* S01 S02 S03: sorting.  N elements of ES bytes; element i carries id i in its first byte and a pattern derived from
 * the id in the others; the order is an arbitrary ranking of the ids, so every input order and every weak order occurs.
 *   HDR, FN   sort;  CHK = 1 sorted permutation, 2 comparison arguments, 3 stability */
#include "vp.h"
#include HDR

#define GUARD 2U
#define BYTE(id, j) ((uint8_t)((j) == 0U ? (id) : (uint8_t)(0x40U + (id) * 7U + (j) * 3U)))
static uint8_t rank_of[VP_DIM(N + 1)];
static uint8_t* buf;

#if CHK == 2
static bool args_ok = true;
static bool is_element(const uint8_t* p) {
    const uint32_t id = p[0];
    bool ok = (id < N);
    for (uint32_t j = 1U; j < ES; ++j) {
        ok = ok && (p[j] == BYTE(id, j));
    }
    return ok;
}
#endif
static bool greater(void* a, void* b) {
    const uint8_t x = *(const uint8_t*)a;
    const uint8_t y = *(const uint8_t*)b;
#if CHK == 2
    VP_ASSERT(is_element((const uint8_t*)a), "first argument is a complete element of the array");
    VP_ASSERT(is_element((const uint8_t*)b), "second argument is a complete element of the array");
    if (x >= N || y >= N) {
        return false;
    }
#endif
    return rank_of[x % (N + 1U)] > rank_of[y % (N + 1U)];
}

#if defined(T_SORT)
void harness(void) {
#ifdef NOGUARD
    const uint32_t g = 0U;
#else
    const uint32_t g = GUARD * ES;
#endif
    uint8_t* mem = (uint8_t*)vp_alloc(N * ES + 2U * g);
    buf = mem + g;
    for (uint32_t i = 0U; i < g; ++i) {
        mem[i] = 0xF0U;
        mem[g + N * ES + i] = 0xF1U;
    }
    for (uint32_t i = 0U; i < N; ++i) {
        for (uint32_t j = 0U; j < ES; ++j) {
            buf[i * ES + j] = BYTE(i, j);
        }
#ifdef RANK
        rank_of[i] = (uint8_t)(RANK);
#else
        rank_of[i] = VP_U8("rank");
#ifdef RMAX
        VP_ASSUME(rank_of[i] < RMAX);
#endif
#endif
    }
    FN(buf, N, ES, greater);
    for (uint32_t i = 0U; i < N; ++i) {
        VP_OUT(buf[i * ES]);
    }
#if CHK == 1
    bool seen[N + 1];
    for (uint32_t i = 0U; i < N; ++i) {
        seen[i] = false;
    }
    for (uint32_t i = 0U; i < N; ++i) {
        const uint8_t id = buf[i * ES];
        VP_ASSERT(id < N, "only original elements in the result");
        for (uint32_t j = 1U; j < ES; ++j) {
            VP_ASSERT(buf[i * ES + j] == BYTE(id, j), "elements are preserved byte for byte");
        }
        if (id < N) {
            VP_ASSERT(!seen[id], "no element twice");
            seen[id] = true;
        }
    }
    for (uint32_t i = 1U; i < N; ++i) {
        VP_ASSERT(rank_of[buf[(i - 1U) * ES] % (N + 1U)] <= rank_of[buf[i * ES] % (N + 1U)], "result is sorted");
    }
    for (uint32_t i = 0U; i < g; ++i) {
        VP_ASSERT((mem[i] == 0xF0U) && (mem[g + N * ES + i] == 0xF1U), "bytes outside the array are not changed");
    }
#elif CHK == 3
    for (uint32_t i = 1U; i < N; ++i) {
        const uint8_t a = buf[(i - 1U) * ES];
        const uint8_t b = buf[i * ES];
        VP_ASSERT((rank_of[a % (N + 1U)] != rank_of[b % (N + 1U)]) || (a < b), "equal elements keep their original order");
    }
#endif
}
#elif defined(T_VALUES)
/* arbitrary element bytes, compared as big-endian numbers (DESC: descending); equal elements occur */
static uint32_t value(const uint8_t* p) {
    uint32_t v = 0U;
    for (uint32_t j = 0U; j < ES; ++j) {
        v = (v << 8U) | p[j];
    }
    return v;
}
static bool cmp_value(void* a, void* b) {
#ifdef DESC
    return value((const uint8_t*)a) < value((const uint8_t*)b);
#else
    return value((const uint8_t*)a) > value((const uint8_t*)b);
#endif
}
void harness(void) {
    buf = vp_bytes(N * ES);
    uint32_t orig[N + 1];
    for (uint32_t i = 0U; i < N; ++i) {
        orig[i] = value(&buf[i * ES]);
    }
    FN(buf, N, ES, cmp_value);
    for (uint32_t i = 1U; i < N; ++i) {
#ifdef DESC
        VP_ASSERT(value(&buf[(i - 1U) * ES]) >= value(&buf[i * ES]), "result is sorted");
#else
        VP_ASSERT(value(&buf[(i - 1U) * ES]) <= value(&buf[i * ES]), "result is sorted");
#endif
    }
    for (uint32_t i = 0U; i < N; ++i) {
        uint32_t before = 0U;
        uint32_t after = 0U;
        for (uint32_t k = 0U; k < N; ++k) {
            before += (orig[k] == orig[i]) ? 1U : 0U;
            after += (value(&buf[k * ES]) == orig[i]) ? 1U : 0U;
        }
        VP_ASSERT(before == after, "result is a permutation of the original");
        VP_OUT(value(&buf[i * ES]));
    }
}
#elif defined(T_BIG)
/* N numbered elements (ES bytes each), nearly sorted: element at FROMPOS belongs to the place given by an
 * arbitrary key */
static uint32_t key_of[VP_DIM(N)];
#ifdef PROBEAT
static uint8_t tail;
#endif
#ifndef VP_PICK
#define WIDE (N > 65536)
#endif
#if defined(WIDE) && WIDE
#define IDB 3U
static uint32_t num(const uint8_t* p) { return (uint32_t)p[0] | ((uint32_t)p[1] << 8U) | ((uint32_t)p[2] << 16U); }
#else
#define IDB 2U
static uint32_t num(const uint8_t* p) { return (uint32_t)p[0] | ((uint32_t)p[1] << 8U); }
#endif
static bool cmp_key(void* a, void* b) {
    const uint32_t x = num((const uint8_t*)a);
    const uint32_t y = num((const uint8_t*)b);
    return ((x < N) && (y < N)) ? (key_of[x] > key_of[y]) : false;
}
void harness(void) {
    buf = (uint8_t*)vp_alloc(N * ES);
    for (uint32_t i = 0U; i < N; ++i) {
        for (uint32_t j = IDB; j < ES; ++j) {
            buf[i * ES + j] = (uint8_t)(i + j);
        }
        buf[i * ES] = (uint8_t)i;
        buf[i * ES + 1U] = (uint8_t)(i >> 8U);
        if (IDB > 2U) {
            buf[i * ES + IDB - 1U] = (uint8_t)(i >> 16U);
        }
        key_of[i] = KEY;
    }
#ifdef PROBEAT
    /* the key of one element is any of KEYMASK + 1 neighbouring values, its last byte arbitrary */
    key_of[PROBEAT] += VP_U8("key") & KEYMASK;
    if (ES > IDB) {
        tail = VP_U8("tail");
        buf[(PROBEAT + 1U) * ES - 1U] = tail;
    }
#endif
    FN(buf, N, ES, cmp_key);
    static bool seen[VP_DIM(N)];
    for (uint32_t i = 0U; i < N; ++i) {
        const uint32_t x = num(&buf[i * ES]);
        VP_ASSERT((x < N) && !seen[x % N], "result is a permutation of the original");
        seen[x % N] = true;
        if (i > 0U) {
            const uint32_t w = num(&buf[(i - 1U) * ES]);
            VP_ASSERT(key_of[w % N] <= key_of[x % N], "result is sorted");
#ifdef STABLE
            VP_ASSERT((key_of[w % N] != key_of[x % N]) || (w < x), "equal elements keep their original order");
#endif
        }
        for (uint32_t j = IDB; j < ES; ++j) {
#ifdef PROBEAT
            if ((x == PROBEAT) && (j == ES - 1U)) {
                VP_ASSERT(buf[i * ES + j] == tail, "elements are preserved byte for byte");
                continue;
            }
#endif
            VP_ASSERT(buf[i * ES + j] == (uint8_t)(x + j), "elements are preserved byte for byte");
        }
    }
    VP_OUT(num(buf));
}
#endif
