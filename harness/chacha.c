/* K01 K02: ChaCha20 against a straight transcription of RFC 8439, and relations between calls.
 * SYMK/SYMN/SYMC choose which of key, nonce, counter are arbitrary (else fixed values). */
#include "vp.h"
#include "chacha20.h"

#ifndef CTR
#define CTR 0xFFFFFFFEU
#endif

static uint32_t rotl(uint32_t v, unsigned n) {
    return (v << n) | (v >> (32U - n));
}
#define QR(a, b, c, d) \
    s[a] += s[b]; s[d] = rotl(s[d] ^ s[a], 16U); \
    s[c] += s[d]; s[b] = rotl(s[b] ^ s[c], 12U); \
    s[a] += s[b]; s[d] = rotl(s[d] ^ s[a], 8U);  \
    s[c] += s[d]; s[b] = rotl(s[b] ^ s[c], 7U)

static void spec_block(const uint8_t key[32], const uint8_t nonce[12], uint32_t counter, uint8_t out[64]) {
    uint32_t in[16];
    uint32_t s[16];
    in[0] = 0x61707865U;
    in[1] = 0x3320646eU;
    in[2] = 0x79622d32U;
    in[3] = 0x6b206574U;
    for (int i = 0; i < 8; ++i) {
        in[4 + i] = (uint32_t)key[4 * i] | ((uint32_t)key[4 * i + 1] << 8) | ((uint32_t)key[4 * i + 2] << 16) | ((uint32_t)key[4 * i + 3] << 24);
    }
    in[12] = counter;
    for (int i = 0; i < 3; ++i) {
        in[13 + i] = (uint32_t)nonce[4 * i] | ((uint32_t)nonce[4 * i + 1] << 8) | ((uint32_t)nonce[4 * i + 2] << 16) | ((uint32_t)nonce[4 * i + 3] << 24);
    }
    for (int i = 0; i < 16; ++i) {
        s[i] = in[i];
    }
    for (int r = 0; r < 10; ++r) {
        QR(0, 4, 8, 12);
        QR(1, 5, 9, 13);
        QR(2, 6, 10, 14);
        QR(3, 7, 11, 15);
        QR(0, 5, 10, 15);
        QR(1, 6, 11, 12);
        QR(2, 7, 8, 13);
        QR(3, 4, 9, 14);
    }
    for (int i = 0; i < 16; ++i) {
        const uint32_t v = s[i] + in[i];
        out[4 * i] = (uint8_t)v;
        out[4 * i + 1] = (uint8_t)(v >> 8);
        out[4 * i + 2] = (uint8_t)(v >> 16);
        out[4 * i + 3] = (uint8_t)(v >> 24);
    }
}

static uint8_t* key, *nonce;
static uint8_t key_copy[32], nonce_copy[12];
static uint32_t ctr;

static void params(void) {
    key = (uint8_t*)vp_alloc(32);
    nonce = (uint8_t*)vp_alloc(12);
    for (uint32_t i = 0U; i < 32U; ++i) {
#ifdef SYMK
        key[i] = (i >= 4U * (SYMK) && i < 4U * (SYMK) + 4U * (SYMKN)) ? VP_U8("key") : (uint8_t)(i * 37U + 5U);
#else
        key[i] = (uint8_t)(i * 37U + 5U);
#endif
        key_copy[i] = key[i];
    }
    for (uint32_t i = 0U; i < 12U; ++i) {
#ifdef SYMN
        nonce[i] = VP_U8("nonce");
#else
        nonce[i] = (uint8_t)(i * 91U + 200U);
#endif
        nonce_copy[i] = nonce[i];
    }
#ifdef SYMC
    ctr = VP_U32("counter");
#else
    ctr = CTR;
#endif
}
static void params_kept(void) {
    for (uint32_t i = 0U; i < 32U; ++i) {
        VP_ASSERT(key[i] == key_copy[i], "key is not modified");
    }
    for (uint32_t i = 0U; i < 12U; ++i) {
        VP_ASSERT(nonce[i] == nonce_copy[i], "nonce is not modified");
    }
}
static uint8_t msg_byte(uint32_t i) {
#ifdef SPARSE
    return ((i % SPARSE) == 0U) ? VP_U8("m") : (uint8_t)(i * 3U);
#else
    return VP_U8("m");
#endif
}

#if defined(T_SPEC)
/* LEN message bytes, out of place, two bytes of space after the result */
void harness(void) {
    params();
    uint8_t* m = (uint8_t*)vp_alloc(LEN);
    uint8_t copy[LEN + 1];
    uint8_t* out = (uint8_t*)vp_alloc(LEN + 2);
    for (uint32_t i = 0U; i < LEN; ++i) {
        m[i] = msg_byte(i);
        copy[i] = m[i];
    }
    out[LEN] = 0x5AU;
    out[LEN + 1] = 0xC3U;
    Chacha20_crypt(m, LEN, key, nonce, ctr, out);
    params_kept();
    VP_ASSERT(out[LEN] == 0x5AU && out[LEN + 1] == 0xC3U, "exactly as many bytes as the message has are written");
    uint8_t ks[64];
    for (uint32_t i = 0U; i < LEN; ++i) {
        if ((i % 64U) == 0U) {
            spec_block(key_copy, nonce_copy, ctr + i / 64U, ks);
        }
        VP_ASSERT(out[i] == (uint8_t)(copy[i] ^ ks[i % 64U]), "ciphertext byte is message byte XOR keystream byte of RFC 8439");
        VP_ASSERT(m[i] == copy[i], "message is not modified");
    }
    if (LEN > 0) {
        VP_OUT(out[LEN / 2]);
    }
}
#elif defined(T_BLOCKS)
/* block i of the message as a separate message with the counter advanced by i; an unrelated call in between */
void harness(void) {
    params();
    uint8_t* m = (uint8_t*)vp_alloc(LEN);
    uint8_t* out = (uint8_t*)vp_alloc(LEN);
    uint8_t* single = (uint8_t*)vp_alloc(LEN);
    for (uint32_t i = 0U; i < LEN; ++i) {
        m[i] = msg_byte(i);
    }
    Chacha20_crypt(m, LEN, key, nonce, ctr, out);
#ifdef OTHER
    uint8_t k2[32];
    uint8_t n2[12];
    uint8_t t[70];
    for (uint32_t i = 0U; i < 32U; ++i) {
        k2[i] = (uint8_t)(i + 1U);
    }
    for (uint32_t i = 0U; i < 12U; ++i) {
        n2[i] = (uint8_t)(i + 77U);
    }
    Chacha20_crypt(m, (LEN < 70) ? LEN : 70, k2, n2, 1234U, t);
#endif
    for (uint32_t i = 0U; i < LEN; i += 64U) {
        const uint32_t part = (LEN - i < 64U) ? (LEN - i) : 64U;
        Chacha20_crypt(&m[i], part, key, nonce, ctr + i / 64U, &single[i]);
    }
    for (uint32_t i = 0U; i < LEN; ++i) {
        VP_ASSERT(out[i] == single[i], "block i is encrypted with the counter advanced by i");
    }
    VP_OUT(out[LEN - 1]);
}
#elif defined(T_PREFIX)
/* a message of LEN bytes is encrypted like the first LEN bytes of a longer one */
void harness(void) {
    params();
    uint8_t* m = (uint8_t*)vp_alloc(MORE);
    uint8_t* shrt = (uint8_t*)vp_alloc(LEN);
    uint8_t* lng = (uint8_t*)vp_alloc(MORE);
    for (uint32_t i = 0U; i < MORE; ++i) {
        m[i] = msg_byte(i);
    }
    Chacha20_crypt(m, MORE, key, nonce, ctr, lng);
    Chacha20_crypt(m, LEN, key, nonce, ctr, shrt);
    for (uint32_t i = 0U; i < LEN; ++i) {
        VP_ASSERT(shrt[i] == lng[i], "partial block uses a prefix of its keystream block");
    }
    VP_OUT(lng[0]);
}
#elif defined(T_INVOL)
/* twice restores the message; in place gives the same as out of place */
void harness(void) {
    params();
    uint8_t* m = (uint8_t*)vp_alloc(LEN);
    uint8_t copy[LEN + 1];
    uint8_t* out = (uint8_t*)vp_alloc(LEN);
    for (uint32_t i = 0U; i < LEN; ++i) {
        m[i] = msg_byte(i);
        copy[i] = m[i];
    }
    Chacha20_crypt(m, LEN, key, nonce, ctr, out);
    Chacha20_crypt(m, LEN, key, nonce, ctr, m);
    for (uint32_t i = 0U; i < LEN; ++i) {
        VP_ASSERT(out[i] == m[i], "in place encryption equals out of place encryption");
    }
    Chacha20_crypt(m, LEN, key, nonce, ctr, m);
    for (uint32_t i = 0U; i < LEN; ++i) {
        VP_ASSERT(m[i] == copy[i], "encrypting twice restores the message");
    }
    params_kept();
    VP_OUT(out[0]);
}
#elif defined(T_TAIL)
/* a long message whose bytes are zero except for arbitrary ones in the last full block and the tail: those blocks are
 * encrypted as separate messages with the counter advanced by their number (fixed key) */
void harness(void) {
    params();
    uint8_t* m = (uint8_t*)vp_alloc(LEN);
    uint8_t* out = (uint8_t*)vp_alloc(LEN);
    uint8_t one[64];
    memset(m, 0, LEN);
    memset(out, 0, LEN);
    const uint32_t last = (LEN / 64U - 1U) * 64U;
    for (uint32_t i = last; i < LEN; i += 13U) {
        m[i] = VP_U8("m");
    }
    Chacha20_crypt(m, LEN, key, nonce, ctr, out);
    for (uint32_t b = last; b < LEN; b += 64U) {
        const uint32_t part = (LEN - b < 64U) ? (LEN - b) : 64U;
        Chacha20_crypt(&m[b], part, key, nonce, ctr + b / 64U, one);
        for (uint32_t i = 0U; i < part; ++i) {
            VP_ASSERT(out[b + i] == one[i], "block i is encrypted with the counter advanced by i");
        }
    }
    VP_OUT(out[LEN - 1]);
}
#endif
