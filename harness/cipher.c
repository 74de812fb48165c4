/* K03 Caesar, K04 Vernam */
#include "vp.h"
#include "caesar_cipher.h"
#include "vernam_cipher.h"

static int is_up(uint8_t c) { return (c >= 65U) && (c <= 90U); }
static int is_low(uint8_t c) { return (c >= 97U) && (c <= 122U); }
/* letter k positions further in the alphabet of the same case, 0 <= k < 26 */
static uint8_t shifted(uint8_t c, uint32_t k) {
    if (is_up(c)) {
        const uint32_t p = (uint32_t)c - 65U + k;
        return (uint8_t)(65U + ((p >= 26U) ? p - 26U : p));
    }
    if (is_low(c)) {
        const uint32_t p = (uint32_t)c - 97U + k;
        return (uint8_t)(97U + ((p >= 26U) ? p - 26U : p));
    }
    return c;
}
#ifndef FILL
#define FILL 94U /* characters between the arbitrary ones; 32: no letters */
#endif
#if defined(SPOT)
#define CH(i) (((i) == SPOT) ? VP_U8("ch") : (uint8_t)(33U + ((i) * 7U) % FILL))
#elif defined(SPARSE)
#define CH(i) (((((i) % SPARSE) == 0U) || ((i) + 3U > LEN)) ? VP_U8("ch") : (uint8_t)(33U + ((i) * 7U) % FILL))
#else
#define CH(i) VP_U8("ch")
#endif

#if defined(T_CAESAR)
/* LEN characters (an earlier NUL ends the string), terminator, all shifts */
void harness(void) {
    uint8_t* s = (uint8_t*)vp_alloc(LEN + 1);
    uint8_t orig[LEN + 1];
    uint32_t len = LEN;
    for (uint32_t i = 0U; i < LEN; ++i) {
        s[i] = CH(i);
#ifdef NONUL
        VP_ASSUME(s[i] != 0U);
#endif
        orig[i] = s[i];
    }
    s[LEN] = 0U;
    orig[LEN] = 0U;
#ifndef NONUL
    for (uint32_t i = LEN; i > 0U; --i) {
        if (orig[i - 1U] == 0U) {
            len = i - 1U;
        }
    }
#endif
#ifdef SHIFT
    const uint8_t shift = (uint8_t)(SHIFT);
#else
    const uint8_t shift = VP_U8("shift");
#endif
#ifdef DEC_FIRST
    CaesarCipher_decrypt((char*)s, shift);
    CaesarCipher_encrypt((char*)s, shift);
    for (uint32_t i = 0U; i <= LEN; ++i) {
        VP_ASSERT(s[i] == orig[i], "encryption undoes decryption");
    }
    VP_OUT(s[0]);
#else
    CaesarCipher_encrypt((char*)s, shift);
    for (uint32_t i = 0U; i <= LEN; ++i) {
        if (i < len) {
            VP_ASSERT(s[i] == shifted(orig[i], (uint32_t)shift % 26U), "letter shifted cyclically in its case, other characters kept");
        } else {
            VP_ASSERT(s[i] == orig[i], "nothing at or after the terminator is modified");
        }
    }
    VP_OUT(s[LEN / 2]);
    CaesarCipher_decrypt((char*)s, shift);
    for (uint32_t i = 0U; i <= LEN; ++i) {
        VP_ASSERT(s[i] == orig[i], "decryption with the same shift restores the string");
    }
#endif
}
#elif defined(T_VERNAM)
/* message of LEN characters, key object of exactly LEN bytes, stated key length LEN */
void harness(void) {
    uint8_t* s = (uint8_t*)vp_alloc(LEN + 1);
    uint8_t* key = (uint8_t*)vp_alloc(LEN);
    uint8_t orig[LEN + 1];
    uint8_t key_copy[LEN + 1];
    for (uint32_t i = 0U; i < LEN; ++i) {
        s[i] = CH(i);
        VP_ASSUME(s[i] != 0U);
        orig[i] = s[i];
#ifdef FIXKEY
        key[i] = (uint8_t)(((i & 1U) != 0U ? 65U : 97U) + (i * 11U) % 26U);
#else
        key[i] = CH(i);
#endif
#ifdef ALPHA_KEY
        VP_ASSUME(is_up(key[i]) || is_low(key[i]));
#endif
        key_copy[i] = key[i];
    }
    s[LEN] = 0U;
    orig[LEN] = 0U;
    VP_ASSERT(VernamCipher_encrypt((char*)s, (const char*)key, LEN), "encryption with a key of the same length succeeds");
    VP_ASSERT(s[LEN] == 0U, "terminator is kept");
    for (uint32_t i = 0U; i < LEN; ++i) {
        if (is_up(orig[i]) || is_low(orig[i])) {
            VP_ASSERT(is_up(orig[i]) ? is_up(s[i]) : is_low(s[i]), "letter maps to a letter of the same case");
            if (is_up(key_copy[i])) {
                VP_ASSERT(s[i] == shifted(orig[i], (uint32_t)key_copy[i] - 65U), "shift is the position of the upper-case key letter");
            }
            if (is_low(key_copy[i])) {
                VP_ASSERT(s[i] == shifted(orig[i], (uint32_t)key_copy[i] - 97U), "shift is the position of the lower-case key letter");
            }
        } else {
            VP_ASSERT(s[i] == orig[i], "other characters are kept");
        }
        VP_ASSERT(key[i] == key_copy[i], "key is not modified");
        VP_OUT(s[i]);
    }
    VP_ASSERT(VernamCipher_decrypt((char*)s, (const char*)key, LEN), "decryption with a key of the same length succeeds");
    for (uint32_t i = 0U; i <= LEN; ++i) {
        VP_ASSERT(s[i] == orig[i], "decryption restores the message");
    }
    for (uint32_t i = 0U; i < LEN; ++i) {
        VP_ASSERT(key[i] == key_copy[i], "key is not modified");
    }
}
#elif defined(T_VERNAM_SHIFT)
/* the key character alone determines the shift: two letters, same key character */
void harness(void) {
    char a[2];
    char b[2];
    char key[1];
    a[0] = (char)VP_U8("a");
    b[0] = (char)VP_U8("b");
    a[1] = '\0';
    b[1] = '\0';
    key[0] = (char)VP_U8("k");
    const uint8_t a0 = (uint8_t)a[0];
    const uint8_t b0 = (uint8_t)b[0];
    VP_ASSUME((is_up(a0) || is_low(a0)) && (is_up(b0) || is_low(b0)));
    VP_ASSERT(VernamCipher_encrypt(a, key, 1) && VernamCipher_encrypt(b, key, 1), "encryption succeeds");
    const uint32_t pa = (uint32_t)a0 - (is_up(a0) ? 65U : 97U);
    const uint32_t pb = (uint32_t)b0 - (is_up(b0) ? 65U : 97U);
    const uint32_t ca = (uint32_t)(uint8_t)a[0] - (is_up(a0) ? 65U : 97U);
    const uint32_t cb = (uint32_t)(uint8_t)b[0] - (is_up(b0) ? 65U : 97U);
    VP_ASSERT((26U + ca - pa) % 26U == (26U + cb - pb) % 26U, "all letters are shifted by the same amount, set by the key character");
    VP_OUT(ca);
}
#elif defined(T_VERNAM_LEN)
/* any stated key length other than the message length; empty key object: the key may not be read */
void harness(void) {
    uint8_t* s = (uint8_t*)vp_alloc(LEN + 1);
    uint8_t* key = (uint8_t*)vp_alloc(KEYOBJ);
    uint8_t orig[LEN + 1];
    uint32_t len = LEN;
    for (uint32_t i = 0U; i < LEN; ++i) {
        s[i] = CH(i);
        orig[i] = s[i];
    }
    for (uint32_t i = 0U; i < KEYOBJ; ++i) {
        key[i] = VP_U8("k");
    }
    s[LEN] = 0U;
    orig[LEN] = 0U;
    for (uint32_t i = LEN; i > 0U; --i) {
        if (orig[i - 1U] == 0U) {
            len = i - 1U;
        }
    }
    const int32_t n = (int32_t)VP_U32("key_length");
    VP_ASSUME((int64_t)n != (int64_t)len);
    const bool dec = VP_BOOL("decrypt");
    const bool ok = dec ? VernamCipher_decrypt((char*)s, (const char*)key, n) : VernamCipher_encrypt((char*)s, (const char*)key, n);
    VP_ASSERT(!ok, "key of another length is rejected");
    for (uint32_t i = 0U; i <= LEN; ++i) {
        VP_ASSERT(s[i] == orig[i], "rejected message is left untouched");
    }
    VP_OUT(s[0]);
}
#endif
