/* B01 B02 B03: Base64 */
#include "vp.h"
#include "base64.h"

/* RFC 4648 section 4, stated independently of any table */
static char spec_char(uint32_t six) {
#ifdef VP_PICK
    /* the same without branches: 'A'.., 'a'.. from 26 on, '0'.. from 52 on, '+' for 62, '/' for 63 */
    return (char)(65U + six + ((six >= 26U) ? 6U : 0U) - ((six >= 52U) ? 75U : 0U) - ((six >= 62U) ? 15U : 0U) + ((six >= 63U) ? 3U : 0U));
#endif
    char c;
    if (six < 26U) {
        c = (char)('A' + (int)six);
    } else if (six < 52U) {
        c = (char)('a' + (int)(six - 26U));
    } else if (six < 62U) {
        c = (char)('0' + (int)(six - 52U));
    } else if (six == 62U) {
        c = '+';
    } else {
        c = '/';
    }
    return c;
}
static char spec_text(const uint8_t* d, size_t n, size_t i) {
    const size_t g = (i / 4U) * 3U;
    const uint32_t b0 = d[g];
    const uint32_t b1 = (g + 1U < n) ? d[g + 1U] : 0U;
    const uint32_t b2 = (g + 2U < n) ? d[g + 2U] : 0U;
    char c;
    switch (i % 4U) {
        case 0U: c = spec_char(b0 >> 2U); break;
        case 1U: c = spec_char(((b0 & 3U) << 4U) | (b1 >> 4U)); break;
        case 2U: c = (g + 1U < n) ? spec_char(((b1 & 15U) << 2U) | (b2 >> 6U)) : '='; break;
        default: c = (g + 2U < n) ? spec_char(b2 & 63U) : '='; break;
    }
    return c;
}
#define TEXT (4U * ((LEN + 2U) / 3U))
#ifndef SPARSE
#define SPARSE 1
#endif
static uint8_t* input(uint8_t* copy) {
    uint8_t* d = (uint8_t*)vp_alloc(LEN);
    for (size_t i = 0U; i < LEN; ++i) {
#ifdef SPOT
        d[i] = ((i == SPOT) || (i + 1U == LEN)) ? VP_U8("d")
#else
        d[i] = (((i % SPARSE) == 0U) || (i + 4U >= LEN)) ? VP_U8("d")
#endif
                : (uint8_t)((i * 37U) ^ (i >> 8U));
        copy[i] = d[i];
    }
    return d;
}

#if defined(T_ENC)
/* CAPX: capacity beyond the exact fit */
void harness(void) {
    uint8_t copy[LEN + 1];
    uint8_t* d = input(copy);
    const size_t cap = TEXT + 1U + CAPX;
    char* res = (char*)vp_alloc(cap);
    uint8_t fill = VP_U8("fill");
    memset(res, fill, cap);
    int32_t r = Base64_encode((const char*)d, LEN, res, cap);
    VP_ASSERT(r == 0, "encoding succeeds when the text and its NUL fit");
    for (size_t i = 0U; i < TEXT; ++i) {
        VP_ASSERT(res[i] == spec_text(copy, LEN, i), "encoded text is the RFC 4648 text");
    }
    VP_ASSERT(res[TEXT] == '\0', "encoded text is NUL-terminated");
    for (size_t i = TEXT + 1U; i < cap; ++i) {
        VP_ASSERT((uint8_t)res[i] == fill, "nothing is written after the NUL");
    }
    for (size_t i = 0U; i < LEN; ++i) {
        VP_ASSERT(d[i] == copy[i], "encoding does not modify the input");
    }
    VP_OUT(r);
    for (size_t i = 0U; i < TEXT && i < 16U; ++i) { VP_OUT((uint8_t)res[i]); }
}
#elif defined(T_DEC)
/* PAD 1: padded text, 0: padding stripped; VIA 0: text from the specification, 1: text from Base64_encode */
void harness(void) {
    uint8_t copy[LEN + 1];
    uint8_t* d = input(copy);
    const size_t tlen = (PAD == 1) ? TEXT : ((LEN / 3U) * 4U + ((LEN % 3U == 0U) ? 0U : (LEN % 3U + 1U)));
    char* text = (char*)vp_alloc(tlen); /* exactly the text, no NUL */
#if VIA == 1
    char* full = (char*)vp_alloc(TEXT + 1U);
    memset(full, 0, TEXT + 1U);
    VP_ASSERT(Base64_encode((const char*)d, LEN, full, TEXT + 1U) == 0, "encoding succeeds");
    for (size_t i = 0U; i < tlen; ++i) { text[i] = full[i]; }
#else
    for (size_t i = 0U; i < tlen; ++i) { text[i] = spec_text(copy, LEN, i); }
#endif
    const size_t cap = LEN + CAPX;
    uint8_t* out = (uint8_t*)vp_alloc(cap);
    uint8_t fill = VP_U8("fill");
    memset(out, fill, cap);
    int32_t r = Base64_decode(text, tlen, out, cap);
    VP_ASSERT(r == 0, "decoding the text of any non-empty byte string succeeds");
    for (size_t i = 0U; i < LEN; ++i) {
        VP_ASSERT(out[i] == copy[i], "decoding returns the bytes that were encoded");
    }
    for (size_t i = LEN; i < cap; ++i) {
        VP_ASSERT(out[i] == fill, "decoding leaves the bytes after the data alone");
    }
    VP_OUT(r);
    for (size_t i = 0U; i < LEN && i < 16U; ++i) { VP_OUT(out[i]); }
}
#elif defined(T_ENC_SAFE)
/* any capacity from 0 to TEXT + 3 inside a larger block, arbitrary previous contents */
#define CAPMAX (TEXT + 3U)
void harness(void) {
    uint8_t copy[LEN + 1];
    uint8_t* d = input(copy);
#ifdef CAP
    const size_t cap = CAP;
#else
    size_t cap = VP_U16("cap");
    VP_ASSUME(cap <= CAPMAX);
#endif
    uint8_t fill = VP_U8("fill");
#ifdef CAP
    char* res = (char*)vp_alloc(CAP); /* exact object: anything beyond is out of bounds */
    memset(res, fill, CAP);
#else
    char* res = (char*)vp_alloc(CAPMAX + 8U);
    memset(res, fill, CAPMAX + 8U);
#endif
    int32_t r = Base64_encode((const char*)d, LEN, res, cap);
    if (cap < TEXT + 1U) {
        VP_ASSERT(r != 0, "encoding reports insufficient capacity");
    } else {
        VP_ASSERT(r == 0, "encoding succeeds when text and NUL fit");
    }
#ifndef CAP
    for (size_t i = 0U; i < CAPMAX + 8U; ++i) {
        if (i >= cap) {
            VP_ASSERT((uint8_t)res[i] == fill, "encoding writes only within the stated capacity");
        }
    }
#endif
    if (cap > 0U) {
        bool terminated = false;
        for (size_t i = 0U; i < TEXT + 1U; ++i) {
            if (!terminated && i < cap) {
                if (res[i] == '\0') {
                    terminated = true;
                } else {
                    VP_ASSERT(i < TEXT && res[i] == spec_text(copy, LEN, i), "result is a prefix of the encoded text");
                }
            }
        }
        VP_ASSERT(terminated, "result is NUL-terminated within the capacity");
    }
    for (size_t i = 0U; i < LEN; ++i) {
        VP_ASSERT(d[i] == copy[i], "encoding does not modify the input");
    }
    VP_OUT(r);
}
#elif defined(T_DEC_SAFE)
/* arbitrary input bytes of LEN, any capacity 0..CAPMAX */
#define CAPMAX (((LEN + 3U) / 4U) * 3U + 2U)
void harness(void) {
    uint8_t copy[LEN + 1];
    uint8_t* d = input(copy);
    uint8_t fill = VP_U8("fill");
#ifdef CAP
    const size_t cap = CAP;
    uint8_t* out = (uint8_t*)vp_alloc(CAP);
    memset(out, fill, CAP);
#else
    size_t cap = VP_U16("cap");
    VP_ASSUME(cap <= CAPMAX);
    uint8_t* out = (uint8_t*)vp_alloc(CAPMAX + 8U);
    memset(out, fill, CAPMAX + 8U);
#endif
    int32_t r = Base64_decode((const char*)d, LEN, out, cap);
#ifndef CAP
    for (size_t i = 0U; i < CAPMAX + 8U; ++i) {
        if (i >= cap) {
            VP_ASSERT(out[i] == fill, "decoding writes only within the stated capacity");
        }
    }
#endif
    for (size_t i = 0U; i < LEN; ++i) {
        VP_ASSERT(d[i] == copy[i], "decoding does not modify the input");
    }
    VP_OUT(r);
}
#elif defined(T_DEC_CAP)
/* valid text of LEN bytes, capacity below LEN: failure is reported */
void harness(void) {
    uint8_t copy[LEN + 1];
    (void)input(copy);
    const size_t tlen = (PAD == 1) ? TEXT : ((LEN / 3U) * 4U + ((LEN % 3U == 0U) ? 0U : (LEN % 3U + 1U)));
    char* text = (char*)vp_alloc(tlen);
    for (size_t i = 0U; i < tlen; ++i) { text[i] = spec_text(copy, LEN, i); }
#ifdef CAP
    const size_t cap = CAP;
#else
    size_t cap = VP_U16("cap");
    VP_ASSUME(cap < LEN);
#endif
    uint8_t* out = (uint8_t*)vp_alloc(LEN + 8U);
    memset(out, 0x5A, LEN + 8U);
    int32_t r = Base64_decode(text, tlen, out, cap);
    VP_ASSERT(r != 0, "decoding reports insufficient capacity");
    for (size_t i = 0U; i < LEN + 8U; ++i) {
        if (i >= cap) {
            VP_ASSERT(out[i] == 0x5AU, "decoding writes only within the stated capacity");
        }
    }
    VP_OUT(r);
}
#endif
