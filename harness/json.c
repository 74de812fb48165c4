/* J01 J02 J03 J04: JSON builder and lookup */
#include "vp.h"
#include "json.h"

#if defined(T_BUILD)
/* start, NPAIR pairs (lengths K0,V0,K1,V1,..), end; every capacity 0..MAXCAP.
 * One of the characters of each string at most SYMCH are arbitrary, others fixed. */
#ifndef MAXTEXT
#define MAXTEXT 64
#endif
static char model[MAXTEXT];
static uint32_t model_len;
static uint32_t cap;
static char* buf;
static char before[VP_DIM(MAXCAP + 1)];

static void snapshot(void) {
    for (uint32_t i = 0U; i < MAXCAP; ++i) {
        before[i] = buf[i];
    }
}
static void unchanged(void) {
    for (uint32_t i = 0U; i < MAXCAP; ++i) {
        VP_ASSERT(buf[i] == before[i], "a failing step leaves the buffer unchanged");
    }
}
static void matches(void) {
    for (uint32_t i = 0U; i < MAXCAP; ++i) {
        if (i < model_len) {
            VP_ASSERT(buf[i] == model[i], "text is exactly the JSON text built so far");
        } else if (i == model_len) {
            VP_ASSERT(buf[i] == '\0', "text is NUL-terminated");
        } else {
            VP_ASSERT(i < cap || buf[i] == before[i], "nothing is written outside the stated size");
        }
    }
}
static char* string(uint32_t len, uint32_t sym) {
    char* s = (char*)vp_alloc(len + 1U);
    for (uint32_t i = 0U; i < len; ++i) {
        if (i < sym) {
            s[i] = (char)VP_U8("c");
            VP_ASSUME(s[i] != '\0');
        } else {
            s[i] = (char)('a' + (char)(i % 26U));
        }
    }
    s[len] = '\0';
    return s;
}

void harness(void) {
    const uint32_t KL[3] = {K0, K1, K2};
    const uint32_t VL[3] = {V0, V1, V2};
#ifdef CAP
    cap = CAP;
#else
    cap = VP_U32("cap");
    VP_ASSUME(cap <= MAXCAP);
#endif
    buf = (char*)vp_alloc(MAXCAP);
    for (uint32_t i = 0U; i < MAXCAP; ++i) {
#ifdef STALE
        buf[i] = (char)('A' + (char)(i % 20U)); /* left over from something else */
#else
        buf[i] = '\0';
#endif
    }
    snapshot();
    const bool ok0 = Json_startString(buf, cap);
    VP_ASSERT(ok0 == (cap >= 2U), "start succeeds exactly when {NUL fits");
    if (!ok0) {
        unchanged();
#if defined(STALE)
        return;
#else
        if (cap == 0U) {
            return;
        }
        model_len = 0U;
#endif
    } else {
        model[0] = '{';
        model_len = 1U;
        matches();
    }
    const bool started = ok0;
    bool pair = false;
    for (uint32_t p = 0U; p < NPAIR; ++p) {
        char* k = string(KL[p], SYMCH);
        char* v = string(VL[p], SYMCH);
        /* ,"key":"value" without its comma when it is the first pair of the text */
        char piece[MAXTEXT];
        uint32_t n = 0U;
        piece[n++] = ',';
        piece[n++] = '"';
        for (uint32_t i = 0U; i < KL[p]; ++i) {
            piece[n++] = k[i];
        }
        piece[n++] = '"';
        piece[n++] = ':';
        piece[n++] = '"';
        for (uint32_t i = 0U; i < VL[p]; ++i) {
            piece[n++] = v[i];
        }
        piece[n++] = '"';
        const uint32_t skip = pair ? 0U : 1U;
        snapshot();
        const bool ok = Json_addData(buf, cap, k, v);
        VP_ASSERT(ok == (model_len + n - skip + 1U <= cap), "adding succeeds exactly when the text and its NUL fit");
        if (ok) {
            if (pair) {
                for (uint32_t i = 0U; i < n; ++i) {
                    model[model_len + i] = piece[i];
                }
                model_len += n;
            } else {
                for (uint32_t i = 1U; i < n; ++i) {
                    model[model_len + i - 1U] = piece[i];
                }
                model_len += n - 1U;
            }
            pair = true;
            matches();
        } else {
            unchanged();
        }
    }
    snapshot();
    const bool ok = Json_endString(buf, cap);
    VP_ASSERT(ok == (model_len + 2U <= cap), "ending succeeds exactly when the text and its NUL fit");
    if (ok) {
        model[model_len++] = '}';
        matches();
    } else {
        unchanged();
    }
    VP_OUT(model_len);
    VP_OUT(started);
}
#elif defined(T_FIND)
/* NF fields; lengths of names N0.. and values V0..; W0..: whitespace bytes at the seven kinds of places */
#ifndef MAXDOC
#define MAXDOC 96
#endif
static char doc[MAXDOC];
static uint32_t dl;
static char* names[4];
static char* vals[4];
#ifdef VP_PICK
static uint32_t NL[4];
static uint32_t VL[4];
#else
static const uint32_t NL[4] = {N0, N1, N2, N3};
static const uint32_t VL[4] = {V0, V1, V2, V3};
#endif

static void put(char c) { doc[dl++] = c; }
static void ws(uint32_t n) {
    for (uint32_t i = 0U; i < n; ++i) {
        static const char kinds[4] = {' ', '\t', '\n', '\r'};
#ifdef SYMWS
        const char c = (char)VP_U8("ws");
        VP_ASSUME(c == ' ' || c == '\t' || c == '\n' || c == '\r');
        put(c);
#else
        put(kinds[(dl + i) % 4U]);
#endif
    }
}
static char content(uint32_t i, uint32_t f) {
    (void)f;
    if (i < SYMCH) {
        const char c = (char)VP_U8("c");
        VP_ASSUME(c != '"' && c != '\0');
        return c;
    }
    return (char)('a' + (char)((i + f) % 3U));
}
static char* text(uint32_t len, uint32_t f) {
    char* s = (char*)vp_alloc(len + 1U);
    put('"');
    for (uint32_t i = 0U; i < len; ++i) {
        s[i] = content(i, f);
        put(s[i]);
    }
    s[len] = '\0';
    put('"');
    return s;
}

void harness(void) {
#ifdef VP_PICK
    const uint32_t nl[4] = {N0, N1, N2, N3};
    const uint32_t vl[4] = {V0, V1, V2, V3};
    memcpy(NL, nl, sizeof(NL));
    memcpy(VL, vl, sizeof(VL));
#endif
    ws(WS0);
    put('{');
    ws(WS1);
    for (uint32_t f = 0U; f < NF; ++f) {
        if (f > 0U) {
            put(',');
            ws(WS2);
        }
        names[f] = text(NL[f], f);
        ws(WS3);
        put(':');
        ws(WS4);
        vals[f] = text(VL[f], f + 1U);
        ws(WS5);
    }
    put('}');
    ws(WS6);
    if (NUL_INCLUDED != 0) {
        put('\0');
    }
    const uint32_t size = dl;
    char* b = (char*)vp_alloc(size);
    for (uint32_t i = 0U; i < size; ++i) {
        b[i] = doc[i];
    }
    char* key = (char*)vp_alloc(KEYLEN + 1);
    for (uint32_t i = 0U; i < KEYLEN; ++i) {
#ifdef FIXKEY
        key[i] = (char)('a' + (char)((i + FIXKEY) % 3U));
#else
        key[i] = (char)VP_U8("key");
        VP_ASSUME(key[i] != '\0');
#endif
    }
    key[KEYLEN] = '\0';
#ifdef ROOM
    const uint32_t room = ROOM;
#else
    const uint32_t room = VP_U32("room");
    VP_ASSUME(room <= MAXV + 2);
#endif
    char* value = (char*)vp_alloc(MAXV + 2);
    for (uint32_t i = 0U; i < MAXV + 2U; ++i) {
        value[i] = (char)0x7E;
    }
    int hit = -1;
    for (uint32_t f = NF; f > 0U; --f) {
        if (NL[f - 1U] == KEYLEN) {
            bool same = true;
            for (uint32_t i = 0U; i < KEYLEN; ++i) {
                same = same && (names[f - 1U][i] == key[i]);
            }
            if (same) {
                hit = (int)f - 1;
            }
        }
    }
    const bool ok = Json_findByKey(b, size, key, value, room);
    VP_OUT(ok);
    for (uint32_t f = 0U; f < NF; ++f) {
        if (hit == (int)f) {
            VP_ASSERT(ok == (VL[f] + 1U <= room), "lookup succeeds exactly when the value of the named field fits");
            if (ok) {
                for (uint32_t i = 0U; i <= VL[f]; ++i) {
                    VP_ASSERT(value[i] == vals[f][i], "lookup yields the value of the first field of that name");
                }
            }
        }
    }
    if (hit < 0) {
        VP_ASSERT(!ok, "lookup of an absent key fails");
    }
    for (uint32_t i = 0U; i < MAXV + 2U; ++i) {
        VP_ASSERT(i < room || value[i] == (char)0x7E, "nothing is written beyond the output capacity");
    }
    for (uint32_t i = 0U; i < size; ++i) {
        VP_ASSERT(b[i] == doc[i], "buffer is not modified");
    }
}
#elif defined(T_WILD)
/* arbitrary bytes, exact-size objects */
void harness(void) {
    char* b = (char*)vp_alloc(SIZE);
    char copy[SIZE + 1];
    for (uint32_t i = 0U; i < SIZE; ++i) {
#ifdef PREFIX
        /* a long buffer: fixed beginning and filling, arbitrary last bytes */
        static const char prefix[] = PREFIX;
        b[i] = (i + TAIL >= SIZE) ? (char)VP_U8("b") : (i < sizeof(prefix) - 1U) ? prefix[i] : (char)('a' + (char)(i % 3U));
#else
        b[i] = (char)VP_U8("b");
#endif
        copy[i] = b[i];
    }
    char* key = (char*)vp_alloc(KEYLEN + 1);
    char key_copy[KEYLEN + 1];
    for (uint32_t i = 0U; i < KEYLEN; ++i) {
#ifdef PREFIX
        key[i] = 'k';
#else
        key[i] = (char)VP_U8("key");
#endif
        key_copy[i] = key[i];
    }
    key[KEYLEN] = '\0';
    key_copy[KEYLEN] = '\0';
#ifdef CAP
    const uint32_t room = CAP;
    char* value = (char*)vp_alloc(CAP);
#define VMAX CAP
#else
#define VMAX (SIZE + 2)
#ifdef ROOM
    const uint32_t room = ROOM;
#else
    const uint32_t room = VP_U32("room");
    VP_ASSUME(room <= VMAX);
#endif
    char* value = (char*)vp_alloc(VMAX);
#endif
    char vcopy[VMAX + 1];
    for (uint32_t i = 0U; i < VMAX; ++i) {
        value[i] = (char)(0x50U + i);
        vcopy[i] = value[i];
    }
    const bool ok = Json_findByKey(b, SIZE, key, value, room);
    VP_OUT(ok);
    for (uint32_t i = 0U; i < SIZE; ++i) {
        VP_ASSERT(b[i] == copy[i], "buffer is not modified");
    }
    for (uint32_t i = 0U; i <= KEYLEN; ++i) {
        VP_ASSERT(key[i] == key_copy[i], "key is not modified");
    }
    bool terminated = false;
    for (uint32_t i = 0U; i < VMAX; ++i) {
        VP_ASSERT(i < room || value[i] == vcopy[i], "nothing is written beyond the output capacity");
        if (i < room && value[i] == '\0') {
            terminated = true;
        }
    }
    VP_ASSERT(!ok || terminated, "on success the output is NUL-terminated within the capacity");
}
#elif defined(T_ROUND)
/* NPAIR pairs go through the builder into a buffer of CAP bytes (OLD: which held arbitrary bytes before), then one lookup
 * WHOLE: the lookup is given the size of the whole buffer, otherwise the length of the text */
#ifdef VP_PICK
static uint32_t KL[3];
static uint32_t VL[3];
#else
static const uint32_t KL[3] = {K0, K1, K2};
static const uint32_t VL[3] = {V0, V1, V2};
#endif
static char* ks[3];
static char* vs[3];
static bool added[3];
static char* string(uint32_t len, uint32_t f) {
    char* s = (char*)vp_alloc(len + 1U);
    for (uint32_t i = 0U; i < len; ++i) {
        if (i < SYMCH) {
            s[i] = (char)VP_U8("c");
            VP_ASSUME((s[i] != '\0') && (s[i] != '"'));
        } else {
            s[i] = (char)('a' + (char)((i + f) % 3U));
        }
    }
    s[len] = '\0';
    return s;
}
void harness(void) {
#ifdef VP_PICK
    const uint32_t kl[3] = {K0, K1, K2};
    const uint32_t vl[3] = {V0, V1, V2};
    memcpy(KL, kl, sizeof(KL));
    memcpy(VL, vl, sizeof(VL));
#endif
    char* b = (char*)vp_alloc(CAP);
    for (uint32_t i = 0U; i < CAP; ++i) {
#ifdef OLD
        static const char old[] = OLD;
        b[i] = (i + OLDSYM >= CAP) ? (char)VP_U8("old") : old[i % (sizeof(old) - 1U)];
#else
        b[i] = '\0';
#endif
    }
    if (!Json_startString(b, CAP)) {
        VP_OUT(0);
        return;
    }
    uint32_t used = 2U;
    for (uint32_t p = 0U; p < NPAIR; ++p) {
        ks[p] = string(KL[p], p);
        vs[p] = string(VL[p], p + 1U);
        added[p] = Json_addData(b, CAP, ks[p], vs[p]);
        used += added[p] ? (KL[p] + VL[p] + 6U) : 0U;
    }
    const bool ended = Json_endString(b, CAP);
    VP_ASSUME(ended);
    char* key = string(KEYLEN, 0U);
#ifdef WHOLE
    const size_t size = CAP;
#else
    const size_t size = strlen(b);
#endif
    char* value = (char*)vp_alloc(MAXV + 1);
    bool found = false;
    const bool ok = Json_findByKey(b, size, key, value, MAXV + 1U);
    VP_OUT(ok);
    for (uint32_t p = 0U; p < NPAIR; ++p) {
        bool same = added[p] && (KL[p] == KEYLEN) && !found;
        if (KL[p] == KEYLEN) {
            for (uint32_t i = 0U; i < KEYLEN; ++i) {
                same = same && (ks[p][i] == key[i]);
            }
        }
        if (same) {
            found = true;
            VP_ASSERT(ok, "a key that was added is found");
            if (ok) {
                for (uint32_t i = 0U; i <= VL[p]; ++i) {
                    VP_ASSERT(value[i] == vs[p][i], "the value added first under the key is read back");
                }
            }
        }
    }
    VP_ASSERT(found || !ok, "a key that was not added is not found");
}
#endif
