/* M01 I01: Map */
#include "vp.h"
#include "map.h"

#if defined(T_OPS)
/* NMAPS maps (CAP keys of KS bytes, values of VS bytes), NOPS arbitrary operations with arbitrary keys and values,
 * then every key of the model and one more key are looked up */
typedef struct {
    Map_t map;
    uint8_t* keys;
    uint8_t* values;
    uint8_t mk[CAP][KS];
    uint8_t mv[CAP][VS];
    uint32_t n;
} inst_t;
static inst_t M[NMAPS];
static uint8_t kcopy[CAP * KS];
static uint8_t vcopy[CAP * VS];

static int find(const inst_t* m, const uint8_t* k) {
    int hit = -1;
    for (uint32_t i = 0U; i < CAP; ++i) {
        if (i < m->n) {
            bool same = true;
            for (uint32_t j = 0U; j < KS; ++j) {
                same = same && (m->mk[i][j] == k[j]);
            }
            if (same) {
                hit = (int)i;
            }
        }
    }
    return hit;
}
static void check_get(inst_t* m, const uint8_t* k) {
    const int hit = find(m, k);
    uint8_t* v = (uint8_t*)vp_alloc(VS);
    for (uint32_t j = 0U; j < VS; ++j) {
        v[j] = (uint8_t)(0xE0U + j);
    }
    const bool ok = Map_getValue(&m->map, k, v);
    VP_ASSERT(ok == (hit >= 0), "lookup succeeds exactly for the keys inserted");
    for (uint32_t i = 0U; i < CAP; ++i) {
        if (hit == (int)i) {
            for (uint32_t j = 0U; j < VS; ++j) {
                VP_ASSERT(v[j] == m->mv[i][j], "lookup returns the value inserted last for the key");
            }
        }
    }
    if (hit < 0) {
        for (uint32_t j = 0U; j < VS; ++j) {
            VP_ASSERT(v[j] == (uint8_t)(0xE0U + j), "failed lookup leaves the output alone");
        }
    }
    VP_OUT(ok);
}
static void insert(inst_t* m, const uint8_t* k, const uint8_t* v) {
    const int hit = find(m, k);
    for (uint32_t i = 0U; i < CAP * KS; ++i) {
        kcopy[i] = m->keys[i];
    }
    for (uint32_t i = 0U; i < CAP * VS; ++i) {
        vcopy[i] = m->values[i];
    }
    const bool ok = Map_insert(&m->map, k, v);
    VP_ASSERT(ok == ((hit >= 0) || (m->n < CAP)), "insertion fails exactly when the key is new and the map is full");
    for (uint32_t i = 0U; i < CAP; ++i) {
        if ((hit == (int)i) || ((hit < 0) && (i == m->n))) {
            for (uint32_t j = 0U; j < KS; ++j) {
                m->mk[i][j] = k[j];
            }
            for (uint32_t j = 0U; j < VS; ++j) {
                m->mv[i][j] = v[j];
            }
        }
    }
    if ((hit < 0) && (m->n < CAP)) {
        m->n++;
    }
    if (!ok) {
        for (uint32_t i = 0U; i < CAP * KS; ++i) {
            VP_ASSERT(kcopy[i] == m->keys[i], "failed insertion changes nothing");
        }
        for (uint32_t i = 0U; i < CAP * VS; ++i) {
            VP_ASSERT(vcopy[i] == m->values[i], "failed insertion changes nothing");
        }
    }
}
void harness(void) {
    for (uint32_t q = 0U; q < NMAPS; ++q) {
        M[q].keys = (uint8_t*)vp_alloc(CAP * KS);
        M[q].values = (uint8_t*)vp_alloc(CAP * VS);
        for (uint32_t i = 0U; i < CAP * KS; ++i) {
            M[q].keys[i] = 0U;
        }
        for (uint32_t i = 0U; i < CAP * VS; ++i) {
            M[q].values[i] = 0U;
        }
        VP_ASSERT(Map_init(&M[q].map, M[q].keys, M[q].values, KS, VS, CAP), "set-up succeeds");
    }
    for (uint32_t o = 0U; o < NOPS; ++o) {
        uint8_t* k = (uint8_t*)vp_alloc(KS);
        uint8_t* v = (uint8_t*)vp_alloc(VS);
        const bool second = (NMAPS > 1) ? VP_BOOL("which") : false;
        const bool ins = VP_BOOL("insert");
        uint8_t kk[KS];
        uint8_t vv[VS];
        for (uint32_t j = 0U; j < KS; ++j) {
            k[j] = VP_U8("key");
            kk[j] = k[j];
        }
        for (uint32_t j = 0U; j < VS; ++j) {
            v[j] = VP_U8("value");
            vv[j] = v[j];
        }
        if (second) {
            if (ins) {
                insert(&M[NMAPS - 1], k, v);
            } else {
                check_get(&M[NMAPS - 1], k);
            }
        } else {
            if (ins) {
                insert(&M[0], k, v);
            } else {
                check_get(&M[0], k);
            }
        }
        for (uint32_t j = 0U; j < KS; ++j) {
            VP_ASSERT(k[j] == kk[j], "the key is not modified");
        }
        for (uint32_t j = 0U; j < VS; ++j) {
            VP_ASSERT(v[j] == vv[j], "the value is not modified");
        }
    }
    for (uint32_t q = 0U; q < NMAPS; ++q) {
        uint8_t k[KS];
        for (uint32_t j = 0U; j < KS; ++j) {
            k[j] = VP_U8("probe");
        }
        check_get(&M[q], k);
    }
    uint8_t k0[KS];
    uint8_t v0[VS];
    for (uint32_t j = 0U; j < KS; ++j) {
        k0[j] = 1U;
    }
    for (uint32_t j = 0U; j < VS; ++j) {
        v0[j] = 2U;
    }
    VP_ASSERT(!Map_insert(NULL_PTR, k0, v0) && !Map_getValue(NULL_PTR, k0, v0), "a missing map fails");
}
#elif defined(T_BIG)
/* FILL fixed distinct keys; then a symbolic key is inserted and looked up, as are fixed ones.  Keys and values of KS, VS bytes
 * (arbitrary key bytes: the last SYMK of the key) */
static uint8_t* keys, *values;
static Map_t map;
static void fixed_key(uint8_t* k, uint32_t i) {
    for (uint32_t j = 0U; j < KS; ++j) {
        k[j] = (uint8_t)(j * 3U);
    }
    k[KS - 1U] = (uint8_t)i;
    if (KS > 1U) {
        k[KS - 2U] = (uint8_t)(i >> 8U);
    }
}
static void fixed_value(uint8_t* v, uint32_t i) {
    for (uint32_t j = 0U; j < VS; ++j) {
        v[j] = (uint8_t)(j + i * 7U);
    }
    v[0] = (uint8_t)i;
    if (VS > 1U) {
        v[VS - 1U] = (uint8_t)(i >> 8U);
    }
}
void harness(void) {
    keys = (uint8_t*)vp_alloc(CAP * KS);
    values = (uint8_t*)vp_alloc(CAP * VS);
    VP_ASSERT(Map_init(&map, keys, values, KS, VS, CAP), "set-up succeeds");
    uint8_t k[KS];
    uint8_t v[VS];
    uint8_t r[VS];
    for (uint32_t i = 0U; i < FILL; ++i) {
        fixed_key(k, i);
        fixed_value(v, i);
        VP_ASSERT(Map_insert(&map, k, v), "insertion of a new key into a map with room succeeds");
    }
#ifdef SYMKEY
    fixed_key(k, 0U);
    const uint8_t a = VP_U8("k");
    k[KS - 1U] = a;
    const uint8_t b = (KS > 1U) ? VP_U8("k") : 0U;
    if (KS > 1U) {
        k[KS - 2U] = b;
    }
    const uint32_t idx = (uint32_t)a | ((uint32_t)b << 8U);
    r[0] = 0U;
    const bool ok = Map_getValue(&map, k, r);
    VP_ASSERT(ok == (idx < FILL), "lookup succeeds exactly for the keys inserted");
    VP_ASSERT(!ok || r[0] == (uint8_t)idx, "lookup returns the value of the key");
    VP_OUT(ok);
#else
    const uint32_t probes[5] = {0U, 1U, FILL / 2U, FILL - 1U, FILL};
    for (uint32_t p = 0U; p < 5U; ++p) {
        fixed_key(k, probes[p]);
        fixed_value(v, probes[p]);
        const bool ok = Map_getValue(&map, k, r);
        VP_ASSERT(ok == (probes[p] < FILL), "lookup succeeds exactly for the keys inserted");
        if (ok) {
            for (uint32_t j = 0U; j < VS; ++j) {
                VP_ASSERT(r[j] == v[j], "lookup returns the value of the key");
            }
        }
    }
#endif
    fixed_key(k, FILL);
    fixed_value(v, FILL);
    v[0] = VP_U8("v");
    const bool more = Map_insert(&map, k, v);
    VP_ASSERT(more == (FILL < CAP), "insertion of a new key fails exactly when the map is full");
    const bool again = Map_getValue(&map, k, r);
    VP_ASSERT(again == more && (!more || r[0] == v[0]), "lookup of the key just inserted");
    fixed_key(k, FILL - 1U);
    v[0] ^= 0x55U;
    VP_ASSERT(Map_insert(&map, k, v), "insertion of a present key succeeds");
    VP_ASSERT(Map_getValue(&map, k, r) && r[0] == v[0], "insertion of a present key overwrites its value");
    VP_OUT(r[0]);
}
#elif defined(T_INIT)
/* every combination of sizes and missing storage, arbitrary previous state */
void harness(void) {
    Map_t m;
    uint8_t k[1];
    uint8_t v[1];
    uint8_t old_k[1];
    uint8_t old_v[1];
    m.keys = VP_BOOL("oldk") ? old_k : (uint8_t*)NULL_PTR;
    m.values = VP_BOOL("oldv") ? old_v : (uint8_t*)NULL_PTR;
    m.key_size = (int32_t)VP_U32("old");
    m.value_size = (int32_t)VP_U32("old");
    m.max_map_size = (int32_t)VP_U32("old");
    m.current_size = (int32_t)VP_U32("old");
    const Map_t before = m;
    const int32_t ks = (int32_t)VP_U32("key_size");
    const int32_t vs = (int32_t)VP_U32("value_size");
    const int32_t cap = (int32_t)VP_U32("capacity");
    uint8_t* kp = VP_BOOL("keys") ? k : (uint8_t*)NULL_PTR;
    uint8_t* vp = VP_BOOL("values") ? v : (uint8_t*)NULL_PTR;
    const bool ok = Map_init(&m, kp, vp, ks, vs, cap);
    VP_ASSERT(ok == ((ks > 0) && (vs > 0) && (cap > 0) && (kp != NULL_PTR) && (vp != NULL_PTR)), "set-up succeeds exactly for valid configurations");
    if (!ok) {
        VP_ASSERT((m.keys == before.keys) && (m.values == before.values) && (m.key_size == before.key_size) && (m.value_size == before.value_size)
                  && (m.max_map_size == before.max_map_size) && (m.current_size == before.current_size), "rejected set-up leaves the map as it was");
    }
    VP_OUT(ok);
}
#elif defined(T_FRESH)
/* after set-up on an arbitrary previous state: empty, and takes CAP different keys */
void harness(void) {
    Map_t m;
    uint8_t* keys = vp_bytes(CAP * KS);
    uint8_t* values = vp_bytes(CAP * VS);
    m.keys = keys;
    m.values = values;
    m.key_size = (int32_t)VP_U32("old");
    m.value_size = (int32_t)VP_U32("old");
    m.max_map_size = (int32_t)VP_U32("old");
    m.current_size = (int32_t)VP_U32("old");
    VP_ASSERT(Map_init(&m, keys, values, KS, VS, CAP), "set-up succeeds");
    uint8_t k[KS];
    uint8_t v[VS];
    for (uint32_t i = 0U; i < CAP; ++i) {
        for (uint32_t j = 0U; j < KS; ++j) {
            k[j] = VP_U8("key");
        }
        VP_ASSUME(k[0] % CAP == i);
        for (uint32_t j = 0U; j < VS; ++j) {
            v[j] = VP_U8("value");
        }
        VP_ASSERT(!Map_getValue(&m, k, v), "a fresh map holds no key");
        VP_ASSERT(Map_insert(&m, k, v), "a fresh map takes its full capacity");
    }
    for (uint32_t j = 0U; j < KS; ++j) {
        k[j] = VP_U8("key");
    }
    const bool present = Map_getValue(&m, k, v);
    VP_ASSERT(Map_insert(&m, k, v) == present, "and not more than its capacity");
    VP_OUT(present);
}
#endif
