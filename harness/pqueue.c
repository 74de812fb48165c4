/* P01 P02 I01: PriorityQueue */
#include "vp.h"
#include "priority_queue.h"

static PriorityQueueItem_t item(uint32_t* p, uint8_t* e) {
    PriorityQueueItem_t it;
    it.priority = p;
    it.element = e;
    return it;
}

#if defined(T_OPS) || defined(T_EVICT)
typedef struct {
    PriorityQueue_t q;
    uint32_t* ps;
    uint8_t* store;
    uint32_t mp[CAP]; /* in order of arrival */
    uint8_t me[CAP][ES];
    uint32_t n;
} inst_t;
static inst_t Q[NQ];
static uint8_t el[ES];
static uint32_t pcopy[CAP];
static uint8_t scopy[CAP * ES];

static void model_remove(inst_t* s, uint32_t at) {
    for (uint32_t i = 0U; i + 1U < CAP; ++i) {
        if (i >= at) {
            s->mp[i] = s->mp[i + 1U];
            for (uint32_t j = 0U; j < ES; ++j) {
                s->me[i][j] = s->me[i + 1U][j];
            }
        }
    }
    s->n--;
}
static void model_append(inst_t* s, uint32_t p, const uint8_t* e) {
    for (uint32_t i = 0U; i < CAP; ++i) {
        if (i == s->n) {
            s->mp[i] = p;
            for (uint32_t j = 0U; j < ES; ++j) {
                s->me[i][j] = e[j];
            }
        }
    }
    s->n++;
}
static uint32_t model_highest(const inst_t* s) {
    uint32_t at = 0U;
    uint32_t best = s->mp[0];
    for (uint32_t i = 1U; i < CAP; ++i) {
        if ((i < s->n) && (s->mp[i] > best)) {
            at = i;
            best = s->mp[i];
        }
    }
    return at;
}
static uint32_t model_lowest(const inst_t* s) {
    uint32_t at = 0U;
    uint32_t best = s->mp[0];
    for (uint32_t i = 1U; i < CAP; ++i) {
        if ((i < s->n) && (s->mp[i] < best)) {
            at = i;
            best = s->mp[i];
        }
    }
    return at;
}
static void enqueue(inst_t* s, uint32_t prio) {
    uint8_t* e = (uint8_t*)vp_alloc(ES);
    uint32_t* p = (uint32_t*)vp_alloc(sizeof(uint32_t));
    for (uint32_t j = 0U; j < ES; ++j) {
        e[j] = el[j];
    }
    *p = prio;
    const PriorityQueueItem_t it = item(p, e);
    for (uint32_t i = 0U; i < CAP; ++i) {
        pcopy[i] = s->ps[i];
    }
    for (uint32_t i = 0U; i < CAP * ES; ++i) {
        scopy[i] = s->store[i];
    }
    const bool ok = PriorityQueue_enqueue(&s->q, &it);
    if (s->n < CAP) {
        VP_ASSERT(ok, "enqueue into a queue with room succeeds");
        model_append(s, prio, el);
    } else {
        const uint32_t low = model_lowest(s);
        bool higher = false;
        for (uint32_t i = 0U; i < CAP; ++i) {
            if ((i == low) && (prio > s->mp[i])) {
                higher = true;
            }
        }
        VP_ASSERT(ok == higher, "enqueue into a full queue succeeds exactly for a priority above the lowest stored one");
        if (higher) {
            model_remove(s, low);
            model_append(s, prio, el);
        } else {
            for (uint32_t i = 0U; i < CAP; ++i) {
                VP_ASSERT(pcopy[i] == s->ps[i], "failed enqueue changes nothing");
            }
            for (uint32_t i = 0U; i < CAP * ES; ++i) {
                VP_ASSERT(scopy[i] == s->store[i], "failed enqueue changes nothing");
            }
        }
    }
    VP_ASSERT(!PriorityQueue_empty(&s->q), "not empty after enqueue");
    VP_ASSERT(*p == prio, "item is not modified");
    for (uint32_t j = 0U; j < ES; ++j) {
        VP_ASSERT(e[j] == el[j], "item is not modified");
    }
    VP_OUT(ok);
}
static void dequeue(inst_t* s) {
    uint8_t* e = (uint8_t*)vp_alloc(ES);
    for (uint32_t j = 0U; j < ES; ++j) {
        e[j] = (uint8_t)(0xB7U + j);
    }
    VP_ASSERT(PriorityQueue_empty(&s->q) == (s->n == 0U), "empty is reported truthfully");
    const bool ok = PriorityQueue_dequeue(&s->q, e);
    VP_ASSERT(ok == (s->n > 0U), "dequeue fails exactly when empty");
    if (s->n > 0U) {
        const uint32_t at = model_highest(s);
        for (uint32_t i = 0U; i < CAP; ++i) {
            if (i == at) {
                for (uint32_t j = 0U; j < ES; ++j) {
                    VP_ASSERT(e[j] == s->me[i][j], "dequeue returns the oldest element of the highest priority");
                }
            }
        }
        model_remove(s, at);
    } else {
        for (uint32_t j = 0U; j < ES; ++j) {
            VP_ASSERT(e[j] == (uint8_t)(0xB7U + j), "failed dequeue leaves the caller's buffer alone");
        }
    }
    VP_ASSERT(PriorityQueue_empty(&s->q) == (s->n == 0U), "empty is reported truthfully");
    VP_OUT(e[0]);
}
static void setup(void) {
    for (uint32_t k = 0U; k < NQ; ++k) {
        Q[k].ps = (uint32_t*)vp_alloc(CAP * sizeof(uint32_t));
        Q[k].store = (uint8_t*)vp_alloc(CAP * ES);
        for (uint32_t i = 0U; i < CAP; ++i) {
            Q[k].ps[i] = 0U;
        }
        for (uint32_t i = 0U; i < CAP * ES; ++i) {
            Q[k].store[i] = 0U;
        }
        const PriorityQueueItem_t items = item(Q[k].ps, Q[k].store);
        VP_ASSERT(PriorityQueue_init(&Q[k].q, CAP, ES, &items), "set-up succeeds");
        VP_ASSERT(PriorityQueue_empty(&Q[k].q), "a fresh queue is empty");
    }
}
static uint32_t in_prio(void) {
    const uint32_t p = VP_U32("priority");
    return p;
}
#endif

#if defined(T_OPS)
/* NOPS arbitrary operations on NQ queues, then everything is dequeued */
void harness(void) {
    setup();
    for (uint32_t o = 0U; o < NOPS; ++o) {
        const bool enq = VP_BOOL("enqueue");
        const bool second = (NQ > 1) ? VP_BOOL("which") : false;
        const uint32_t prio = in_prio();
        for (uint32_t j = 0U; j < ES; ++j) {
            el[j] = VP_U8("element");
        }
        inst_t* other = &Q[NQ - 1];
        if (enq) {
            if (second) {
                enqueue(other, prio);
            } else {
                enqueue(&Q[0], prio);
            }
        } else {
            if (second) {
                dequeue(other);
            } else {
                dequeue(&Q[0]);
            }
        }
    }
    for (uint32_t k = 0U; k < NQ; ++k) {
        for (uint32_t i = 0U; i <= CAP; ++i) {
            dequeue(&Q[k]);
        }
    }
}
#elif defined(T_EVICT)
/* PRE elements with arbitrary priorities, DEQ dequeued, then POST more (PRE + POST > CAP); the stored set is then
 * read back in whatever order dequeue gives it */
void harness(void) {
    setup();
    inst_t* s = &Q[0];
    for (uint32_t o = 0U; o < PRE + POST; ++o) {
        if (o == PRE) {
            for (uint32_t d = 0U; d < DEQ; ++d) {
                dequeue(s);
            }
        }
        for (uint32_t j = 0U; j < ES; ++j) {
            el[j] = (uint8_t)(o * 16U + j);
        }
        enqueue(s, in_prio());
    }
    bool seen[CAP];
    for (uint32_t i = 0U; i < CAP; ++i) {
        seen[i] = false;
    }
    const uint32_t n = s->n;
    for (uint32_t i = 0U; i < CAP; ++i) {
        if (i < n) {
            uint8_t e[ES];
            VP_ASSERT(PriorityQueue_dequeue(&s->q, e), "as many elements are stored as the model says");
            for (uint32_t m = 0U; m < CAP; ++m) {
                if ((m < n) && (s->me[m][0] == e[0])) {
                    for (uint32_t j = 0U; j < ES; ++j) {
                        VP_ASSERT(e[j] == s->me[m][j], "stored elements come back byte for byte");
                    }
                    VP_ASSERT(!seen[m], "each stored element comes back once");
                    seen[m] = true;
                }
            }
        }
    }
    for (uint32_t m = 0U; m < CAP; ++m) {
        VP_ASSERT((m >= n) || seen[m], "the stored elements are those that were not replaced");
    }
    VP_ASSERT(PriorityQueue_empty(&s->q), "the number of stored elements is the model's");
}
#elif defined(T_BIG)
/* CAP fixed elements with priorities PRI(i), one arbitrary priority at PROBE; one more element; everything dequeued */
static PriorityQueue_t q;
static uint32_t mp[VP_DIM(CAP + 1)];
static bool gone[VP_DIM(CAP + 1)];
static void val(uint8_t* e, uint32_t i) {
    for (uint32_t j = 0U; j < ES; ++j) {
        e[j] = (uint8_t)(i + j * 5U);
    }
    if (ES > 1) {
        e[ES - 1] = (uint8_t)(i >> 8U);
    }
}
void harness(void) {
    uint32_t* ps = (uint32_t*)vp_alloc(CAP * sizeof(uint32_t));
    uint8_t* store = (uint8_t*)vp_alloc(CAP * ES);
    PriorityQueueItem_t it = item(ps, store);
    VP_ASSERT(PriorityQueue_init(&q, CAP, ES, &it), "set-up succeeds");
    uint8_t e[ES];
    for (uint32_t i = 0U; i < CAP; ++i) {
        val(e, i);
        mp[i] = 1000U + (PRI);
        it = item(&mp[i], e);
        VP_ASSERT(PriorityQueue_enqueue(&q, &it), "enqueue into a queue with room succeeds");
    }
    uint32_t low = 0U;
    for (uint32_t i = 1U; i < CAP; ++i) {
        if (mp[i] < mp[low]) {
            low = i;
        }
    }
    /* lowest priority again: rejected; a higher one: replaces the oldest lowest */
    uint32_t p = mp[low];
    it = item(&p, e);
    VP_ASSERT(!PriorityQueue_enqueue(&q, &it), "enqueue of the lowest priority into a full queue fails");
    mp[CAP] = mp[low] + 1U;
    val(e, CAP);
    const uint8_t x = VP_U8("element");
    e[0] = x;
    it = item(&mp[CAP], e);
    VP_ASSERT(PriorityQueue_enqueue(&q, &it), "enqueue of a higher priority into a full queue succeeds");
    gone[low] = true;
    for (uint32_t k = 0U; k < READ; ++k) {
        uint32_t best = CAP + 1U;
        for (uint32_t i = 0U; i <= CAP; ++i) {
            if (!gone[i] && (best > CAP || mp[i] > mp[best])) {
                best = i;
            }
        }
        uint8_t r[ES];
        VP_ASSERT(PriorityQueue_dequeue(&q, r), "stored elements come back");
        val(e, best);
        if (best == CAP) {
            e[0] = x;
        }
        for (uint32_t j = 0U; j < ES; ++j) {
            VP_ASSERT(r[j] == e[j], "dequeue returns the oldest element of the highest priority");
        }
        gone[best] = true;
        VP_OUT(r[0]);
    }
    VP_ASSERT(PriorityQueue_empty(&q) == (READ == CAP), "empty is reported truthfully");
}
#elif defined(T_INIT)
void harness(void) {
    PriorityQueue_t q;
    uint8_t b[1];
    uint32_t pr[1];
    uint8_t old_b[1];
    uint32_t old_p[1];
    q.size = VP_U32("old");
    q.capacity = VP_U32("old");
    q.element_size = VP_U32("old");
    q.priority_array = VP_BOOL("oldp") ? old_p : (uint32_t*)NULL_PTR;
    q.buffer = VP_BOOL("oldb") ? old_b : (uint8_t*)NULL_PTR;
    const PriorityQueue_t before = q;
    const uint32_t cap = VP_U32("capacity");
    const uint32_t es = VP_U32("element_size");
    const PriorityQueueItem_t items = item(pr, b);
    const PriorityQueueItem_t* ip = VP_BOOL("items") ? &items : (const PriorityQueueItem_t*)NULL_PTR;
    PriorityQueue_t* qp = VP_BOOL("queue") ? &q : (PriorityQueue_t*)NULL_PTR;
    const bool ok = PriorityQueue_init(qp, cap, es, ip);
    VP_ASSERT(ok == ((cap != 0U) && (es != 0U) && (ip != NULL_PTR) && (qp != NULL_PTR)), "set-up succeeds exactly for valid configurations");
    if (!ok) {
        VP_ASSERT((q.size == before.size) && (q.capacity == before.capacity) && (q.element_size == before.element_size)
                  && (q.priority_array == before.priority_array) && (q.buffer == before.buffer), "rejected set-up leaves the queue as it was");
    } else {
        VP_ASSERT(PriorityQueue_empty(&q), "a fresh queue is empty");
    }
    VP_OUT(ok);
}
#elif defined(T_FRESH)
void harness(void) {
    PriorityQueue_t q;
    uint8_t* store = vp_bytes(CAP * ES);
    uint32_t* ps = (uint32_t*)vp_alloc(CAP * sizeof(uint32_t));
    for (uint32_t i = 0U; i < CAP; ++i) {
        ps[i] = VP_U32("old");
    }
    q.size = VP_U32("old");
    q.capacity = VP_U32("old");
    q.element_size = VP_U32("old");
    q.priority_array = ps;
    q.buffer = store;
    PriorityQueueItem_t it = item(ps, store);
    VP_ASSERT(PriorityQueue_init(&q, CAP, ES, &it), "set-up succeeds");
    uint8_t e[CAP][ES];
    uint8_t r[ES];
    VP_ASSERT(PriorityQueue_empty(&q) && !PriorityQueue_dequeue(&q, r), "a fresh queue is empty");
    uint32_t p = VP_U32("p");
    for (uint32_t i = 0U; i < CAP; ++i) {
        for (uint32_t j = 0U; j < ES; ++j) {
            e[i][j] = VP_U8("e");
        }
        it = item(&p, e[i]);
        VP_ASSERT(PriorityQueue_enqueue(&q, &it), "a fresh queue takes its full capacity");
    }
    VP_ASSERT(!PriorityQueue_enqueue(&q, &it), "and not more");
    for (uint32_t i = 0U; i < CAP; ++i) {
        VP_ASSERT(PriorityQueue_dequeue(&q, r), "all elements come back");
        for (uint32_t j = 0U; j < ES; ++j) {
            VP_ASSERT(r[j] == e[i][j], "all elements come back");
        }
    }
    VP_OUT(r[0]);
}
#endif
