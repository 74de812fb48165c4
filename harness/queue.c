/* Q01 I01: Queue */
#include "vp.h"
#include "queue.h"

#if defined(T_OPS)
/* NQ queues of CAP elements of ES bytes, NOPS arbitrary operations */
typedef struct {
    Queue_t q;
    uint8_t* store;
    uint8_t m[CAP][ES]; /* oldest first */
    uint32_t n;
} inst_t;
static inst_t Q[NQ];
static uint8_t el[ES];

static void observe(inst_t* s) {
    VP_ASSERT(Queue_empty(&s->q) == (s->n == 0U), "empty reports whether no element is stored");
    VP_ASSERT(Queue_full(&s->q) == (s->n == CAP), "full reports whether the capacity is used");
}
static void fill(uint8_t* e, uint8_t v) {
    for (uint32_t j = 0U; j < ES; ++j) {
        e[j] = (uint8_t)(v + j);
    }
}
static void op(inst_t* s, uint8_t kind) {
    uint8_t* e = (uint8_t*)vp_alloc(ES);
    if (kind == 0U) {
        for (uint32_t j = 0U; j < ES; ++j) {
            e[j] = el[j];
        }
        const bool ok = Queue_enqueue(&s->q, e);
        VP_ASSERT(ok == (s->n < CAP), "enqueue fails exactly when full");
        for (uint32_t i = 0U; i < CAP; ++i) {
            if (i == s->n) {
                for (uint32_t j = 0U; j < ES; ++j) {
                    s->m[i][j] = e[j];
                }
            }
        }
        if (s->n < CAP) {
            s->n++;
        }
        for (uint32_t j = 0U; j < ES; ++j) {
            VP_ASSERT(e[j] == el[j], "enqueue does not modify the element");
        }
    } else if (kind <= 3U) {
        fill(e, 0xC1U);
        const bool ok = (kind == 1U) ? Queue_dequeue(&s->q, e) : (kind == 2U) ? Queue_front(&s->q, e) : Queue_rear(&s->q, e);
        VP_ASSERT(ok == (s->n > 0U), "dequeue, front and rear fail exactly when empty");
        if (s->n == 0U) {
            for (uint32_t j = 0U; j < ES; ++j) {
                VP_ASSERT(e[j] == (uint8_t)(0xC1U + j), "a failed call leaves the caller's buffer alone");
            }
        } else {
            for (uint32_t i = 0U; i < CAP; ++i) {
                if (i == ((kind == 3U) ? s->n - 1U : 0U)) {
                    for (uint32_t j = 0U; j < ES; ++j) {
                        VP_ASSERT(e[j] == s->m[i][j], "the oldest (rear: newest) element comes back byte for byte");
                    }
                }
            }
            if (kind == 1U) {
                for (uint32_t i = 0U; i + 1U < CAP; ++i) {
                    for (uint32_t j = 0U; j < ES; ++j) {
                        s->m[i][j] = s->m[i + 1U][j];
                    }
                }
                s->n--;
            }
        }
        VP_OUT(e[0]);
    } else {
        /* missing arguments: queue and buffer unchanged (checked by the following operations) */
        fill(e, 0xC1U);
        bool ok = false;
        switch (kind) {
            case 4U: ok = Queue_enqueue(NULL_PTR, e); break;
            case 5U: ok = Queue_enqueue(&s->q, NULL_PTR); break;
            case 6U: ok = Queue_dequeue(NULL_PTR, e); break;
            case 7U: ok = Queue_dequeue(&s->q, NULL_PTR); break;
            case 8U: ok = Queue_front(NULL_PTR, e) || Queue_front(&s->q, NULL_PTR); break;
            default: ok = Queue_rear(NULL_PTR, e) || Queue_rear(&s->q, NULL_PTR); break;
        }
        VP_ASSERT(!ok, "missing arguments fail");
        for (uint32_t j = 0U; j < ES; ++j) {
            VP_ASSERT(e[j] == (uint8_t)(0xC1U + j), "a failed call leaves the caller's buffer alone");
        }
    }
    observe(s);
}
void harness(void) {
    for (uint32_t k = 0U; k < NQ; ++k) {
        Q[k].store = (uint8_t*)vp_alloc(CAP * ES);
        for (uint32_t i = 0U; i < CAP * ES; ++i) {
            Q[k].store[i] = 0x33U;
        }
        VP_ASSERT(Queue_init(&Q[k].q, CAP, ES, Q[k].store), "set-up succeeds");
        observe(&Q[k]);
    }
    for (uint32_t o = 0U; o < NOPS; ++o) {
        const uint8_t kind = VP_U8("op");
        VP_ASSUME(kind <= KINDS);
        for (uint32_t j = 0U; j < ES; ++j) {
            el[j] = VP_U8("element");
        }
        const bool second = (NQ > 1) ? VP_BOOL("which") : false;
        if (second) {
            op(&Q[NQ - 1], kind);
        } else {
            op(&Q[0], kind);
        }
    }
}
#elif defined(T_BIG)
/* ROT fixed elements pass through, then FILL are stored (one of them arbitrary at PROBE), all come back in order */
static Queue_t q;
static void val(uint8_t* e, uint32_t i) {
    for (uint32_t j = 0U; j < ES; ++j) {
        e[j] = (uint8_t)(i + j * 5U);
    }
    if (ES > 1) {
        e[ES - 1] = (uint8_t)(i >> 8U);
    }
}
void harness(void) {
    uint8_t* store = (uint8_t*)vp_alloc(CAP * ES);
    VP_ASSERT(Queue_init(&q, CAP, ES, store), "set-up succeeds");
    uint8_t e[ES];
    uint8_t r[ES];
    for (uint32_t i = 0U; i < ROT; ++i) {
        val(e, i);
        VP_ASSERT(Queue_enqueue(&q, e), "enqueue with room succeeds");
        VP_ASSERT(Queue_dequeue(&q, r) && r[0] == e[0], "the element comes back");
    }
    const uint8_t x = VP_U8("element");
    for (uint32_t i = 0U; i < FILL; ++i) {
        val(e, i);
        if (i == PROBE) {
            e[0] = x;
        }
        VP_ASSERT(!Queue_full(&q), "not full below the capacity");
        VP_ASSERT(Queue_enqueue(&q, e), "enqueue with room succeeds");
        VP_ASSERT(Queue_rear(&q, r) && r[0] == e[0] && r[ES - 1] == e[ES - 1], "rear is the newest element");
        VP_ASSERT(!Queue_empty(&q), "not empty");
    }
    VP_ASSERT(Queue_full(&q) == (FILL == CAP), "full exactly at the capacity");
    if (FILL == CAP) {
        VP_ASSERT(!Queue_enqueue(&q, e), "enqueue into a full queue fails");
    }
#ifdef DRAIN
#define PART
#else
#define DRAIN FILL
#endif
    for (uint32_t i = 0U; i < DRAIN; ++i) {
        val(e, i);
        if (i == PROBE) {
            e[0] = x;
        }
        VP_ASSERT(Queue_front(&q, r) && r[0] == e[0], "front is the oldest element");
        VP_ASSERT(Queue_dequeue(&q, r), "dequeue of a non-empty queue succeeds");
        for (uint32_t j = 0U; j < ES; ++j) {
            VP_ASSERT(r[j] == e[j], "elements come back in order, byte for byte");
        }
    }
#ifndef PART
    VP_ASSERT(Queue_empty(&q) && !Queue_dequeue(&q, r), "empty at the end");
#else
    VP_ASSERT(!Queue_empty(&q) && !Queue_full(&q), "neither empty nor full in between");
#endif
    VP_OUT(r[0]);
}
#elif defined(T_INIT)
void harness(void) {
    Queue_t q;
    uint8_t b[1];
    uint8_t old[1];
    q.front = VP_U32("old");
    q.rear = VP_U32("old");
    q.size = VP_U32("old");
    q.capacity = VP_U32("old");
    q.element_size = VP_U32("old");
    q.buffer = VP_BOOL("oldb") ? old : (uint8_t*)NULL_PTR;
    const Queue_t before = q;
    const uint32_t cap = VP_U32("capacity");
    const uint32_t es = VP_U32("element_size");
    uint8_t* p = VP_BOOL("buffer") ? b : (uint8_t*)NULL_PTR;
    const bool ok = Queue_init(&q, cap, es, p);
    VP_ASSERT(ok == ((cap != 0U) && (es != 0U) && (p != NULL_PTR)), "set-up succeeds exactly for valid configurations");
    if (!ok) {
        VP_ASSERT((q.front == before.front) && (q.rear == before.rear) && (q.size == before.size) && (q.capacity == before.capacity)
                  && (q.element_size == before.element_size) && (q.buffer == before.buffer), "rejected set-up leaves the queue as it was");
    } else {
        VP_ASSERT(Queue_empty(&q) && !Queue_full(&q), "a fresh queue is empty");
    }
    VP_OUT(ok);
}
#elif defined(T_FRESH)
void harness(void) {
    Queue_t q;
    uint8_t* store = vp_bytes(CAP * ES);
    q.front = VP_U32("old");
    q.rear = VP_U32("old");
    q.size = VP_U32("old");
    q.capacity = VP_U32("old");
    q.element_size = VP_U32("old");
    q.buffer = store;
    VP_ASSERT(Queue_init(&q, CAP, ES, store), "set-up succeeds");
    uint8_t e[CAP][ES];
    uint8_t r[ES];
    VP_ASSERT(Queue_empty(&q) && !Queue_dequeue(&q, r) && !Queue_front(&q, r) && !Queue_rear(&q, r), "a fresh queue is empty");
    for (uint32_t i = 0U; i < CAP; ++i) {
        for (uint32_t j = 0U; j < ES; ++j) {
            e[i][j] = VP_U8("e");
        }
        VP_ASSERT(Queue_enqueue(&q, e[i]), "a fresh queue takes its full capacity");
    }
    VP_ASSERT(Queue_full(&q) && !Queue_enqueue(&q, e[0]), "and not more");
    for (uint32_t i = 0U; i < CAP; ++i) {
        VP_ASSERT(Queue_dequeue(&q, r), "all elements come back");
        for (uint32_t j = 0U; j < ES; ++j) {
            VP_ASSERT(r[j] == e[i][j], "all elements come back");
        }
    }
    VP_OUT(r[0]);
}
#endif
