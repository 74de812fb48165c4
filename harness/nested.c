/* N01: a callback that calls the library itself.  T_SORTS: the comparison of an outer sort, at one arbitrary call of it,
 * sorts another array; T_PASS: a task runs a scheduler pass over another table and adds tasks to a third one */
#include "vp.h"
#if defined(T_SORTS)
#include HDR
#include HDR2
#define BYTE(id, j) ((uint8_t)((j) == 0U ? (id) : (uint8_t)(0x40U + (id) * 7U + (j) * 3U)))
static uint8_t rank_of[N + 1];
static uint8_t at;
static uint8_t calls;
static uint8_t* inner;
static uint8_t orig[M + 1];
static bool done;
static bool inner_greater(void* a, void* b) {
    return *(const uint8_t*)a > *(const uint8_t*)b;
}
static bool greater(void* a, void* b) {
    const uint8_t x = *(const uint8_t*)a;
    const uint8_t y = *(const uint8_t*)b;
    if (calls == at) {
        FN2(inner, M, ES2, inner_greater);
        done = true;
    }
    calls++;
    return rank_of[x % (N + 1U)] > rank_of[y % (N + 1U)];
}
void harness(void) {
    uint8_t* buf = (uint8_t*)vp_alloc(N * ES);
    inner = (uint8_t*)vp_alloc(M * ES2);
    at = VP_U8("at");
    for (uint32_t i = 0U; i < N; ++i) {
        for (uint32_t j = 0U; j < ES; ++j) {
            buf[i * ES + j] = BYTE(i, j);
        }
        rank_of[i] = VP_U8("rank");
    }
    for (uint32_t i = 0U; i < M; ++i) {
        orig[i] = VP_U8("inner");
        for (uint32_t j = 0U; j < ES2; ++j) {
            inner[i * ES2 + j] = (uint8_t)(orig[i] + j);
        }
    }
    FN(buf, N, ES, greater);
    bool seen[N + 1];
    for (uint32_t i = 0U; i < N; ++i) {
        seen[i] = false;
        VP_OUT(buf[i * ES]);
    }
    for (uint32_t i = 0U; i < N; ++i) {
        const uint8_t id = buf[i * ES];
        VP_ASSERT(id < N, "outer sort: only original elements in the result");
        for (uint32_t j = 1U; j < ES; ++j) {
            VP_ASSERT(buf[i * ES + j] == BYTE(id, j), "outer sort: elements are preserved byte for byte");
        }
        if (id < N) {
            VP_ASSERT(!seen[id], "outer sort: no element twice");
            seen[id] = true;
        }
    }
    for (uint32_t i = 1U; i < N; ++i) {
        VP_ASSERT(rank_of[buf[(i - 1U) * ES] % (N + 1U)] <= rank_of[buf[i * ES] % (N + 1U)], "outer sort: result is sorted");
    }
    for (uint32_t i = 0U; i < M; ++i) {
        for (uint32_t j = 0U; j < ES2; ++j) {
            VP_ASSERT(inner[i * ES2 + j] == (uint8_t)(inner[i * ES2] + j), "inner sort: elements are preserved byte for byte");
        }
        VP_ASSERT(!done || (i == 0U) || (inner[(i - 1U) * ES2] <= inner[i * ES2]), "inner sort: result is sorted");
        uint32_t before = 0U;
        uint32_t after = 0U;
        for (uint32_t k = 0U; k < M; ++k) {
            before += (orig[k] == orig[i]) ? 1U : 0U;
            after += (inner[k * ES2] == orig[i]) ? 1U : 0U;
        }
        VP_ASSERT(before == after, "inner sort: result is a permutation of the original");
    }
}
#elif defined(T_PASS)
#include "scheduler.h"
static SchedulerTask_t* outer;
static SchedulerTask_t* other;
static SchedulerTask_t* third;
static uint32_t log_[64];
static uint32_t nlog;
static uint32_t adds;
static void note(uint32_t k) {
    if (nlog < 64U) {
        log_[nlog] = k;
    }
    nlog++;
}
static void i0(void) { note(10U); }
static void i1(void) { note(11U); }
static void o0(void) { note(0U); }
static void o1(void) {
    note(1U);
    Scheduler_run(other, M);
}
static void o2(void) {
    note(2U);
    SchedulerTask_t t;
    t.function = i0;
    t.active = true;
    const bool ok = Scheduler_addTask(third, M, &t);
    VP_ASSERT(ok == (adds < M), "adding to another table from a task succeeds while it has a free slot");
    adds += ok ? 1U : 0U;
}
typedef void (*fn_t)(void);
static fn_t pick(uint8_t k) {
    switch (k & 3U) {
        case 0U: return o0;
        case 1U: return o1;
        case 2U: return o2;
        default: return (fn_t)NULL_PTR;
    }
}
void harness(void) {
    outer = (SchedulerTask_t*)vp_alloc(N * sizeof(SchedulerTask_t));
    other = (SchedulerTask_t*)vp_alloc(M * sizeof(SchedulerTask_t));
    third = (SchedulerTask_t*)vp_alloc(M * sizeof(SchedulerTask_t));
    Scheduler_init(third, M);
    for (uint32_t i = 0U; i < N; ++i) {
        outer[i].function = pick(VP_U8("outer"));
        outer[i].active = VP_BOOL("active");
    }
    for (uint32_t i = 0U; i < M; ++i) {
        const uint8_t k = VP_U8("inner");
        other[i].function = ((k & 2U) != 0U) ? (fn_t)NULL_PTR : ((k & 1U) != 0U) ? i1 : i0;
        other[i].active = VP_BOOL("active");
    }
    Scheduler_run(outer, N);
    uint32_t n = 0U;
    uint32_t added = 0U;
    for (uint32_t i = 0U; i < N; ++i) {
        if ((outer[i].function == NULL_PTR) || !outer[i].active) {
            continue;
        }
        const uint32_t k = (outer[i].function == o0) ? 0U : (outer[i].function == o1) ? 1U : 2U;
        VP_ASSERT(log_[n] == k, "the outer pass runs its tasks in slot order");
        n++;
        if (k == 1U) {
            for (uint32_t j = 0U; j < M; ++j) {
                if ((other[j].function != NULL_PTR) && other[j].active) {
                    VP_ASSERT(log_[n] == ((other[j].function == i0) ? 10U : 11U), "the inner pass runs its tasks in slot order");
                    n++;
                }
            }
        }
        added += ((k == 2U) && (added < M)) ? 1U : 0U;
    }
    VP_ASSERT(n == nlog, "every active task runs exactly once per pass");
    for (uint32_t j = 0U; j < M; ++j) {
        VP_ASSERT((third[j].function == NULL_PTR) == (j >= added), "tasks are added to the first free slots of the other table");
    }
    VP_OUT(nlog);
}
#endif
