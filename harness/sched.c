/* T01 T02 T03: Scheduler */
#include "vp.h"
#include "scheduler.h"

#if defined(T_RUN)
/* table of N slots between two guard slots, six task functions; task k, when called, rewrites slot target[k] */
#define NF 6U
static SchedulerTask_t* tab;
static uint32_t calls[32];
static uint32_t ncalls;
static uint32_t target[NF];
static bool mutate[NF];
static SchedulerTask_t repl[NF];
static void hit(uint32_t k) {
    if (ncalls < 32U) {
        calls[ncalls] = k;
    }
    ncalls++;
    if (mutate[k]) {
        tab[1U + target[k]] = repl[k];
    }
}
static void f0(void) { hit(0U); }
static void f1(void) { hit(1U); }
static void f2(void) { hit(2U); }
static void f3(void) { hit(3U); }
static void f4(void) { hit(4U); }
static void f5(void) { hit(5U); }
typedef void (*fn_t)(void);
static fn_t pick(uint8_t k) {
    switch (k) {
        case 0U: return f0;
        case 1U: return f1;
        case 2U: return f2;
        case 3U: return f3;
        case 4U: return f4;
        case 5U: return f5;
        default: return (fn_t)NULL_PTR;
    }
}
static uint32_t index_of(fn_t f) {
    return (f == f0) ? 0U : (f == f1) ? 1U : (f == f2) ? 2U : (f == f3) ? 3U : (f == f4) ? 4U : (f == f5) ? 5U : NF;
}
void harness(void) {
    SchedulerTask_t model[N + 2];
    tab = (SchedulerTask_t*)vp_alloc((N + 2) * sizeof(SchedulerTask_t));
    for (uint32_t i = 0U; i < N + 2U; ++i) {
        tab[i].function = pick(VP_U8("function"));
        tab[i].active = VP_BOOL("active");
        model[i] = tab[i];
    }
    for (uint32_t k = 0U; k < NF; ++k) {
        mutate[k] = (MUT != 0) ? VP_BOOL("mutate") : false;
        target[k] = VP_U8("target");
        VP_ASSUME(target[k] < ((N > 0) ? N : 1));
        repl[k].function = pick(VP_U8("function"));
        repl[k].active = VP_BOOL("active");
    }
    uint32_t expect[N + 1];
    uint32_t n = 0U;
    for (uint32_t i = 0U; i < N; ++i) {
        const uint32_t k = index_of(model[1U + i].function);
        if ((k < NF) && model[1U + i].active) {
            expect[n] = k;
            n++;
            if (mutate[k]) {
                model[1U + target[k]] = repl[k];
            }
        }
    }
    Scheduler_run(&tab[1], N);
    VP_ASSERT(ncalls == n, "exactly the active slots that hold a function are run, once each");
    for (uint32_t i = 0U; i < N; ++i) {
        VP_ASSERT((i >= n) || (calls[i] == expect[i]), "tasks run in slot order");
    }
    for (uint32_t i = 0U; i < N + 2U; ++i) {
        VP_ASSERT((tab[i].function == model[i].function) && (tab[i].active == model[i].active), "the pass does not modify the task table");
    }
    VP_OUT(ncalls);
}
#elif defined(T_RUNBIG)
/* N slots in one exact object, every STEPth holds a function; an arbitrary slot is switched off and another emptied */
static uint32_t count;
static void tick(void) { ++count; }
void harness(void) {
    SchedulerTask_t* tab = (SchedulerTask_t*)vp_alloc(N * sizeof(SchedulerTask_t));
    uint32_t want = 0U;
#ifdef OFFSLOT
    const uint32_t off = OFFSLOT + (VP_U8("off") & 3U);
#else
    const uint32_t off = VP_U32("off");
    VP_ASSUME(off < N);
#endif
    for (uint32_t i = 0U; i < N; ++i) {
        tab[i].function = ((i % STEP) == (N - 1U) % STEP) ? tick : (void (*)(void))NULL_PTR;
        tab[i].active = (i != off);
        want += (((i % STEP) == (N - 1U) % STEP) && (i != off)) ? 1U : 0U;
    }
    Scheduler_run(tab, N);
    VP_ASSERT(count == want, "exactly the active slots that hold a function are run, once each");
    VP_OUT(count);
}
#elif defined(T_ADD)
/* arbitrary table of N slots between guard slots (INIT: initialised from arbitrary contents first), ADDS additions */
static void g0(void) {}
static void g1(void) {}
static void g2(void) {}
typedef void (*fn_t)(void);
static fn_t pick(uint8_t k) {
    switch (k & 3U) {
        case 0U: return g0;
        case 1U: return g1;
        case 2U: return g2;
        default: return (fn_t)NULL_PTR;
    }
}
void harness(void) {
    SchedulerTask_t* tab = (SchedulerTask_t*)vp_alloc((N + 2) * sizeof(SchedulerTask_t));
    SchedulerTask_t model[N + 2];
    for (uint32_t i = 0U; i < N + 2U; ++i) {
        tab[i].function = pick(VP_U8("function"));
        tab[i].active = VP_BOOL("active");
        model[i] = tab[i];
    }
#ifdef INIT
    Scheduler_init(&tab[1], N);
    for (uint32_t i = 0U; i < N; ++i) {
        VP_ASSERT(tab[1U + i].function == NULL_PTR, "after initialisation all slots are free");
        model[1U + i] = tab[1U + i];
    }
#endif
    for (uint32_t a = 0U; a < ADDS; ++a) {
        SchedulerTask_t* t = (SchedulerTask_t*)vp_alloc(sizeof(SchedulerTask_t));
        t->function = pick(VP_U8("new"));
        t->active = VP_BOOL("new active");
        const SchedulerTask_t tc = *t;
        uint32_t first = N;
        for (uint32_t i = N; i > 0U; --i) {
            if (model[i].function == NULL_PTR) {
                first = i - 1U;
            }
        }
        const bool ok = Scheduler_addTask(&tab[1], N, t);
        VP_ASSERT(ok == (first < N), "adding succeeds exactly when a slot is free");
        for (uint32_t i = 0U; i < N; ++i) {
            if (i == first) {
                model[1U + i] = tc;
            }
        }
        VP_ASSERT((t->function == tc.function) && (t->active == tc.active), "the new task is not modified");
        for (uint32_t i = 0U; i < N + 2U; ++i) {
            VP_ASSERT((tab[i].function == model[i].function) && (tab[i].active == model[i].active), "the task goes to the first free slot and nothing else changes");
        }
        VP_OUT(ok);
    }
    VP_ASSERT((tab[0].function == model[0].function) && (tab[N + 1].function == model[N + 1].function) && (tab[0].active == model[0].active)
              && (tab[N + 1].active == model[N + 1].active), "memory outside the table is not modified");
}
#elif defined(T_ADDBIG)
/* N slots in one exact object, initialised; all taken; chosen slots freed and refilled */
static void g0(void) {}
static void g1(void) {}
void harness(void) {
    SchedulerTask_t* tab = (SchedulerTask_t*)vp_alloc(N * sizeof(SchedulerTask_t));
    for (uint32_t i = 0U; i < N; ++i) {
        tab[i].function = g1;
        tab[i].active = true;
    }
    Scheduler_init(tab, N);
    SchedulerTask_t t;
    t.function = g0;
    for (uint32_t i = 0U; i < N; ++i) {
        VP_ASSERT(tab[i].function == NULL_PTR, "after initialisation all slots are free");
    }
    for (uint32_t i = 0U; i < 2U; ++i) {
        t.active = (i != 0U);
        VP_ASSERT(Scheduler_addTask(tab, N, &t), "adding succeeds while a slot is free");
        VP_ASSERT((tab[i].function == g0) && (tab[i].active == t.active), "the first free slot is taken");
    }
    for (uint32_t i = 2U; i < N; ++i) {
        tab[i].function = g0;
    }
    VP_ASSERT(!Scheduler_addTask(tab, N, &t), "adding to a full table fails");
    const uint32_t freed[4] = {127U % N, 128U % N, 256U % N, N - 1U};
    const bool active = VP_BOOL("active");
    for (uint32_t k = 0U; k < 4U; ++k) {
        const uint32_t f = freed[k];
        tab[f].function = NULL_PTR;
        t.function = g1;
        t.active = active;
        VP_ASSERT(Scheduler_addTask(tab, N, &t), "adding succeeds while a slot is free");
        VP_ASSERT((tab[f].function == g1) && (tab[f].active == active), "the free slot is taken");
    }
    VP_OUT(active);
}
#elif defined(T_LIFE)
/* N slots between guard slots, initialised, then OPS operations: add, remove, switch on or off, run */
#define NF 3U
static uint32_t calls[N + 1];
static uint32_t ncalls;
static void hit(uint32_t k) {
    if (ncalls <= N) {
        calls[ncalls] = k;
    }
    ncalls++;
}
static void f0(void) { hit(0U); }
static void f1(void) { hit(1U); }
static void f2(void) { hit(2U); }
typedef void (*fn_t)(void);
static fn_t pick(uint8_t k) {
    return (k == 0U) ? f0 : (k == 1U) ? f1 : f2;
}
void harness(void) {
    SchedulerTask_t* tab = (SchedulerTask_t*)vp_alloc((N + 2) * sizeof(SchedulerTask_t));
    uint8_t fun[N + 1]; /* task in the slot, NF: free */
    bool act[N + 1];
    for (uint32_t i = 0U; i < N + 2U; ++i) {
        tab[i].function = f2;
        tab[i].active = true;
    }
    Scheduler_init(&tab[1], N);
    for (uint32_t i = 0U; i < N; ++i) {
        fun[i] = NF;
        act[i] = false;
    }
    for (uint32_t o = 0U; o < OPS; ++o) {
        const uint8_t op = VP_U8("op");
        const uint8_t slot = VP_U8("slot");
        const uint8_t k = VP_U8("task");
        const bool a = VP_BOOL("active");
        VP_ASSUME((op < 4U) && (slot < N) && (k < NF));
        switch (op) {
            case 0U: {
                SchedulerTask_t t;
                t.function = pick(k);
                t.active = a;
                uint32_t first = N;
                for (uint32_t i = N; i > 0U; --i) {
                    if (fun[i - 1U] == NF) {
                        first = i - 1U;
                    }
                }
                const bool ok = Scheduler_addTask(&tab[1], N, &t);
                VP_ASSERT(ok == (first < N), "adding succeeds exactly when a slot is free");
                for (uint32_t i = 0U; i < N; ++i) {
                    if (i == first) {
                        fun[i] = k;
                        act[i] = a;
                    }
                }
                break;
            }
            case 1U:
                tab[1U + slot].function = (fn_t)NULL_PTR;
                fun[slot] = NF;
                break;
            case 2U:
                tab[1U + slot].active = a;
                act[slot] = a;
                break;
            default: {
                ncalls = 0U;
                Scheduler_run(&tab[1], N);
                uint32_t n = 0U;
                for (uint32_t i = 0U; i < N; ++i) {
                    if ((fun[i] != NF) && act[i]) {
                        VP_ASSERT((n < ncalls) && (calls[n] == fun[i]), "the pass runs the active tasks in slot order");
                        n++;
                    }
                }
                VP_ASSERT(n == ncalls, "the pass runs nothing else");
                VP_OUT(ncalls);
                break;
            }
        }
    }
    for (uint32_t i = 0U; i < N; ++i) {
        VP_ASSERT((tab[1U + i].function == NULL_PTR) == (fun[i] == NF), "slots are taken and freed only on request");
    }
    VP_ASSERT((tab[0].function == f2) && tab[0].active && (tab[N + 1].function == f2) && tab[N + 1].active, "memory outside the table is not modified");
}
#endif
