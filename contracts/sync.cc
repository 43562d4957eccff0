// C22: fence, barrier and predicate waits.  Thread-modular: one waiting thread runs the real code against a model of the
// mutex and condition; at every point where it can be interleaved (before it takes the lock, before and while it sleeps)
// other threads run the same real code.  A simulated thread that would block is unwound at that point, which leaves the
// shared state exactly as its arrival did.
#include "vc.h"
#include "utils.cc"
#include "lock.cc"
#include <functional>
#include <system_error>
using namespace cppev;

struct blocked {};

static int g_depth;                // 0: the thread under contract, 1: a simulated other thread
static bool g_held[2];             // who holds the mutex
static bool g_asleep, g_woken;     // the thread under contract sleeps in the condition / has been woken
static int g_waiters;              // simulated threads blocked in the condition
static int g_sleeps;               // how often the thread under contract went to sleep
static bool g_at_wait;             // it is entering the condition wait
static bool g_released;            // ghost: the awaited event has happened
static int g_signals, g_broadcasts;
static void *prot_p;
static long prot_n;
static void (*on_lock)();          // other threads before the lock is taken
static void (*on_sleep)();         // other threads around the sleep

static void protect(bool accessible)
{
    if (prot_p)
        vc_protect(prot_p, prot_n, accessible, "shared state");
}

extern "C"
{
int __wrap_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) { return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *) { return 0; }
int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int __wrap_pthread_mutexattr_settype(pthread_mutexattr_t *, int) { return 0; }
int __wrap_pthread_mutexattr_setprotocol(pthread_mutexattr_t *, int) { return 0; }
int __wrap_pthread_mutexattr_setpshared(pthread_mutexattr_t *, int) { return 0; }
int __wrap_pthread_condattr_init(pthread_condattr_t *) { return 0; }
int __wrap_pthread_condattr_destroy(pthread_condattr_t *) { return 0; }
int __wrap_pthread_condattr_setpshared(pthread_condattr_t *, int) { return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *) { return 0; }

int __wrap_pthread_mutex_lock(pthread_mutex_t *)
{
    if (g_depth == 0)
    {
        if (on_lock)
        {
            void (*f)() = on_lock;
            on_lock = nullptr;
            f();
        }
    }
    else if (g_at_wait && !g_asleep)
    {
        // the thread under contract releases the lock by going to sleep
        g_asleep = true;
        g_held[0] = false;
    }
    vc_assert(!g_held[0] && !g_held[1], "C22.lock.no_deadlock");
    g_held[g_depth] = true;
    protect(true);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *)
{
    vc_assert(g_held[g_depth], "C22.lock.unlocked_by_its_holder");
    g_held[g_depth] = false;
    protect(g_held[0]);
    return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *)
{
    vc_assert(g_held[g_depth], "C22.wait.lock_held");
    if (g_depth == 1)
    {
        ++g_waiters;
        throw blocked();
    }
    if (g_sleeps < 2)
        ++g_sleeps;
    g_asleep = g_woken = false;
    g_at_wait = true;
    if (on_sleep)
        on_sleep();
    g_at_wait = false;
    g_held[0] = true;
    protect(true);
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *)
{
    ++g_signals;
    // wakes one of the sleepers: the thread under contract only if it is the only one
    if (g_asleep && !g_woken && g_waiters == 0)
        g_woken = true;
    else if (g_waiters > 0)
        --g_waiters;
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *)
{
    ++g_broadcasts;
    if (g_asleep)
        g_woken = true;
    g_waiters = 0;
    return 0;
}
}

// another thread runs f until it returns (0), blocks (1) or throws logic_error (2)
template <class F> static int other(F &&f)
{
    g_depth = 1;
    int r = 0;
    try
    {
        f();
    }
    catch (const blocked &)
    {
        r = 1;
    }
    catch (const std::logic_error &)
    {
        r = 2;
    }
    vc_assert(!g_held[1], "C22.lock.released_on_return");
    g_depth = 0;
    return r;
}

// ================================================================ one-time fence
static pshared_one_time_fence *g_f;
static void notify_now()
{
    int r = other([] { g_f->notify(); });
    g_released = true;
    vc_assert(r == 0, "C22.fence.notify_returns");
    vc_assert(g_waiters == 0, "C22.fence.notify_releases_every_waiter");
}
static void fence_sleep()
{
    vc_assert(!g_released, "C22.fence.never_sleeps_past_release");
    if (g_sleeps == 1 && vc_bool("spurious"))
        return;
    notify_now();
    vc_assert(g_woken, "C22.fence.notify_releases_every_waiter");
}
static void more_waiters(long n)
{
    for (long i = 0; i < n; ++i)
    {
        int r = other([] { g_f->wait(); });
        vc_assert(r == 1, "C22.fence.waits_until_notified");
    }
}
static void passes(pshared_one_time_fence &f)
{
    vc_assert(f.ok(), "C22.fence.ok_once_notified");
    int r = other([] { g_f->wait(); });
    vc_assert(r == 0, "C22.fence.later_waiters_return");
    vc_assert(!g_held[0], "C22.fence.lock_free_afterwards");
}
static void protect_fence(pshared_one_time_fence &f)
{
    g_f = &f;
    prot_p = &f;
    prot_n = sizeof(f);
    protect(false);
}
static void unprotect()
{
    protect(true);
    prot_p = nullptr;
}
CONTRACT(c22_fence_wait)
{
    pshared_one_time_fence f;
    protect_fence(f);
    vc_assert(!f.ok(), "C22.fence.not_ok_before_notify");
    more_waiters(vc_len("waiters", 0, 1 << 20));
    on_lock = [] { if (vc_bool("notified_before_lock")) notify_now(); };
    on_sleep = fence_sleep;
    f.wait();
    vc_assert(g_released, "C22.fence.returns_only_after_notify");
    passes(f);
    int r = other([] { g_f->notify(); });
    vc_assert(r == 0, "C22.fence.second_notify_harmless");
    passes(f);
    unprotect();
}
CONTRACT(c22_fence_notify)
{
    pshared_one_time_fence f;
    protect_fence(f);
    more_waiters(vc_len("waiters", 0, 1 << 20));
    on_lock = [] { if (vc_bool("notified_before_lock")) notify_now(); };
    f.notify();
    vc_assert(g_waiters == 0, "C22.fence.notify_releases_every_waiter");
    passes(f);
    unprotect();
}

// ================================================================ barrier
static pshared_barrier *g_b;
static long g_rest;                 // arrivals still to come after the thread under contract
static int g_extra;
static void arrive_blocking(long n)
{
    for (long i = 0; i < n; ++i)
    {
        int r = other([] { g_b->wait(); });
        vc_assert(r == 1, "C22.barrier.nobody_passes_before_the_last");
    }
}
static void rest_arrives()
{
    if (g_rest > 0)
    {
        if (g_rest > 1)
        {
            arrive_blocking(1);
            arrive_blocking(g_rest - 2);
        }
        g_released = true;
        int r = other([] { g_b->wait(); });
        vc_assert(r == 0, "C22.barrier.the_last_passes");
        vc_assert(g_waiters == 0, "C22.barrier.all_are_released");
    }
    if (g_extra >= 1)
    {
        int r = other([] { g_b->wait(); });
        vc_assert(r == 2, "C22.barrier.further_arrival_fails");
    }
    if (g_extra >= 2)
    {
        int r = other([] { g_b->wait(); });
        vc_assert(r == 2, "C22.barrier.further_arrival_fails");
    }
}
static void barrier_sleep()
{
    vc_assert(!g_released, "C22.barrier.never_sleeps_past_release");
    if (g_sleeps == 1 && vc_bool("spurious"))
        return;
    rest_arrives();
    vc_assert(g_woken, "C22.barrier.all_are_released");
}
CONTRACT(c22_barrier)
{
    long n = vc_len("count", 1, INT_MAX), before = vc_len("before", 0, INT_MAX - 1);
    vc_assume(before < n);
    g_extra = vc_bool("extra") ? (vc_bool("extra2") ? 2 : 1) : 0;
    pshared_barrier b((int)n);
    g_b = &b;
    prot_p = &b;
    prot_n = sizeof(b);
    protect(false);
    arrive_blocking(before);
    g_rest = n - before - 1;
    if (g_rest == 0)
        g_released = true;
    on_sleep = barrier_sleep;
    b.wait();
    vc_assert(g_released, "C22.barrier.nobody_passes_before_the_last");
    vc_assert(g_waiters == 0, "C22.barrier.all_are_released");
    vc_assert(!g_held[0], "C22.barrier.lock_free_afterwards");
    int r = other([] { g_b->wait(); });
    vc_assert(r == 2, "C22.barrier.further_arrival_fails");
    unprotect();
}

// ================================================================ predicate wait
static bool g_cond, g_evaluated;
CONTRACT(c22_predicate_wait)
{
    pshared_lock l;
    pshared_cond c;
    std::unique_lock<pshared_lock> lk(l);
    on_sleep = [] {
        vc_assert(g_evaluated, "C22.predicate_wait.sleeps_only_after_checking");
        g_evaluated = false;
        g_asleep = true;
        g_held[0] = false;
    };
    c.wait(lk, [] {
        vc_assert(g_held[0], "C22.predicate_wait.condition_checked_under_the_lock");
        g_evaluated = true;
        g_cond = vc_bool("condition");
        return g_cond;
    });
    vc_assert(g_evaluated && g_cond, "C22.predicate_wait.returns_only_when_true");
    vc_assert(g_held[0] && lk.owns_lock(), "C22.predicate_wait.lock_held");
}
