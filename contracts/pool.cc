// C16: the task queue pool.  C17: runnables and thread pools.
#include "vc.h"
#include "utils.cc"
#include "cppev/thread_pool.h"
#include <system_error>
using namespace cppev;

static int pick(const char *name, int hi)
{
    long v = vc_int(name, 0, hi);
    if (v == 0) return 0;
    if (v == 1) return 1;
    if (v == 2) return 2;
    if (v == 3) return 3;
    if (v == 4) return 4;
    return 5;
}
template <class Fn> static int outcome(Fn &&f, int &code)
{
    // 0 returned, 1 system_error, 2 other
    try
    {
        f();
    }
    catch (const std::system_error &e)
    {
        code = e.code().value();
        return 1;
    }
    catch (const std::exception &)
    {
        return 2;
    }
    return 0;
}
struct blocked {};

// ---------------------------------------------------------------- threads
static const int MAXT = 4;
static int g_threads;                              // created so far; thread k has the handle 70 + k
static void *(*g_fn[MAXT])(void *);
static void *g_arg[MAXT];
static bool g_ran[MAXT], g_joined[MAXT], g_detached[MAXT];
static int g_cancelled[MAXT], g_signalled[MAXT], g_signal;
static int g_create_err = 0, g_create_fails_at = -1, g_join_err, g_detach_err, g_cancel_err;
static bool g_starts_early;                        // the new thread runs before pthread_create returns
static void (*on_join)(int);
static int thread_of(pthread_t t)
{
    long k = (long)t - 70;
    vc_assert(k >= 0 && k < g_threads, "C17.thread.its_own_thread");
    return (int)k;
}
static void run_thread(int k)
{
    if (g_ran[k])
        return;
    g_ran[k] = true;
    g_fn[k](g_arg[k]);
}
// ---------------------------------------------------------------- lock and condition of the task queue
static int g_depth;                                // 0: the thread under contract, otherwise a simulated other thread
static bool g_held[4];
static bool g_at_wait, g_asleep, g_woken;          // the thread under contract in the condition
static bool g_w1_asleep, g_w1_ready;               // the other worker sleeps / has been woken and not run yet
static void (*on_lock)();
static void (*on_sleep)();
static void (*on_protect)(bool);
static void (*on_notify)(bool);
static void protect(bool accessible)
{
    if (on_protect)
        on_protect(accessible);
}
static bool held()
{
    return g_held[0] || g_held[1] || g_held[2] || g_held[3];
}
extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t *)
{
    if (g_depth == 0)
    {
        if (on_lock)
            on_lock();
    }
    else if (g_at_wait && !g_asleep)
    {
        // the thread under contract releases the lock by going to sleep
        g_asleep = true;
        g_held[0] = false;
    }
    vc_assert(!held(), "C16.lock.no_deadlock");
    g_held[g_depth] = true;
    protect(true);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *)
{
    vc_assert(g_held[g_depth], "C16.lock.unlocked_by_its_holder");
    g_held[g_depth] = false;
    protect(false);
    return 0;
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable *, std::unique_lock<std::mutex> *)
{
    vc_assert(g_held[g_depth], "C16.wait.lock_held");
    if (g_depth > 0)
    {
        g_w1_asleep = true;
        g_w1_ready = false;
        throw blocked();
    }
    g_asleep = g_woken = false;
    g_at_wait = true;
    if (on_sleep)
        on_sleep();
    g_at_wait = g_asleep = false;
    g_held[0] = true;
    protect(true);
}
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable *)
{
    if (on_notify)
        on_notify(false);
    // wakes some sleeper
    bool me = g_asleep && !g_woken;
    if (me && g_w1_asleep)
        me = vc_bool("wakes_this_one");
    if (me)
        g_woken = true;
    else if (g_w1_asleep)
    {
        g_w1_asleep = false;
        g_w1_ready = true;
    }
}
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable *)
{
    if (on_notify)
        on_notify(true);
    if (g_asleep)
        g_woken = true;
    if (g_w1_asleep)
    {
        g_w1_asleep = false;
        g_w1_ready = true;
    }
}
int __wrap_pthread_setcancelstate(int, int *) { return 0; }
int __wrap_pthread_setcanceltype(int, int *) { return 0; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    if (g_create_err && g_threads == g_create_fails_at)
        return g_create_err;
    vc_assert(g_threads < MAXT, "C17.thread.exactly_as_many_as_asked");
    int k = g_threads++;
    g_fn[k] = fn;
    g_arg[k] = arg;
    if (g_starts_early)
        run_thread(k);
    *t = (pthread_t)(70 + k);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **)
{
    int k = thread_of(t);
    if (g_join_err)
        return g_join_err;
    vc_assert(!g_joined[k] && !g_detached[k], "C17.thread.joined_once");
    g_joined[k] = true;
    if (on_join)
        on_join(k);
    else if (g_depth == 0)
        run_thread(k);
    return 0;
}
int __wrap_pthread_detach(pthread_t t)
{
    int k = thread_of(t);
    if (g_detach_err)
        return g_detach_err;
    vc_assert(!g_joined[k] && !g_detached[k], "C17.thread.detached_once");
    g_detached[k] = true;
    return 0;
}
int __wrap_pthread_cancel(pthread_t t)
{
    ++g_cancelled[thread_of(t)];
    return g_cancel_err;
}
int __wrap_pthread_kill(pthread_t t, int sig)
{
    ++g_signalled[thread_of(t)];
    g_signal = sig;
    return 0;
}
int __wrap_pthread_once(pthread_once_t *ctl, void (*fn)())
{
    if (*ctl == 0)
    {
        *ctl = 2;
        if (std::__once_call)
            std::__once_call();
        else
            fn();
    }
    return 0;
}
// timed wait of a future: the time runs out or the thread ends meanwhile
static int g_futex_waits, g_finish_in_wait;
bool __wrap__ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void *, unsigned *p, unsigned v, bool, long, long)
{
    ++g_futex_waits;
    if (g_finish_in_wait && g_threads > 0)
        run_thread(0);
    return *p != v;
}
bool __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void *, unsigned *p, unsigned v, bool, long, long)
{
    ++g_futex_waits;
    if (g_finish_in_wait && g_threads > 0)
        run_thread(0);
    return *p != v;
}
void __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *) {}
long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return 1000000; }
long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return 1000000; }
}

#ifndef ONLY_ENVIRONMENT
// ================================================================ C17
static int g_bodies[4];
static bool g_early_report;
struct probe : runnable
{
    int id;
    explicit probe(int i = 0) : id(i) {}
    void run_impl() override
    {
        if (wait_for(std::chrono::milliseconds(0)))
            g_early_report = true;
        ++g_bodies[id];
        if (wait_for(std::chrono::milliseconds(0)))
            g_early_report = true;
    }
};
CONTRACT(c17_run)
{
    probe *p = new probe;
    int code = 0;
    g_create_fails_at = 0;
    g_create_err = pick("create_fails", 1) ? (int)vc_int("create_code", 1, 133) : 0;
    g_starts_early = pick("starts_early", 1) != 0;
    int o = outcome([p] { p->run(); }, code);
    if (g_create_err)
    {
        vc_assert(o == 1 && code == g_create_err, "C17.run.failure_thrown");
        vc_assert(g_threads == 0 && g_bodies[0] == 0, "C17.run.nothing_started");
        return;
    }
    vc_assert(o == 0 && g_threads == 1, "C17.run.starts_exactly_one_thread");
    vc_assert(!g_detached[0] && !g_joined[0] && !g_cancelled[0], "C17.run.thread_left_alone");
    long ms = vc_int("milliseconds", 0, 1L << 40);
    bool before = g_ran[0];
    g_finish_in_wait = pick("finishes_meanwhile", 1);
    bool done = p->wait_for(std::chrono::milliseconds(ms));
    vc_assert(done == g_ran[0], "C17.wait.true_exactly_when_finished");
    if (!before && ms > 0)
        vc_assert(g_futex_waits > 0, "C17.wait.waits_for_the_time_given");
    g_finish_in_wait = 0;
    vc_assert(p->wait_for(std::chrono::nanoseconds(1)) == g_ran[0], "C17.wait.true_exactly_when_finished");
    int how = pick("end", 1);
    if (how == 0)
    {
        g_join_err = pick("join_fails", 1) ? (int)vc_int("join_code", 1, 133) : 0;
        o = outcome([p] { p->join(); }, code);
        if (g_join_err)
            vc_assert(o == 1 && code == g_join_err, "C17.join.failure_thrown");
        else
            vc_assert(o == 0 && g_joined[0], "C17.join.waits_for_that_thread");
    }
    else
    {
        g_detach_err = pick("detach_fails", 1) ? (int)vc_int("detach_code", 1, 133) : 0;
        o = outcome([p] { p->detach(); }, code);
        if (g_detach_err)
            vc_assert(o == 1 && code == g_detach_err, "C17.detach.failure_thrown");
        else
            vc_assert(o == 0 && g_detached[0] && !g_joined[0], "C17.detach.that_thread");
    }
    run_thread(0);
    vc_assert(g_bodies[0] == 1, "C17.run.body_exactly_once");
    vc_assert(!g_early_report, "C17.run.completion_only_after_the_body");
    vc_assert(p->wait_for(std::chrono::seconds(0)), "C17.wait.true_exactly_when_finished");
}
CONTRACT(c17_signal_cancel)
{
    probe *a = new probe(0), *b = new probe(1);
    a->run();
    b->run();
    int sig = (int)vc_int("sig", 1, 64);
    g_cancel_err = pick("cancel_fails", 1) ? (int)vc_int("cancel_code", 1, 133) : 0;
    b->send_signal(sig);
    vc_assert(g_signalled[1] == 1 && g_signalled[0] == 0 && g_signal == sig, "C17.signal.that_thread");
    vc_assert(g_cancelled[0] == 0 && g_cancelled[1] == 0, "C17.signal.does_not_cancel");
    bool ok = a->cancel();
    vc_assert(g_cancelled[0] == 1 && g_cancelled[1] == 0, "C17.cancel.that_thread");
    vc_assert(ok == (g_cancel_err == 0), "C17.cancel.reports_success");
    vc_assert(!a->wait_for(std::chrono::nanoseconds(0)), "C17.wait.true_exactly_when_finished");
    vc_assert(!g_joined[0] && !g_joined[1] && !g_detached[0] && !g_detached[1], "C17.cancel.does_not_join");
}
static int g_made;
struct member : probe
{
    long tag;
    explicit member(long t) : probe(g_made++), tag(t) {}
};
CONTRACT(c17_pool)
{
    int n = pick("threads", 4);
    long tag = vc_int("tag", -1000000, 1000000);
    thread_pool<member, long> pool(n, (long)tag);
    vc_assert(pool.size() == n && g_made == n, "C17.pool.exactly_the_number_asked");
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j)
            vc_assert(&pool[i] != &pool[j], "C17.pool.distinct_members");
    const thread_pool<member, long> &cpool = pool;
    for (int i = 0; i < n; ++i)
        vc_assert(pool[i].tag == tag && &cpool[i] == &pool[i], "C17.pool.members_constructed_with_the_arguments");
    vc_assert(g_threads == 0, "C17.pool.nothing_started_before_run");
    pool.run();
    vc_assert(g_threads == n, "C17.pool.run_once_each");
    for (int i = 0; i < n; ++i)
        vc_assert(!g_joined[i] && g_cancelled[i] == 0, "C17.pool.run_only_runs");
    if (pick("cancel", 1))
    {
        pool.cancel();
        for (int i = 0; i < n; ++i)
            vc_assert(g_cancelled[i] == 1 && !g_joined[i], "C17.pool.cancel_once_each");
    }
    pool.join();
    for (int i = 0; i < n; ++i)
        vc_assert(g_joined[i] && g_bodies[i] == 1, "C17.pool.join_once_each");
    vc_assert(g_threads == n && pool.size() == n, "C17.pool.run_once_each");
}
CONTRACT(c17_pool_failure)
{
    thread_pool<member, long> pool(3, 7L);
    int code = 0;
    g_create_fails_at = pick("failing", 2);
    g_create_err = (int)vc_int("create_code", 1, 133);
    int o = outcome([&pool] { pool.run(); }, code);
    vc_assert(o == 1 && code == g_create_err, "C17.run.failure_thrown");
}

// ================================================================ C16
static thread_pool_task_queue *g_pool;
static int g_added, g_taken, g_done;               // tasks added, started, finished
static int g_runs[8];
static bool g_stopped;
static int g_events;                               // actions of other threads still possible
static void environment();

static void check_nobody_oversleeps()
{
    // every other worker is busy or asleep: then nobody may sleep while a task is queued or after a stop
    if (g_at_wait && !g_woken && !g_w1_ready && !held())
    {
        if (g_asleep)
        {
            vc_assert(g_taken == g_added, "C16.wake.no_worker_asleep_while_a_task_is_queued");
            vc_assert(!g_stopped, "C16.wake.no_worker_asleep_after_stop");
        }
    }
}
static void task(int id)
{
    vc_assert(!held() || (g_at_wait && !g_asleep && !g_held[g_depth]), "C16.run.outside_the_lock");
    vc_assert(id == g_taken, "C16.order.first_in_first_out");
    ++g_taken;
    ++g_runs[id];
    check_nobody_oversleeps();
    if (g_events > 0)
        environment();
    ++g_done;
}
static thread_pool_task_handler make_task()
{
    int id = g_added++;
    return [id]() { task(id); };
}
template <class F> static bool other(F &&f)
{
    int d = g_depth;
    g_depth = d + 1;
    bool returned = true;
    try
    {
        f();
    }
    catch (const blocked &)
    {
        returned = false;
    }
    vc_assert(!g_held[d + 1], "C16.lock.released");
    g_depth = d;
    return returned;
}
static bool g_w1_ended, g_w1_busy;
static void other_worker()
{
    if (g_w1_ended || g_w1_busy)
        return;
    g_w1_asleep = g_w1_ready = false;
    g_w1_busy = true;
    bool ended = other([] { (*g_pool)[1].run_impl(); });
    g_w1_busy = false;
    if (ended)
    {
        g_w1_ended = true;
        vc_assert(g_stopped, "C16.end.only_after_stop");
    }
}
static bool g_by_reference;
static void add_single()
{
    if (g_by_reference)
    {
        const thread_pool_task_handler h = make_task();
        g_pool->add_task(h);
    }
    else
        g_pool->add_task(make_task());
}
static void add_batch()
{
    std::vector<thread_pool_task_handler> v;
    v.push_back(make_task());
    v.push_back(make_task());
    g_pool->add_task(v);
}
static void stop_now()
{
    other([] { g_pool->stop(); });
    g_stopped = true;
}
// one action of another thread
static void environment()
{
    if (g_depth >= 2 || g_events <= 0)
        return;
    int what = pick("meanwhile", 4);
    if (what == 0)
        return;
    --g_events;
    if (what == 1 && !g_stopped)
        other(add_single);
    else if (what == 2 && !g_stopped)
        other(add_batch);
    else if (what == 3 && !g_stopped)
        stop_now();
    else if (what == 4)
        other_worker();
}
static bool g_spurious;
static void before_lock()
{
    environment();
}
static void asleep()
{
    if (!g_spurious)
    {
        g_spurious = true;
        if (vc_bool("spurious"))
            return;
    }
    environment();
    if (!g_woken)
        environment();
    if (!g_woken && g_w1_ready)
        other_worker();
    if (!g_asleep)
    {
        g_asleep = true;
        g_held[0] = false;
        protect(false);
    }
    check_nobody_oversleeps();
    if (!g_woken && !g_stopped)
        stop_now();
    if (!g_woken && g_w1_ready)
        other_worker();
    vc_assert(g_woken, "C16.wake.no_worker_asleep_after_stop");
}
static void pool_of_two()
{
    g_pool = new thread_pool_task_queue(2);
    g_pool->run();
}
// one worker, any behaviour of the others
static void worker(int queued, int events, bool spurious)
{
    pool_of_two();
    for (int i = 0; i < MAXT; ++i)
        g_ran[i] = true;                           // the workers are run by this contract
    if (queued >= 1)
        other(add_single);
    if (queued >= 2)
        other(add_single);
    g_w1_asleep = queued == 0 && vc_bool("other_asleep");
    g_events = events;
    g_spurious = !spurious;
    on_lock = before_lock;
    on_sleep = asleep;
    (*g_pool)[0].run_impl();
    on_lock = nullptr;
    vc_assert(g_stopped, "C16.end.only_after_stop");
    vc_assert(g_taken == g_added && g_done == g_added, "C16.end.all_tasks_taken");
    for (int i = 0; i < g_added; ++i)
        vc_assert(g_runs[i] == 1, "C16.run.exactly_once");
}
CONTRACT(c16_worker_idle)
{
    worker(0, 1, true);
}
CONTRACT(c16_worker_idle_2)
{
    worker(0, 2, false);
}
CONTRACT(c16_worker_busy)
{
    worker(1, 1, false);
}
CONTRACT(c16_worker_busier)
{
    worker(2, 1, false);
}
CONTRACT(c16_worker_deep)
{
    worker(pick("queued", 2), 2, true);
}
CONTRACT(c16_worker_deeper)
{
    worker(pick("queued", 1), 3, false);
}
// stop: every worker is released and waited for, everything added before has run
static void joins(int k)
{
    // the worker runs until it ends
    g_ran[k] = true;
    bool ended = other([k] { g_fn[k](g_arg[k]); });
    vc_assert(ended, "C16.stop.every_worker_ends");
}
CONTRACT(c16_stop)
{
    pool_of_two();
    vc_assert(g_threads == 2, "C16.stop.workers_started");
    g_by_reference = vc_bool("by_reference");
    int n = pick("tasks", 3);
    g_w1_asleep = vc_bool("other_asleep");
    if (n >= 1)
        add_single();
    if (n == 2)
        add_single();
    if (n == 3)
        add_batch();
    if (n > 0)
        vc_assert(!g_w1_asleep, "C16.wake.no_worker_asleep_while_a_task_is_queued");
    if (g_w1_ready && vc_bool("takes_them"))
        other_worker();
    g_stopped = true;
    on_join = joins;
    g_pool->stop();
    vc_assert(!g_w1_asleep, "C16.wake.no_worker_asleep_after_stop");
    vc_assert(g_joined[0] && g_joined[1], "C16.stop.waits_for_every_worker");
    vc_assert(g_taken == g_added && g_done == g_added, "C16.stop.drains_the_queue");
    for (int i = 0; i < g_added; ++i)
        vc_assert(g_runs[i] == 1, "C16.run.exactly_once");
}
#endif
