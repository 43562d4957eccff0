// C16 for any number of tasks, workers and events: one round of a worker, one addition and the stop, each from an
// arbitrary state of the queue.  Between two acquisitions of the lock by the thread under contract the other threads may
// have done anything to the queue, so the state found at an acquisition is arbitrary; what the thread does to it until it
// releases the lock is checked.  Histories of any length follow by induction over the acquisitions.
#define ONLY_ENVIRONMENT
#include "pool.cc"

typedef std::deque<thread_pool_task_handler> tasks;
static task_queue::task_queue *g_tq;
static thread_pool_task_queue *g_q;
static long g_n;                                   // tasks queued when the lock was acquired
static bool g_stop;                                // the stop flag then
static int g_id;                                   // identity of the first one
static int g_acquired, g_taken_id, g_ran_id, g_slept, g_rounds;
static bool g_refill;
static int g_ones, g_alls;                         // notifications since the lock was acquired last

static void ran(int id);
static thread_pool_task_handler numbered(int id)
{
    return [id]() { ran(id); };
}
static int number_of(const thread_pool_task_handler &h)
{
    return *(const int *)(const void *)&h._M_functor;
}
// n tasks, the first ones numbered id, id + 1, the last one id + 1000 when there are more than two
static void queue_holds(long n, int id)
{
    g_n = n;
    g_id = id;
    if (!vc_symbolic())
    {
        vc_assume(n < 4000000);
        while (!g_tq->queue_.empty())
            g_tq->queue_.pop();
        for (long i = 0; i < n; ++i)
            g_tq->queue_.push(numbered(i < 2 ? id + (int)i : id + 1000));
        return;
    }
    // 16 tasks to a block: the first and the last block exist, what lies between is not looked at
    tasks *q = &g_tq->queue_.c;
    static thread_pool_task_handler **map;
    if (!map)
        map = (thread_pool_task_handler **)operator new(8UL << 28);
    thread_pool_task_handler *first = (thread_pool_task_handler *)operator new(512), *last = first;
    q->_M_impl._M_map = map;
    q->_M_impl._M_map_size = 1UL << 28;
    auto &s = q->_M_impl._M_start, &f = q->_M_impl._M_finish;
    s._M_first = s._M_cur = first;
    s._M_last = first + 16;
    s._M_node = f._M_node = map + 8;
    if (n >= 1)
        new (first) thread_pool_task_handler(numbered(id));
    if (n >= 2)
        new (first + 1) thread_pool_task_handler(numbered(id + 1));
    if (n >= 3)
    {
        // somewhere in a later block
        long blocks = vc_int("blocks", 1, 1L << 27);
        vc_assume(n == 16 * blocks + 5);
        last = (thread_pool_task_handler *)operator new(512);
        f._M_node = map + 8 + blocks;
        f._M_cur = last + 5;
        new (last + 4) thread_pool_task_handler(numbered(id + 1000));
    }
    else
        f._M_cur = first + n;
    f._M_first = last;
    f._M_last = last + 16;
}
static long some()
{
    long n = vc_int("queued", 0, 1L << 31);
    if (n == 0) return 0;
    if (n == 1) return 1;
    if (n == 2) return 2;
    return n;
}
static void found()
{
    // what the others may have left behind
    ++g_acquired;
    g_ones = g_alls = 0;
    if (!g_refill)
        return;
    queue_holds(some(), 10 * g_acquired);
    g_stop = vc_bool("stopped");
    g_tq->stop_ = g_stop;
}
static void guard(bool accessible)
{
    vc_protect(&g_tq->queue_, sizeof(g_tq->queue_), accessible, "queue");
    vc_protect(&g_tq->stop_, sizeof(g_tq->stop_), accessible, "stop flag");
}
static void on_protected(bool accessible)
{
    if (accessible)
    {
        guard(true);
        found();
        return;
    }
    // the lock is released: the queue is as found, or without its first task
    long now = (long)g_tq->queue_.size();
    if (g_refill)
    {
        bool one = now == g_n || (now == g_n - 1 && g_taken_id == 0);
        if (!one && !vc_symbolic())
            vc_stop();      // several at once would be another protocol, which this contract does not judge
        vc_assert(one, "C16.round.takes_at_most_one_task");
        if (now == g_n - 1)
        {
            g_taken_id = g_id;
            if (now > 0)
                vc_assert(number_of(g_tq->queue_.front()) == g_id + 1, "C16.round.takes_the_first_task");
        }
        vc_assert(g_tq->stop_ == g_stop, "C16.round.stop_flag_kept");
    }
    guard(false);
}
static bool g_hands_on;
static void ran(int id)
{
    vc_assert(!held(), "C16.run.outside_the_lock");
    vc_assert(g_taken_id != 0 && id == g_taken_id, "C16.run.the_task_it_took");
    vc_assert(g_ran_id != id, "C16.run.exactly_once");
    g_ran_id = id;
    g_taken_id = 0;
    if (g_hands_on && g_n > 1)
        vc_assert(g_ones + g_alls > 0, "C16.wake.no_worker_asleep_while_a_task_is_queued");
    // a worker's later rounds begin like its second
    if (++g_rounds == 2)
        vc_stop();
}
static void asleep()
{
    // about to sleep, the lock held: what it found gives no reason not to
    vc_assert(g_n == 0 && g_tq->queue_.empty(), "C16.wake.no_worker_asleep_while_a_task_is_queued");
    vc_assert(!g_stop, "C16.wake.no_worker_asleep_after_stop");
    // a second spurious wake finds what the first did
    if (++g_slept == 2)
        vc_stop();
    g_held[0] = false;
    g_rounds = 0;
}
static void pool_for_round()
{
    g_q = new thread_pool_task_queue(1);
    g_tq = g_q;
    g_q->run();
    g_ran[0] = true;
    on_sleep = asleep;
    on_notify = [](bool all) { ++(all ? g_alls : g_ones); };
}
CONTRACT(c16_round)
{
    pool_for_round();
    g_refill = true;
    on_protect = on_protected;
    guard(false);
    (*g_q)[0].run_impl();
    on_protect = nullptr;
    guard(true);
    vc_assert(!held() && g_taken_id == 0, "C16.round.no_task_lost");
    vc_assert(g_n == 0, "C16.end.all_tasks_taken");
    vc_assert(g_stop, "C16.end.only_after_stop");
    vc_reach("C16.round.ends");
}
// adding: behind what is queued, and somebody is woken
static void adding(bool accessible)
{
    if (accessible)
    {
        guard(true);
        if (++g_acquired == 1)
            queue_holds(some(), 10);
        return;
    }
    guard(false);
}
CONTRACT(c16_add)
{
    pool_for_round();
    int how = pick("how", 2), m = how == 2 ? pick("batch", 3) : 1;
    on_protect = adding;
    guard(false);
    std::vector<thread_pool_task_handler> v;
    if (how == 2)
    {
        for (int i = 0; i < m; ++i)
            v.push_back(numbered(2001 + i));
        g_q->add_task(v);
    }
    else if (how == 1)
    {
        const thread_pool_task_handler h = numbered(2001);
        g_q->add_task(h);
    }
    else
        g_q->add_task(numbered(2001));
    on_protect = nullptr;
    guard(true);
    vc_assert(!held() && (m == 0 || g_acquired > 0), "C16.add.under_the_lock");
    vc_assert((long)g_q->queue_.size() == g_n + m, "C16.add.every_task");
    if (m > 0)
    {
        // the newest ones stand at the end, in order, the oldest still at the front
        auto &s = g_q->queue_;
        vc_assert(number_of(s.back()) == 2000 + m, "C16.add.at_the_end");
        if (g_n > 0)
            vc_assert(number_of(s.front()) == 10, "C16.add.behind_the_others");
        else
            vc_assert(number_of(s.front()) == 2001, "C16.add.in_order");
        if (m >= 2)
            vc_assert(number_of(*(s.c.end() - 2)) == 2000 + m - 1, "C16.add.in_order");
        if (m >= 3)
            vc_assert(number_of(*(s.c.end() - 3)) == 2000 + m - 2, "C16.add.in_order");
        if (g_n == 0)
            vc_assert(g_ones + g_alls > 0, "C16.wake.somebody_is_woken_for_it");
    }
}
// with several tasks queued every sleeper is wanted: the one who adds wakes them, or else each worker who leaves tasks
// behind wakes one before it runs its own
CONTRACT(c16_wakes)
{
    pool_for_round();
    on_protect = adding;
    guard(false);
    bool enough;
    if (vc_bool("batch"))
    {
        int m = 1 + pick("tasks", 2);
        std::vector<thread_pool_task_handler> v;
        for (int i = 0; i < m; ++i)
            v.push_back(numbered(2001 + i));
        g_q->add_task(v);
        enough = g_alls > 0 || g_ones >= m;
    }
    else
    {
        if (vc_bool("copied"))
        {
            const thread_pool_task_handler h = numbered(2001);
            g_q->add_task(h);
        }
        else
            g_q->add_task(numbered(2001));
        enough = g_ones + g_alls > 0;
    }
    g_acquired = 0;
    if (enough)
        return;
    g_hands_on = true;
    g_refill = true;
    on_protect = on_protected;
    guard(false);
    (*g_q)[0].run_impl();
}
// stop: the flag is raised under the lock, everybody is woken, everybody is waited for without the lock
static int g_flag_raised;
CONTRACT(c16_stops_any)
{
    g_q = new thread_pool_task_queue(1 + pick("workers", 3));
    g_tq = g_q;
    g_q->run();
    int n = g_q->size();
    on_notify = [](bool all) { ++(all ? g_alls : g_ones); };
    on_protect = [](bool accessible) {
        if (accessible)
        {
            guard(true);
            if (!g_flag_raised)
                g_ones = g_alls = 0;
            queue_holds(some(), 10);
            return;
        }
        vc_assert((long)g_tq->queue_.size() == g_n, "C16.stop.leaves_the_tasks");
        if (g_n > 0)
            vc_assert(number_of(g_tq->queue_.front()) == 10, "C16.stop.leaves_the_tasks");
        if (g_tq->stop_)
            ++g_flag_raised;
        guard(false);
    };
    on_join = [](int k) {
        g_ran[k] = true;
        vc_assert(!held(), "C16.stop.waits_without_the_lock");
        vc_assert(g_flag_raised > 0, "C16.stop.flag_before_waiting");
        vc_assert(g_alls > 0 || g_ones >= g_q->size(), "C16.stop.every_worker_woken");
    };
    guard(false);
    g_q->stop();
    on_protect = nullptr;
    guard(true);
    for (int i = 0; i < n; ++i)
        vc_assert(g_joined[i], "C16.stop.waits_for_every_worker");
}
