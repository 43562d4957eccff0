// C16: the task queue and the stop flag are shared by all threads and only touched under the queue's lock.
#define ONLY_ENVIRONMENT
#include "pool.cc"

static thread_pool_task_queue *g_q;
static int g_ran_tasks;
static void guard(bool accessible)
{
    vc_protect(&g_q->queue_, sizeof(g_q->queue_), accessible, "queue");
    vc_protect(&g_q->stop_, sizeof(g_q->stop_), accessible, "stop flag");
}
static void stop_it(int)
{
}
static void sleeps()
{
    // asleep, the lock released: meanwhile another thread adds a task and stops the pool
    g_asleep = true;
    g_held[0] = false;
    guard(false);
    g_depth = 1;
    if (vc_bool("adds"))
        g_q->add_task([]() { ++g_ran_tasks; });
    on_join = stop_it;
    g_q->stop();
    g_depth = 0;
}
CONTRACT(c16_guarded)
{
    g_q = new thread_pool_task_queue(1);
    g_q->run();
    g_ran[0] = true;
    on_protect = guard;
    guard(false);
    int n = pick("tasks", 2), code = 0;
    std::vector<thread_pool_task_handler> v;
    if (n == 1)
        g_q->add_task([]() { ++g_ran_tasks; });
    if (n == 2)
    {
        v.push_back([]() { ++g_ran_tasks; });
        const thread_pool_task_handler h = []() { ++g_ran_tasks; };
        g_q->add_task(v);
        g_q->add_task(h);
    }
    on_sleep = sleeps;
    (void)code;
    (*g_q)[0].run_impl();
    on_protect = nullptr;
    guard(true);
    vc_assert(g_ran_tasks >= n, "C16.guarded.tasks_run");
}
