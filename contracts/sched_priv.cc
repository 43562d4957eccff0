// C18: any number of rounds, any intervals.
#define ONLY_ENVIRONMENT
#include "sched.cc"

static timed_scheduler<> *g_sched;
static void stop_sometime()
{
    if (vc_bool("stopped"))
        g_sched->stop_ = true;
}
// the clock has reached the earliest due time whenever a round begins
static bool time_reached(void *)
{
    bool r = g_now >= g_due[0];
    for (int i = 1; i < g_n; ++i)
        r = r | (g_now >= g_due[i]);
    return r;
}
static void run_now()
{
    // the intervals are arbitrary
    for (int i = 0; i < g_n; ++i)
    {
        g_interval[i] = vc_int("interval", 1, 1L << 50);
        g_sched->intervals_[i] = g_interval[i];
    }
    vc_invariant(time_reached, nullptr);
    begin();
    g_in_thread = true;
    g_destroying = true;
    g_state->_M_run();
    g_in_thread = false;
    g_ended = true;
}
static void forever(int n)
{
    task_list tasks;
    g_n = n;
    g_align = vc_bool("align");
    g_now = vc_int("now", 0, 1L << 60);
    g_inits = 2;
    on_start = run_now;
    on_sleep = stop_sometime;
    for (int i = 0; i < n; ++i)
    {
        g_prio[i] = 20 - i;
        tasks.push_back(std::make_tuple(1.0, (priority)(20 - i), timed_task_handler([i](const std::chrono::nanoseconds &t) { fired(i, t.count()); })));
    }
    g_sched = (timed_scheduler<> *)operator new(sizeof(timed_scheduler<>));
    new (g_sched) timed_scheduler<>(tasks, {}, { exit_task }, g_align);
    vc_assert(g_exits == 1, "C18.exit.all_once");
}
CONTRACT(c18_forever_1)
{
    forever(1);
}
CONTRACT(c18_forever_2)
{
    forever(2);
}
CONTRACT(c18_forever_3)
{
    forever(3);
}
// the stop flag is shared between the thread and the destructor
static void flag_guarded(bool accessible)
{
    vc_protect(&g_sched->stop_, sizeof(g_sched->stop_), accessible, "stop flag");
}
extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t *)
{
    if (g_sched)
        flag_guarded(true);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *)
{
    if (g_sched)
        flag_guarded(false);
    return 0;
}
}
CONTRACT(c18_stop_flag)
{
    g_inits = 2;
    g_n = 1;
    g_interval[0] = SECOND;
    timed_scheduler<> *s = (timed_scheduler<> *)operator new(sizeof(timed_scheduler<>));
    new (s) timed_scheduler<>({ std::make_tuple(1.0, p0, timed_task_handler([](const std::chrono::nanoseconds &t) { fired(0, t.count()); })) }, {}, {}, false);
    g_sched = s;
    flag_guarded(false);
    resume();
    s->~timed_scheduler<>();
    flag_guarded(true);
    vc_assert(g_ended, "C18.end.thread_ends");
}
