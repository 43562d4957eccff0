// C18: the timed scheduler.
#include "vc.h"
#include "utils.cc"
#include "cppev/scheduler.h"
using namespace cppev;

static int pick(const char *name, int hi)
{
    long v = vc_int(name, 0, hi);
    if (v == 0) return 0;
    if (v == 1) return 1;
    if (v == 2) return 2;
    if (v == 3) return 3;
    if (v == 4) return 4;
    if (v == 5) return 5;
    return 6;
}
static const long SECOND = 1000000000L;
static const int MAXI = 3;
static int g_n;                                    // timed tasks
static long g_interval[MAXI], g_due[MAXI];         // interval and next due time
static int g_prio[MAXI], g_fired[MAXI];
static long g_now, g_start;
static bool g_started, g_align, g_destroying, g_destroyed, g_exited;
static int g_inits, g_exits, g_sleeps, g_late_left;
static bool g_start_late;
// the scheduler's thread
static std::thread::_State *g_state;
static int g_co;
static bool g_in_thread, g_ended;
static void thread_body(void *)
{
    g_state->_M_run();
}
static bool resume()
{
    g_in_thread = true;
    g_ended = vc_co_resume(g_co) != 0;
    g_in_thread = false;
    return g_ended;
}
static void (*on_start)(), (*on_sleep)();
static void begin()
{
    // the start point is fixed once everything before the first trigger is done
    g_started = true;
    g_start = g_align ? (g_now / SECOND + 1) * SECOND : g_now;
    for (int i = 0; i < g_n; ++i)
        g_due[i] = g_start;
}
extern "C"
{
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread *self, std::unique_ptr<std::thread::_State> *state, void (*)())
{
    if (on_start)
    {
        g_state = state->release();
        *(unsigned long *)self = 77;
        on_start();
        return;
    }
    vc_assert(g_co == 0, "C18.thread.one");
    g_state = state->release();
    *(unsigned long *)self = 77;
    g_co = vc_co_new(thread_body, nullptr);
    if (vc_bool("thread_runs_first"))
        resume();
}
void __wrap__ZNSt6thread4joinEv(std::thread *self)
{
    vc_assert(*(unsigned long *)self == 77, "C18.thread.joined_once");
    g_destroying = true;
    for (int i = 0; i < 40 && !g_ended; ++i)
        resume();
    vc_assert(g_ended, "C18.end.thread_ends");
    *(unsigned long *)self = 0;
}
int __wrap_nanosleep(const struct timespec *t, struct timespec *)
{
    vc_assert(g_in_thread, "C18.sleep.only_the_schedulers_thread");
    vc_assert(g_inits == 2 && g_exits == 0, "C18.init.before_the_first_wait");
    if (!g_started)
        begin();
    if (on_start)
        vc_assume(g_now <= (1L << 61));            // some 70 years from the epoch
    long req = t->tv_sec * SECOND + t->tv_nsec, until = g_now + req;
    vc_assert(req > 0, "C18.sleep.positive");
    for (int i = 0; i < g_n; ++i)
    {
        vc_assert(g_now < g_due[i], "C18.due.triggered_before_waiting_on");
        vc_assert(until <= g_due[i], "C18.due.not_slept_past");
    }
    g_now = until;
    if (on_start)
    {
        g_now += vc_int("late", 0, 1L << 40);
        on_sleep();
        return 0;
    }
    if (g_late_left > 0)
    {
        // woken late, possibly after other due times
        --g_late_left;
        g_now += vc_int("late", 0, 700000000L);
    }
    ++g_sleeps;
    vc_co_yield();
    return 0;
}
long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return g_now; }
}
static void fired(int i, long stamp)
{
    if (!g_started)
        begin();
    vc_assert(g_in_thread && !g_destroyed, "C18.trigger.not_after_destruction");
    vc_assert(g_inits == 2, "C18.init.all_before_the_first_trigger");
    vc_assert(g_exits == 0, "C18.exit.after_the_last_trigger");
    vc_assert(stamp == g_due[i], "C18.trigger.at_every_multiple_once");
    vc_assert(g_now >= stamp, "C18.trigger.not_early");
    for (int j = 0; j < g_n; ++j)
    {
        vc_assert(g_due[j] >= stamp, "C18.trigger.in_due_order");
        if (j != i && g_due[j] == stamp)
            vc_assert(g_prio[j] <= g_prio[i], "C18.trigger.higher_priority_first");
    }
    if (on_start)
        vc_assume(stamp <= (1L << 61));
    g_due[i] += g_interval[i];
    g_fired[i] = 1;
}
static double freq_of(int k)
{
    switch (k)
    {
    case 0: return 1;
    case 1: return 2;
    case 2: return 3;
    case 3: return 0.5;
    case 4: return 2.5;
    case 5: return 7;
    default: return 4;
    }
}
static long interval_of(int k)
{
    switch (k)
    {
    case 0: return 1000000000L;
    case 1: return 500000000L;
    case 2: return 333333333L;
    case 3: return 2000000000L;
    case 4: return 400000000L;
    case 5: return 142857142L;
    default: return 250000000L;
    }
}
typedef std::vector<std::tuple<double, priority, timed_task_handler>> task_list;
static void init_task()
{
    vc_assert(g_in_thread && !g_started, "C18.init.before_the_first_trigger");
    ++g_inits;
    g_now += 1000;
}
static void exit_task()
{
    if (!g_started)
        begin();
    vc_assert(g_in_thread && g_inits == 2 && g_destroying, "C18.exit.only_at_the_end");
    ++g_exits;
}
static const priority PRIOS[3] = { p0, p1, p3 };
static int g_choice[MAXI] = { -1, -1, -1 };
static void schedule(int n, int nfreq, int rounds, bool align, int lates)
{
    task_list tasks;
    g_n = n;
    g_align = align;
    g_late_left = lates;
    g_now = vc_int("now", 0, 1L << 60);
    for (int i = 0; i < n; ++i)
    {
        int f = g_choice[i] >= 0 ? g_choice[i] : pick("frequency", nfreq), p = pick("priority", 2);
        g_interval[i] = interval_of(f);
        g_prio[i] = PRIOS[p];
        tasks.push_back(std::make_tuple(freq_of(f), PRIOS[p], timed_task_handler([i](const std::chrono::nanoseconds &t) { fired(i, t.count()); })));
    }
    {
        timed_scheduler<> sched(tasks, { init_task, init_task }, { exit_task, exit_task }, align);
        tasks.clear();
        for (int i = 0; i < rounds && !g_ended; ++i)
            resume();
        vc_assert(!g_ended, "C18.end.only_when_destroyed");
        if (rounds > 1 && g_late_left == lates - rounds)
            vc_assert(g_fired[0] > 0, "C18.trigger.happens");
        g_destroying = true;
    }
    g_destroyed = true;
    vc_assert(g_ended && g_inits == 2 && g_exits == 2, "C18.exit.all_once");
    delete g_state;
}
#ifndef ONLY_ENVIRONMENT
CONTRACT(c18_one)
{
    schedule(1, 6, pick("rounds", 3), vc_bool("align"), 1);
}
CONTRACT(c18_two)
{
    schedule(2, 1, 3, false, 1);
}
// frequencies whose intervals have no common divisor to speak of
CONTRACT(c18_odd)
{
    g_choice[0] = 2;
    g_choice[1] = 5;
    schedule(2, 0, 4, false, 1);
}
CONTRACT(c18_three)
{
    g_choice[0] = 1;
    g_choice[1] = 4;
    g_choice[2] = 0;
    schedule(3, 0, 5, false, 1);
}
#endif
