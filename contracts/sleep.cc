// C27: waiting until a point of a clock.
#include "vc.h"
#include "utils.cc"
#include <thread>
using namespace cppev;

static const long SECOND = 1000000000;
static long g_now[2];                              // wall clock, steady clock
static long g_stamp;
static int g_clock;
static bool g_other;                               // the clock not asked was read
static int g_sleeps;

extern "C"
{
long __wrap__ZNSt6chrono3_V212system_clock3nowEv()
{
    g_other |= g_clock != 0;
    return g_now[0];
}
long __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{
    g_other |= g_clock != 1;
    return g_now[1];
}
static void advance(long d)
{
    g_now[0] += d;
    g_now[1] += d;
}
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem)
{
    vc_assert(t->tv_nsec >= 0 && t->tv_nsec < SECOND && t->tv_sec >= 0, "C27.sleep.valid_request");
    long req = t->tv_sec * SECOND + t->tv_nsec;
    vc_assert(req <= g_stamp - g_now[g_clock], "C27.sleep.not_beyond_the_stamp");
    g_sleeps = 1;
    if (req > 0 && vc_bool("interrupted"))
    {
        long d = vc_int("slept", 0, 1L << 61);
        vc_assume(d < req);
        advance(d);
        long left = req - d;
        if (rem)
        {
            rem->tv_sec = left / SECOND;
            rem->tv_nsec = left % SECOND;
        }
        errno = EINTR;
        return -1;
    }
    advance(req);
    return 0;
}
}
template <class Clock> static void sleep_contract(int clock)
{
    g_clock = clock;
    g_now[0] = vc_int("now", 0, 1L << 60);
    g_now[1] = vc_int("uptime", 0, 1L << 60);
    g_stamp = vc_int("stamp", 0, 1L << 61);
    bool past = g_stamp <= g_now[clock];
    sleep_until<Clock>(std::chrono::nanoseconds(g_stamp));
    vc_assert(g_now[clock] >= g_stamp, "C27.sleep.not_before_the_stamp");
    if (past)
        vc_assert(g_sleeps == 0, "C27.sleep.past_stamps_return_at_once");
    vc_assert(!g_other, "C27.sleep.the_clock_asked_for");
}
CONTRACT(c27_sleep_system) { sleep_contract<std::chrono::system_clock>(0); }
CONTRACT(c27_sleep_steady) { sleep_contract<std::chrono::steady_clock>(1); }
