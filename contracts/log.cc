// C19: the asynchronous logger, with every thread simulated: logging threads, the writer thread, the destroying thread.
#include "vc.h"
#include "utils.cc"
#include "sysconfig.cc"
#include "async_logger.cc"
#include <cstdio>
#include <cstdarg>
using namespace cppev;

static int pick(const char *name, int hi)
{
    long v = vc_int(name, 0, hi);
    if (v == 0) return 0;
    if (v == 1) return 1;
    if (v == 2) return 2;
    if (v == 3) return 3;
    if (v == 4) return 4;
    return 5;
}
// ---------------------------------------------------------------- threads
static const int MAXT = 5;
static bool g_active;                              // the loggers of the library itself live outside the contract
static int g_me = -1;                              // running thread
static int g_threads, g_co[MAXT];
static bool g_ended[MAXT], g_preempted[MAXT];
static pthread_mutex_t *g_wants[MAXT];             // blocked on this lock
static const void *g_cond[MAXT];                   // asleep in this condition
static int g_joins[MAXT];                          // waits for the end of this thread (+1)
static int g_finishing[MAXT];                      // statement the thread is about to complete (+1)
static int g_write_preemptions;                    // more preemptions, from the first write on
static int g_preemptions, g_spurious;
static void (*g_body[MAXT])(int);
static void *(*g_start)(void *);                   // start routine of the writer thread
static void *g_start_arg;
static int g_writer = -1;
// mutexes carry their owner (thread + 1) and depth in their own fields
static int &owner(pthread_mutex_t *m) { return m->__data.__owner; }
static unsigned &depth(pthread_mutex_t *m) { return m->__data.__count; }
static bool is_free(pthread_mutex_t *m) { return depth(m) == 0; }
static bool is_mine(pthread_mutex_t *m) { return depth(m) != 0 && owner(m) == g_me + 1; }
static void thread_main(void *p)
{
    int k = (int)(long)p;
    g_body[k](k);
}
static void writer_main(int)
{
    g_start(g_start_arg);
}
static int spawn(void (*body)(int))
{
    int k = g_threads++;
    g_body[k] = body;
    g_co[k] = vc_co_new(thread_main, (void *)(long)k);
    return k;
}
static void suspend()
{
    int me = g_me;
    vc_co_yield();
    g_me = me;
}
// another thread may run here
static void (*on_lock)(pthread_mutex_t *, bool), (*on_wait)(), (*on_notify)(), (*on_join)();
static long (*on_write)(const void *, long);
static void switch_point()
{
    if (g_preemptions > 0 && vc_bool("preempted"))
    {
        --g_preemptions;
        g_preempted[g_me] = true;
        suspend();
        g_preempted[g_me] = false;
    }
}
static void acquire(pthread_mutex_t *m)
{
    if (is_mine(m))
    {
        vc_assert(m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, "C19.lock.no_self_deadlock");
        ++depth(m);
        return;
    }
    while (!is_free(m))
    {
        g_wants[g_me] = m;
        suspend();
        g_wants[g_me] = nullptr;
    }
    owner(m) = g_me + 1;
    depth(m) = 1;
}
// ---------------------------------------------------------------- statements and output
static const int MAXS = 4;
static int g_statements, g_done[MAXS], g_ndone;    // completed statements in order of completion
static const char *g_text[MAXS];
static int g_text_len[MAXS];
static char g_out[1024];
static int g_nout, g_level, g_short, g_intr;
static bool g_destroyed, g_destroying;
static void release(pthread_mutex_t *m)
{
    vc_assert(is_mine(m), "C19.lock.unlocked_by_its_holder");
    if (--depth(m) == 0)
    {
        if (g_finishing[g_me])
        {
            g_done[g_ndone++] = g_finishing[g_me] - 1;
            g_finishing[g_me] = 0;
        }
    }
}
// everything completed so far stands in the output: one line each, in order
static bool all_written()
{
    int pos = 0;
    const char *head = g_level == 1 ? "- [INFO] [" : "- [ERROR] [";
    int nhead = (int)strlen(head);
    for (int k = 0; k < g_ndone; ++k)
    {
        int s = g_done[k];
        // header: level, anything, and the bracket that closes it
        for (int i = 0; i < nhead; ++i)
            if (pos + i >= g_nout || g_out[pos + i] != head[i])
                return false;
        pos += nhead;
        int close = -1;
        for (int i = pos; i + 1 < g_nout && g_out[i] != '\n' && g_out[i] != '~' && g_out[i] != '#'; ++i)
            if (g_out[i] == ']' && g_out[i + 1] == ' ')
                close = i + 2;
        for (int i = pos; i < close - 2; ++i)
            if (g_out[i] == '-' && g_out[i + 1] == ' ')
                return false;
        if (close < 0 || close + g_text_len[s] + 1 > g_nout)
            return false;
        for (int i = 0; i < g_text_len[s]; ++i)
            if (g_out[close + i] != g_text[s][i])
                return false;
        if (g_out[close + g_text_len[s]] != '\n')
            return false;
        pos = close + g_text_len[s] + 1;
    }
    return pos == g_nout;
}
extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!g_active || g_me < 0)
        return 0;
    if (!is_mine(m))
        switch_point();
    acquire(m);
    if (on_lock && depth(m) == 1)
        on_lock(m, true);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (g_active && g_me >= 0)
    {
        if (on_lock && depth(m) == 1)
            on_lock(m, false);
        release(m);
    }
    return 0;
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable *c, std::unique_lock<std::mutex> *l)
{
    pthread_mutex_t *m = (pthread_mutex_t *)l->mutex();
    vc_assert(is_mine(m), "C19.wait.lock_held");
    if (on_wait)
    {
        on_wait();
        return;
    }
    unsigned d = depth(m);
    depth(m) = 0;
    g_cond[g_me] = c;
    suspend();
    g_cond[g_me] = nullptr;
    acquire(m);
    depth(m) = d;
}
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable *c)
{
    if (!g_active || g_me < 0)
        return;
    if (on_notify)
        on_notify();
    int n = 0;
    for (int k = 0; k < g_threads; ++k)
        n += g_cond[k] == c;
    for (int k = 0; k < g_threads; ++k)
        if (g_cond[k] == c)
        {
            if (n == 1 || vc_bool("wakes_this_one"))
            {
                g_cond[k] = nullptr;
                return;
            }
            --n;
        }
}
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable *c)
{
    if (on_notify)
        on_notify();
    for (int k = 0; k < g_threads; ++k)
        if (g_cond[k] == c)
            g_cond[k] = nullptr;
}
int __wrap_pthread_setcancelstate(int, int *) { return 0; }
int __wrap_pthread_setcanceltype(int, int *) { return 0; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    *t = (pthread_t)77;
    if (!g_active)
        return 0;
    vc_assert(g_writer < 0, "C19.thread.one_writer");
    g_start = fn;
    g_start_arg = arg;
    g_writer = spawn(writer_main);
    return 0;
}
int __wrap_pthread_join(pthread_t, void **)
{
    if (!g_active)
        return 0;
    if (on_join)
    {
        on_join();
        return 0;
    }
    g_joins[g_me] = g_writer + 1;
    switch_point();
    while (!g_ended[g_writer])
        suspend();
    g_joins[g_me] = 0;
    return 0;
}
int __wrap_pthread_once(pthread_once_t *ctl, void (*fn)())
{
    if (*ctl == 0)
    {
        *ctl = 2;
        if (std::__once_call)
            std::__once_call();
        else
            fn();
    }
    return 0;
}
void __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *) {}
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
    vc_assert(g_active && !g_destroyed, "C19.output.not_after_destruction");
    vc_assert(fd == g_level, "C19.output.its_own_descriptor");
    if (on_write)
        return on_write(p, (long)n);
    vc_assert(n > 0 && g_nout + n < sizeof(g_out), "C19.output.nothing_but_the_lines");
    g_preemptions += g_write_preemptions;
    g_write_preemptions = 0;
    switch_point();
    if (g_intr > 0 && vc_bool("interrupted"))
    {
        --g_intr;
        errno = EINTR;
        return -1;
    }
    if (g_short > 0 && vc_bool("short_write"))
    {
        --g_short;
        n = vc_bool("one_byte") ? 1 : n - n / 4;
    }
    memcpy(g_out + g_nout, p, n);
    g_nout += (int)n;
    return (ssize_t)n;
}
// the pieces a header is made of
time_t __wrap_time(time_t *) { return 1000; }
struct tm *__wrap_localtime_r(const time_t *, struct tm *t)
{
    memset(t, 0, sizeof(*t));
    return t;
}
size_t __wrap_strftime(char *buf, size_t, const char *, const struct tm *)
{
    memcpy(buf, "NOW", 4);
    return 3;
}
bool __wrap__ZSt18uncaught_exceptionv() { return false; }
pid_t __wrap_gettid() { return 42; }
long __wrap_syscall(long, ...) { return 42; }
int __wrap_vsnprintf(char *buf, size_t n, const char *fmt, va_list)
{
    // only used for the one floating point operand below
    vc_assert(fmt[0] == '%' && fmt[1] == 'f' && n >= 9, "C19.text.number");
    memcpy(buf, "1.500000", 9);
    return 8;
}
static std::string *g_ss;
#define REAL(ret, name, args, pass, body) \
    ret __real_##name args; \
    ret __wrap_##name args { if (!vc_symbolic()) return __real_##name pass; body }
REAL(void, _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev, (void *s), (s), g_ss = new std::string;)
REAL(void, _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev, (void *s), (s), delete g_ss;)
REAL(void *, _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc, (void *s, const char *t), (s, t), *g_ss += t; return s;)
REAL(void *, _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c, (void *s, char c), (s, c), *g_ss += c; return s;)
REAL(void *, _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l, (void *s, const char *t, long n), (s, t, n), g_ss->append(t, n); return s;)
REAL(void *, _ZNSolsEi, (void *s, int v), (s, v), *g_ss += std::to_string(v); return s;)
REAL(void *, _ZNSolsEl, (void *s, long v), (s, v), *g_ss += std::to_string(v); return s;)
REAL(void *, _ZNSolsEm, (void *s, unsigned long v), (s, v), *g_ss += std::to_string(v); return s;)
}
std::string real_str(void *) asm("__real__ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string wrapped_str(void *) asm("__wrap__ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string wrapped_str(void *s)
{
    if (!vc_symbolic())
        return real_str(s);
    return *g_ss;
}

// ---------------------------------------------------------------- schedules
static async_logger *g_log;
static bool runnable_now(int k)
{
    if (g_ended[k] || g_cond[k])
        return false;
    if (g_wants[k] && !is_free(g_wants[k]))
        return false;
    if (g_joins[k] && !g_preempted[k] && !g_ended[g_joins[k] - 1])
        return false;
    return true;
}
// run threads until none can go on; thread `last` only when no other can
static void schedule(int last)
{
    for (int step = 0; step < 60; ++step)
    {
        int can = 0;
        for (int k = 0; k < g_threads; ++k)
            can += k != last && runnable_now(k);
        int chosen = -1;
        if (can == 0)
        {
            if (g_spurious > 0 && g_writer >= 0 && g_cond[g_writer])
            {
                --g_spurious;
                if (vc_bool("spurious"))
                {
                    g_cond[g_writer] = nullptr;
                    continue;
                }
            }
            if (last < 0 || !runnable_now(last))
                return;
            vc_assert(all_written(), "C19.output.no_finished_line_stays_unwritten");
            chosen = last;
            last = -1;
        }
        for (int k = 0; k < g_threads && chosen < 0; ++k)
            if (k != last && runnable_now(k))
            {
                if (can == 1 || vc_bool("runs_next"))
                    chosen = k;
                --can;
            }
        g_me = chosen;
        if (vc_co_resume(g_co[chosen]))
            g_ended[chosen] = true;
        g_me = -1;
    }
    vc_assert(false, "C19.schedule.ends");
}
static void finish(int s, const char *text, int len)
{
    g_text[s] = text;
    g_text_len[s] = len;
    g_finishing[g_me] = s + 1;
    *g_log << log::endl;
    vc_assert(g_finishing[g_me] == 0, "C19.lock.free_after_each_statement");
}
static int new_statement() { return g_statements++; }
// texts begin with ~ or #, which no header contains
static void logs_once(int)
{
    *g_log << "~a" << std::string("b");
    finish(new_statement(), "~ab", 3);
}
static void logs_twice(int)
{
    *g_log << "~c";
    finish(new_statement(), "~c", 2);
    *g_log << "#d";
    finish(new_statement(), "#d", 2);
}
static void logs_operands(int)
{
    *g_log << std::string("~\0x", 3) << 7 << -12L << "" << 1.5 << 1.5f;
    finish(new_statement(), "~\0x7-121.5000001.500000", 23);
    *g_log << std::string("#") << LONG_MIN;
    finish(new_statement(), "#-9223372036854775808", 21);
}
static void logs_nothing(int)
{
    finish(new_statement(), "", 0);
}
static int g_loggers[2] = { -1, -1 };
static void destroys(int)
{
    delete g_log;
    g_destroyed = true;
}
static void history(void (*first)(int), void (*second)(int), int preemptions)
{
    g_level = vc_bool("error_log") ? 2 : 1;
    g_preemptions = 0;
    g_active = true;
    g_log = new async_logger(g_level);
    g_preemptions = preemptions;
    vc_assert(g_writer >= 0, "C19.thread.one_writer");
    if (first)
        spawn(first);
    if (second)
        spawn(second);
    // destruction begins when the logging threads are through, the writer at any point
    bool patient = vc_bool("destroyed_late");
    if (patient)
        schedule(spawn(destroys));
    else
    {
        while ((first && !g_ended[1]) || (second && !g_ended[2]))
        {
            // until the loggers are through only
            int can = 0, chosen = -1;
            for (int k = 0; k < g_threads; ++k)
                can += runnable_now(k);
            vc_assert(can > 0, "C19.lock.no_deadlock");
            for (int k = 0; k < g_threads && chosen < 0; ++k)
                if (runnable_now(k))
                {
                    if (can == 1 || vc_bool("runs_next"))
                        chosen = k;
                    --can;
                }
            g_me = chosen;
            if (vc_co_resume(g_co[chosen]))
                g_ended[chosen] = true;
            g_me = -1;
        }
        spawn(destroys);
        schedule(-1);
    }
    vc_assert(g_destroyed, "C19.end.destruction_returns");
    vc_assert(g_ended[g_writer], "C19.end.writer_ends");
    vc_assert(all_written(), "C19.output.all_lines_before_destruction_returns");
    g_active = false;
}
#ifndef ONLY_ENVIRONMENT
CONTRACT(c19_one)
{
    history(logs_once, nullptr, 2);
}
CONTRACT(c19_twice)
{
    history(logs_twice, nullptr, 1);
}
CONTRACT(c19_overlap)
{
    g_write_preemptions = 1;
    history(logs_once, logs_nothing, 0);
}
CONTRACT(c19_two)
{
    history(logs_twice, logs_once, 0);
}
CONTRACT(c19_two_preempted)
{
    history(logs_once, logs_nothing, 1);
}
CONTRACT(c19_operands)
{
    history(logs_operands, nullptr, 0);
}
CONTRACT(c19_short_writes)
{
    g_short = 3;
    g_intr = 1;
    history(logs_once, nullptr, 0);
}
CONTRACT(c19_spurious)
{
    g_spurious = 2;
    history(logs_nothing, logs_once, 0);
}
#endif
