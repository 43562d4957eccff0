// C28: signal helpers.  "Watched signal" abstraction: every contract fixes an arbitrary signal number g_j; a signal set is
// modelled by whether it contains g_j, the kernel by whether g_j is blocked or pending.  Since g_j is arbitrary, a
// contract proved about it is proved about every signal.
#include "vc.h"
#include "utils.cc"
#include <system_error>
using namespace cppev;

static int g_j;                                   // watched signal
static int g_masked, g_pending;                   // kernel state of g_j
static int g_calls, g_susp, g_waits, g_kills, g_raises, g_acts;
static int k_fail;                                // failure injected into the next kernel call (0: none)
static int k_pid, k_sig;
static int w_contains, w_sig;
static void *act_handler;
static int act_flags, act_sig;

struct flagset { long has; };
#define F(set) (((flagset *)(set))->has)

extern "C"
{
int __wrap_sigemptyset(sigset_t *set) { F(set) = 0; return 0; }
int __wrap_sigfillset(sigset_t *set) { F(set) = 1; return 0; }
int __wrap_sigaddset(sigset_t *set, int sig)
{
    vc_assert(sig >= 1 && sig <= 64, "C28.set.valid_signal");
    long v = F(set);
    F(set) = sig == g_j ? 1 : v;
    return 0;
}
int __wrap_sigdelset(sigset_t *set, int sig)
{
    vc_assert(sig >= 1 && sig <= 64, "C28.set.valid_signal");
    long v = F(set);
    F(set) = sig == g_j ? 0 : v;
    return 0;
}
int __wrap_sigismember(const sigset_t *set, int sig)
{
    vc_assert(sig >= 1 && sig <= 64, "C28.set.valid_signal");
    long v = F(set);
    if (sig == g_j)
        return (int)v;
    return vc_bool("other_member");
}
int __wrap_pthread_sigmask(int how, const sigset_t *set, sigset_t *old)
{
    ++g_calls;
    if (k_fail)
        return k_fail;
    int was = g_masked;
    if (set)
    {
        long v = F(set);
        if (how == SIG_BLOCK) { if (v) g_masked = 1; }
        else if (how == SIG_UNBLOCK) { if (v) g_masked = 0; }
        else if (how == SIG_SETMASK) g_masked = (int)v;
        else return EINVAL;
    }
    if (old)
        F(old) = was;
    return 0;
}
int __wrap_sigpending(sigset_t *set)
{
    ++g_calls;
    if (k_fail) { errno = k_fail; return -1; }
    F(set) = g_pending;
    return 0;
}
int __wrap_sigsuspend(const sigset_t *set)
{
    ++g_susp;
    w_contains = (int)F(set);
    errno = EINTR;
    return -1;
}
int __wrap_sigwait(const sigset_t *set, int *sig)
{
    ++g_waits;
    w_contains = (int)F(set);
    if (k_fail)
        return k_fail;
    w_sig = (int)vc_int("arrived", 1, 64);
    if (!w_contains)
        vc_assume(w_sig != g_j);
    *sig = w_sig;
    return 0;
}
int __wrap_sigaction(int sig, const struct sigaction *act, struct sigaction *old)
{
    ++g_acts;
    act_sig = sig;
    vc_assert(act != nullptr, "C28.handler.disposition_given");
    act_handler = (void *)act->sa_handler;
    act_flags = act->sa_flags;
    if (old) memset(old, 0, sizeof(*old));
    if (k_fail) { errno = k_fail; return -1; }
    return 0;
}
int __wrap_kill(int pid, int sig)
{
    ++g_kills;
    k_pid = pid;
    k_sig = sig;
    if (k_fail) { errno = k_fail; return -1; }
    return 0;
}
int __wrap_raise(int sig)
{
    ++g_raises;
    k_sig = sig;
    if (k_fail) { errno = k_fail; return -1; }
    return 0;
}
}

template <class Fn> static int outcome(Fn &&f, int &code)
{
    // 0 returned, 1 system_error, 2 logic_error
    try
    {
        f();
    }
    catch (const std::system_error &e)
    {
        code = e.code().value();
        return 1;
    }
    catch (const std::logic_error &)
    {
        return 2;
    }
    return 0;
}

static void setup()
{
    g_j = (int)vc_int("watched", 1, 64);
    g_masked = vc_bool("masked") ? 1 : 0;
    g_pending = vc_bool("pending") ? 1 : 0;
    k_fail = vc_bool("fails") ? (int)vc_int("code", 1, 133) : 0;
    errno = (int)vc_int("errno", 0, 133);
}

static int *g_sigs;
static long *g_S;
static bool in_step(void *, long k) { return (g_S[k + 1] == 1) == ((g_S[k] == 1) | (g_sigs[k] == g_j)); }
static bool in_range(void *, long k) { return (g_S[k] >= 0) & (g_S[k] <= 1); }
static bool out_step(void *, long k) { return (g_S[k + 1] == 0) == ((g_S[k] == 0) | (g_sigs[k] == g_j)); }

// a list of any length of valid signals; in: whether the watched one is listed.  start is the flag before the list is folded
static void any_signals(std::vector<int> &v, int start, bool &in)
{
    long n = vc_len("count", 0, 1 << 20);
    int *p = (int *)operator new((size_t)n * 4);
    vc_ints("signals", p, n, 1, 64);
    v._M_impl._M_start = p;
    v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n;
    g_sigs = p;
    g_S = vc_ghost_array("member", n + 1, 1);
    if (vc_symbolic())
    {
        vc_assume(g_S[0] == start);
        vc_assume_forall(0, n + 1, in_range, nullptr);
        vc_assume_forall(0, n, start ? out_step : in_step, nullptr);
        in = g_S[n] != start;
    }
    else
    {
        in = false;
        for (long i = 0; i < n; ++i)
            if (p[i] == g_j)
                in = true;
    }
}

static void check_mask(int o, int code, int expected, int before)
{
    if (k_fail)
    {
        vc_assert(o == 1, "C28.mask.failure_thrown");
        vc_assert(code == k_fail, "C28.mask.failure_code");
        vc_assert(g_masked == before, "C28.mask.unchanged_on_failure");
    }
    else
    {
        vc_assert(o == 0, "C28.mask.no_exception");
        vc_assert(g_masked == expected, "C28.mask.exactly_the_listed_signals");
    }
}

CONTRACT(c28_block)
{
    setup();
    int sig = (int)vc_int("sig", 1, 64), code = 0, before = g_masked;
    int o = outcome([&] { thread_block_signal(sig); }, code);
    check_mask(o, code, sig == g_j ? 1 : before, before);
}
CONTRACT(c28_unblock)
{
    setup();
    int sig = (int)vc_int("sig", 1, 64), code = 0, before = g_masked;
    int o = outcome([&] { thread_unblock_signal(sig); }, code);
    check_mask(o, code, sig == g_j ? 0 : before, before);
}
CONTRACT(c28_block_list)
{
    setup();
    std::vector<int> v;
    bool in;
    any_signals(v, 0, in);
    int code = 0, before = g_masked;
    int o = outcome([&] { thread_block_signal(v); }, code);
    check_mask(o, code, in ? 1 : before, before);
}
CONTRACT(c28_unblock_list)
{
    setup();
    std::vector<int> v;
    bool in;
    any_signals(v, 0, in);
    int code = 0, before = g_masked;
    int o = outcome([&] { thread_unblock_signal(v); }, code);
    check_mask(o, code, in ? 0 : before, before);
}
CONTRACT(c28_check_mask)
{
    setup();
    bool r = false;
    int code = 0, before = g_masked;
    int o = outcome([&] { r = thread_check_signal_mask(g_j); }, code);
    vc_assert(g_masked == before, "C28.check_mask.mask_unchanged");
    vc_assert(o == (k_fail ? 1 : 0), "C28.check_mask.outcome");
    if (k_fail)
        vc_assert(code == k_fail, "C28.check_mask.failure_code");
    else
        vc_assert(r == (before != 0), "C28.check_mask.answer");
}
CONTRACT(c28_check_pending)
{
    setup();
    bool r = false;
    int code = 0, before = g_masked;
    int o = outcome([&] { r = thread_check_signal_pending(g_j); }, code);
    vc_assert(g_masked == before, "C28.check_pending.mask_unchanged");
    vc_assert(o == (k_fail ? 1 : 0), "C28.check_pending.outcome");
    if (k_fail)
        vc_assert(code == k_fail, "C28.check_pending.failure_code");
    else
        vc_assert(r == (g_pending != 0), "C28.check_pending.answer");
}
CONTRACT(c28_suspend)
{
    setup();
    int sig = (int)vc_int("sig", 1, 64), code = 0, before = g_masked;
    int o = outcome([&] { thread_suspend_for_signal(sig); }, code);
    vc_assert(o == 0, "C28.suspend.no_exception");
    vc_assert(g_susp == 1, "C28.suspend.once");
    vc_assert(w_contains == (sig != g_j), "C28.suspend.only_the_listed_signals_end_it");
    vc_assert(g_masked == before, "C28.suspend.mask_unchanged");
}
CONTRACT(c28_suspend_list)
{
    setup();
    std::vector<int> v;
    bool in;
    any_signals(v, 1, in);
    int code = 0, before = g_masked;
    int o = outcome([&] { thread_suspend_for_signal(v); }, code);
    vc_assert(o == 0, "C28.suspend.no_exception");
    vc_assert(g_susp == 1, "C28.suspend.once");
    vc_assert(w_contains == !in, "C28.suspend.only_the_listed_signals_end_it");
    vc_assert(g_masked == before, "C28.suspend.mask_unchanged");
}
CONTRACT(c28_wait)
{
    setup();
    int sig = (int)vc_int("sig", 1, 64), code = 0, before = g_masked;
    int o = outcome([&] { thread_wait_for_signal(sig); }, code);
    vc_assert(g_waits == 1, "C28.wait.once");
    vc_assert(w_contains == (sig == g_j), "C28.wait.exactly_the_listed_signals");
    vc_assert(g_masked == before, "C28.wait.mask_unchanged");
    vc_assert(o == (k_fail ? 1 : 0), "C28.wait.outcome");
    if (k_fail)
        vc_assert(code == k_fail, "C28.wait.failure_code");
}
CONTRACT(c28_wait_list)
{
    setup();
    std::vector<int> v;
    bool in;
    any_signals(v, 0, in);
    int code = 0, before = g_masked, r = 0;
    int o = outcome([&] { r = thread_wait_for_signal(v); }, code);
    vc_assert(g_waits == 1, "C28.wait.once");
    vc_assert(w_contains == in, "C28.wait.exactly_the_listed_signals");
    vc_assert(g_masked == before, "C28.wait.mask_unchanged");
    vc_assert(o == (k_fail ? 1 : 0), "C28.wait.outcome");
    if (k_fail)
        vc_assert(code == k_fail, "C28.wait.failure_code");
    else
        vc_assert(r == w_sig, "C28.wait.reports_the_arrived_signal");
}

static void some_handler(int) {}

static void check_handler(int o, int code, int sig, void *h)
{
    vc_assert(g_acts == 1, "C28.handler.installed_once");
    vc_assert(act_sig == sig, "C28.handler.that_signal");
    vc_assert(act_handler == h, "C28.handler.that_disposition");
    vc_assert((act_flags & ~SA_RESTART) == 0, "C28.handler.plain_flags");
    vc_assert(o == (k_fail ? 1 : 0), "C28.handler.outcome");
    if (k_fail)
        vc_assert(code == k_fail, "C28.handler.failure_code");
}
CONTRACT(c28_handle)
{
    setup();
    int sig = (int)vc_int("sig", 1, 64), code = 0;
    sig_t h = vc_bool("default") ? SIG_DFL : vc_bool("ignore") ? SIG_IGN : &some_handler;
    int o = outcome([&] { handle_signal(sig, h); }, code);
    check_handler(o, code, sig, (void *)h);
}
CONTRACT(c28_ignore)
{
    setup();
    int sig = (int)vc_int("sig", 1, 64), code = 0;
    int o = outcome([&] { ignore_signal(sig); }, code);
    check_handler(o, code, sig, (void *)SIG_IGN);
}
CONTRACT(c28_reset)
{
    setup();
    int sig = (int)vc_int("sig", 1, 64), code = 0;
    int o = outcome([&] { reset_signal(sig); }, code);
    check_handler(o, code, sig, (void *)SIG_DFL);
}
CONTRACT(c28_send)
{
    setup();
    int pid = (int)vc_int("pid", INT_MIN, INT_MAX), sig = (int)vc_int("sig", 0, 64), code = 0;
    int o = outcome([&] { send_signal(pid, sig); }, code);
    if (sig == 0)
    {
        vc_assert(o == 2, "C28.send.zero_rejected");
        vc_assert(g_kills == 0, "C28.send.zero_not_sent");
        return;
    }
    vc_assert(g_kills == 1, "C28.send.once");
    vc_assert(k_pid == pid && k_sig == sig, "C28.send.that_signal_to_that_process");
    vc_assert(o == (k_fail ? 1 : 0), "C28.send.outcome");
    if (k_fail)
        vc_assert(code == k_fail, "C28.send.failure_code");
}
static void check_exists(int o, int code, bool r, int target)
{
    vc_assert(g_kills >= 1, "C28.check_process.asked");
    vc_assert(k_pid == target && k_sig == 0, "C28.check_process.signal_zero_to_that_process");
    if (k_fail == 0 || k_fail == ESRCH)
    {
        vc_assert(o == 0, "C28.check_process.answers");
        vc_assert(r == (k_fail == 0), "C28.check_process.answer");
    }
    else
    {
        vc_assert(o == 1, "C28.check_process.failure_thrown");
        vc_assert(code == k_fail, "C28.check_process.failure_code");
    }
}
CONTRACT(c28_check_process)
{
    setup();
    int pid = (int)vc_int("pid", INT_MIN + 1, INT_MAX), code = 0;
    bool r = false;
    int o = outcome([&] { r = check_process(pid); }, code);
    check_exists(o, code, r, pid);
}
CONTRACT(c28_check_process_group)
{
    setup();
    int pid = (int)vc_int("pid", 1, INT_MAX), code = 0;
    bool r = false;
    int o = outcome([&] { r = check_process_group(pid); }, code);
    check_exists(o, code, r, -pid);
}
CONTRACT(c28_raise)
{
    setup();
    int sig = (int)vc_int("sig", 1, 64), code = 0;
    int o = outcome([&] { thread_raise_signal(sig); }, code);
    vc_assert(g_raises == 1, "C28.raise.once");
    vc_assert(k_sig == sig, "C28.raise.that_signal");
    vc_assert(o == (k_fail ? 1 : 0), "C28.raise.outcome");
    if (k_fail)
        vc_assert(code == k_fail, "C28.raise.failure_code");
}
