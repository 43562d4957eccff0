// C10: one pass of the event loop.  C11: registering and removing descriptors.
#include "vc.h"
#include "utils.cc"
#include "sysconfig.cc"
#include "nio.cc"
#include "event_loop_epoll.cc"
#include <system_error>
using namespace cppev;

template <class Fn> static int outcome(Fn &&f, int &code)
{
    // 0 returned, 1 system_error, 2 other
    try
    {
        f();
    }
    catch (const std::system_error &e)
    {
        code = e.code().value();
        return 1;
    }
    catch (const std::exception &)
    {
        return 2;
    }
    return 0;
}
static int pick(const char *name, int hi)
{
    long v = vc_int(name, 0, hi);
    if (v == 0) return 0;
    if (v == 1) return 1;
    if (v == 2) return 2;
    if (v == 3) return 3;
    if (v == 4) return 4;
    return 5;
}

// ---------------------------------------------------------------- kernel model
static const int EPFD = 50;
static const int FDS[3] = {10, 11, 12};            // the third one has no handler
static int g_n;                                    // reports of the next wait
static int g_fd[2];
static unsigned g_ev[2];
static int g_wait_err;                             // failure of the next wait (0: none)
static int g_waits;
static long g_timeout;
static unsigned g_mon[2];                          // events monitored per descriptor (0: not monitored)
static bool g_is_mon[2];
static int g_ctl_fail;
static int g_ctls;
static bool g_ep_closed;
static bool g_locked;

static int index_of(int fd)
{
    return fd == FDS[0] ? 0 : 1;
}
extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t *)
{
    vc_assert(!g_locked, "C11.lock.no_self_deadlock");
    g_locked = true;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *)
{
    vc_assert(g_locked, "C11.lock.unlocked_by_its_holder");
    g_locked = false;
    return 0;
}
int __wrap_fcntl(int, int, long) { return 0; }
int __wrap_close(int fd)
{
    if (fd == EPFD)
        g_ep_closed = true;
    return 0;
}
static int create_result()
{
    if (!vc_bool("create_fails"))
        return EPFD;
    errno = (int)vc_int("create_code", 1, 133);
    return -1;
}
int __wrap_epoll_create(int) { return create_result(); }
int __wrap_epoll_create1(int) { return create_result(); }
int __wrap_epoll_ctl(int ep, int op, int fd, epoll_event *ev)
{
    ++g_ctls;
    vc_assert(ep == EPFD, "C11.kernel.this_loop");
    vc_assert(fd == FDS[0] || fd == FDS[1], "C11.kernel.that_descriptor");
    if (g_ctl_fail)
    {
        errno = g_ctl_fail;
        return -1;
    }
    int i = index_of(fd);
    if (op == EPOLL_CTL_DEL)
    {
        if (!g_is_mon[i]) { errno = ENOENT; return -1; }
        g_is_mon[i] = false;
        g_mon[i] = 0;
        return 0;
    }
    vc_assert(ev->data.fd == fd, "C11.kernel.reports_carry_the_descriptor");
    if (op == EPOLL_CTL_ADD && g_is_mon[i]) { errno = EEXIST; return -1; }
    if (op == EPOLL_CTL_MOD && !g_is_mon[i]) { errno = ENOENT; return -1; }
    g_is_mon[i] = true;
    g_mon[i] = ev->events;
    return 0;
}
int __wrap_epoll_wait(int ep, epoll_event *evs, int max, int timeout)
{
    ++g_waits;
    vc_assert(ep == EPFD, "C10.wait.this_loop");
    g_timeout = timeout;
    if (g_wait_err)
    {
        errno = g_wait_err;
        return -1;
    }
    vc_assert(max >= g_n, "C10.wait.room_for_the_reports");
    for (int i = 0; i < g_n; ++i)
    {
        evs[i].events = g_ev[i];
        evs[i].data.u64 = 0;
        evs[i].data.fd = g_fd[i];
    }
    return g_n;
}
}

// ================================================================ C10
// handlers 0 and 1 belong to descriptor 0, handler 2 to descriptor 1, each for any set of events (possibly none)
static int g_calls[3];
static const nio *g_arg[3];
static int g_order[8];
static int g_norder;
static int g_want[3];
static int g_ready[2];                             // 1 readable, 2 writable
static priority g_prio[3];

static fd_event any_event(const char *name)
{
    return (fd_event)vc_int(name, 0, 3);           // readable is 1, writable is 2; 0 stands for neither
}
static priority any_priority(const char *name)
{
    return (priority)vc_int(name, 14, 20);
}
static void reports(bool two)
{
    // at most two reports for distinct descriptors, each readable, writable or both
    g_n = two ? 2 : pick("reports", 2);
    int first = two ? pick("first", 1) : pick("first", 2);
    g_fd[0] = FDS[first];
    g_fd[1] = FDS[first == 0 ? 1 : 0];
    for (int i = 0; i < 2; ++i)
    {
        g_ready[i] = (int)vc_int("ready", 1, 3);
        // hang-up and error may be reported along with readiness
        g_ev[i] = (g_ready[i] & 1) * EPOLLIN + (g_ready[i] >> 1) * EPOLLOUT + (unsigned)vc_int("hangup", 0, 3) * EPOLLERR;
    }
}
static void pass(event_loop &loop, bool throws)
{
    int code = 0;
    long timeout = vc_int("timeout", -1, INT_MAX);
    int o = outcome([&] { loop.loop_once((int)timeout); }, code);
    vc_assert(g_waits == 1 && g_timeout == timeout, "C10.wait.once_with_the_given_timeout");
    if (throws)
    {
        vc_assert(o == 1, "C10.wait.failure_thrown");
        vc_assert(code == g_wait_err, "C10.wait.failure_code");
    }
    else
        vc_assert(o == 0, "C10.wait.no_exception");
    g_waits = 0;
}
static void run_pass(int handlers)
{
    int code = 0;
    event_loop *loop = nullptr;
    outcome([&] { loop = new event_loop(); }, code);
    if (!loop)
        vc_stop();
    std::shared_ptr<nio> obj[2] = {std::make_shared<nstream>(FDS[0]), std::make_shared<nstream>(FDS[1])};
    const int owner[3] = {0, handlers == 2 ? 1 : 0, 1};
    for (int i = 0; i < handlers; ++i)
    {
        fd_event e = any_event("event");
        g_want[i] = (int)e;
        g_prio[i] = any_priority("priority");
        loop->fd_register(obj[owner[i]], e, [i](const std::shared_ptr<nio> &p) {
            ++g_calls[i];
            g_arg[i] = p.get();
            if (g_norder < 8)
                g_order[g_norder++] = i;
        }, false, g_prio[i]);
    }
    reports(handlers == 3);
    pass(*loop, false);
    int total = 0;
    for (int i = 0; i < handlers; ++i)
    {
        int expected = 0;
        for (int k = 0; k < g_n; ++k)
            if (g_fd[k] == FDS[owner[i]])
                expected = (g_want[i] & g_ready[k]) != 0;
        vc_assert(g_calls[i] == expected, "C10.pass.each_ready_handler_exactly_once");
        if (expected)
            vc_assert(g_arg[i] == obj[owner[i]].get(), "C10.pass.with_its_own_object");
        total += expected;
    }
    vc_assert(g_norder == total, "C10.pass.no_other_handler");
    for (int i = 0; i + 1 < total; ++i)
        vc_assert((int)g_prio[g_order[i]] >= (int)g_prio[g_order[i + 1]], "C10.pass.by_priority");
    // nothing is left for the next pass, nor after an interrupted or failed wait
    int kind = handlers == 3 ? 0 : pick("next_pass", 2);
    g_n = 0;
    g_wait_err = kind == 0 ? 0 : kind == 1 ? EINTR : EBADF;
    pass(*loop, kind == 2);
    vc_assert(g_norder == total, "C10.pass.nothing_left_or_repeated");
}
CONTRACT(c10_pass_1) { run_pass(1); }
CONTRACT(c10_pass_2) { run_pass(2); }
CONTRACT(c10_pass_3) { run_pass(3); }
CONTRACT(c10_wait_failure)
{
    int code = 0;
    event_loop *loop = nullptr;
    int o = outcome([&] { loop = new event_loop(); }, code);
    if (!loop)
    {
        vc_assert(o == 1 && code > 0, "C10.construct.failure_thrown");
        return;
    }
    int calls = 0;
    std::shared_ptr<nio> obj = std::make_shared<nstream>(FDS[0]);
    loop->fd_register(obj, fd_event::fd_readable, [&calls](const std::shared_ptr<nio> &) { ++calls; }, false, p0);
    g_wait_err = (int)vc_int("wait_code", 1, 133);
    pass(*loop, g_wait_err != EINTR);
    vc_assert(calls == 0, "C10.wait.no_handler_without_reports");
    g_wait_err = 0;
    g_n = 1;
    g_fd[0] = FDS[0];
    g_ev[0] = EPOLLIN;
    pass(*loop, false);
    vc_assert(calls == 1, "C10.wait.loop_usable_after_a_failed_wait");
    delete loop;
    vc_assert(g_ep_closed, "C10.destroy.kernel_object_closed");
}

// ================================================================ C11
static std::shared_ptr<nio> g_obj[2];
static int g_run[3];                               // calls of handler a, b (descriptor 0) and c (descriptor 1)
static const nio *g_run_arg[3];
static event_loop *start()
{
    int code = 0;
    event_loop *loop = nullptr;
    outcome([&] { loop = new event_loop(); }, code);
    if (!loop)
        vc_stop();
    g_obj[0] = std::make_shared<nstream>(FDS[0]);
    g_obj[1] = std::make_shared<nstream>(FDS[1]);
    return loop;
}
static fd_event_handler counting(int i)
{
    return [i](const std::shared_ptr<nio> &p) {
        ++g_run[i];
        g_run_arg[i] = p.get();
    };
}
static unsigned kernel_bits(int events)
{
    return (events & 1) * EPOLLIN + (unsigned)(events >> 1) * EPOLLOUT;
}
// a pass in which both descriptors are reported readable and writable
static void full_pass(event_loop &loop)
{
    g_n = 2;
    for (int i = 0; i < 2; ++i)
    {
        g_fd[i] = FDS[i];
        g_ev[i] = EPOLLIN | EPOLLOUT;
    }
    pass(loop, false);
}
// another descriptor with one handler is registered throughout
static void other_descriptor(event_loop &loop)
{
    g_is_mon[1] = true;
    g_mon[1] = EPOLLOUT;
    loop.fd_register(g_obj[1], fd_event::fd_writable, counting(2), false, p2);
}
static void other_untouched(event_loop &loop)
{
    vc_assert(g_is_mon[1] && g_mon[1] == EPOLLOUT, "C11.frame.other_descriptor_still_monitored");
    vc_assert(&g_obj[1]->evlp() == &loop, "C11.frame.other_descriptor_still_bound");
    int before = g_run[2];
    full_pass(loop);
    vc_assert(g_run[2] == before + 1 && g_run_arg[2] == g_obj[1].get(), "C11.frame.other_handler_still_called");
}
CONTRACT(c11_register)
{
    event_loop *loop = start();
    other_descriptor(*loop);
    int had = pick("already_registered", 1);
    if (had)
        loop->fd_register(g_obj[0], fd_event::fd_readable, counting(1), false, p3);
    int ctls = g_ctls;
    int events = (int)vc_int("events", 1, 3);
    int with_handler = pick("with_handler", 1);
    int activate = pick("activate", 1);
    g_ctl_fail = pick("kernel_refuses", 1) ? (int)vc_int("refusal", 1, 133) : 0;
    fd_event_handler h;
    if (with_handler)
        h = counting(0);
    int code = 0;
    int o = outcome([&] { loop->fd_register(g_obj[0], (fd_event)events, h, activate != 0, any_priority("priority")); }, code);
    int refused = activate && g_ctl_fail;
    if (refused)
        vc_assert(o == 1 && code == g_ctl_fail, "C11.register.refusal_thrown");
    else
    {
        vc_assert(o == 0, "C11.register.succeeds");
        vc_assert(&g_obj[0]->evlp() == loop, "C11.register.bound_to_this_loop");
    }
    if (activate && !g_ctl_fail)
        vc_assert(g_is_mon[0] && g_mon[0] == kernel_bits(events), "C11.register.exactly_the_requested_events");
    else
        vc_assert(!g_is_mon[0], "C11.register.not_monitored_otherwise");
    if (!activate)
        vc_assert(g_ctls == ctls, "C11.register.kernel_left_alone");
    int held = with_handler && !refused ? 1 : 0;
    vc_assert(loop->ev_loads() == 1 + had + held, "C11.register.load_counts_handlers");
    vc_assert((int)g_obj[0].use_count() == 1 + had + held, "C11.register.one_reference_per_handler");
    g_ctl_fail = 0;
    other_untouched(*loop);
    vc_assert(g_run[0] == held, "C11.register.handler_called_when_ready");
    vc_assert(g_run[1] == had, "C11.register.earlier_handler_still_called");
    if (held)
        vc_assert(g_run_arg[0] == g_obj[0].get(), "C11.register.handler_gets_its_object");
}
CONTRACT(c11_remove)
{
    event_loop *loop = start();
    other_descriptor(*loop);
    int handlers = pick("handlers", 2);
    for (int i = 0; i < handlers; ++i)
        loop->fd_register(g_obj[0], fd_event::fd_readable, counting(i), false, any_priority("priority"));
    g_is_mon[0] = true;
    g_mon[0] = EPOLLIN;
    g_obj[0]->set_evlp(*loop);
    int ctls = g_ctls;
    int clean = pick("clean", 1);
    int deactivate = pick("deactivate", 1);
    g_ctl_fail = pick("kernel_refuses", 1) ? (int)vc_int("refusal", 1, 133) : 0;
    int code = 0;
    int o = outcome([&] { loop->fd_remove(g_obj[0], clean != 0, deactivate != 0); }, code);
    int refused = deactivate && g_ctl_fail;
    if (refused)
    {
        vc_assert(o == 1 && code == g_ctl_fail, "C11.remove.refusal_thrown");
        g_ctl_fail = 0;
        other_untouched(*loop);
        return;
    }
    vc_assert(o == 0, "C11.remove.succeeds");
    vc_assert(g_is_mon[0] == !deactivate, "C11.remove.monitoring_stops_iff_asked");
    if (!deactivate)
        vc_assert(g_ctls == ctls && g_mon[0] == EPOLLIN, "C11.remove.kernel_left_alone");
    g_ctl_fail = 0;
    int held = clean ? 0 : handlers;
    vc_assert(loop->ev_loads() == 1 + held, "C11.remove.load_counts_handlers");
    vc_assert((int)g_obj[0].use_count() == 1 + held, "C11.remove.no_reference_left");
    other_untouched(*loop);
    vc_assert(g_run[0] == (held > 0) && g_run[1] == (held > 1), "C11.remove.cleaned_handlers_never_called");
    // the descriptor can be registered afresh
    if (clean && deactivate)
    {
        loop->fd_register(g_obj[0], fd_event::fd_writable, counting(0), true, p0);
        vc_assert(g_is_mon[0] && g_mon[0] == EPOLLOUT, "C11.remove.registered_afresh");
        vc_assert(loop->ev_loads() == 2, "C11.remove.load_after_fresh_registration");
    }
}
// a handler may change registrations: its own, others', and add new ones
static event_loop *g_loop;
CONTRACT(c11_reentrant)
{
    g_loop = start();
    other_descriptor(*g_loop);
    g_is_mon[0] = true;
    g_mon[0] = EPOLLIN;
    int what = pick("what", 3);
    long token = vc_int("token", 0, 1000);
    long seen = -1;
    long *out = &seen;
    g_loop->fd_register(g_obj[0], fd_event::fd_readable, [what, token, out](const std::shared_ptr<nio> &p) {
        ++g_run[0];
        if (what == 0)
            g_loop->fd_remove(p);                  // its own registration, this very handler included
        else if (what == 1)
            g_loop->fd_register(p, fd_event::fd_readable, counting(1), false, p1);
        else if (what == 2)
            g_loop->fd_remove(g_obj[1]);
        else
        {
            g_loop->fd_remove(p, false);           // switch to writability
            g_loop->fd_register(p, fd_event::fd_writable, fd_event_handler(), true);
        }
        *out = token;                              // the running handler outlives its registration
    }, false, p6);
    full_pass(*g_loop);
    vc_assert(g_run[0] == 1 && seen == token, "C11.reentrant.handler_completes");
    vc_assert(g_run[2] <= 1, "C11.reentrant.other_handler_once");
    g_run[2] = 0;
    if (what == 0)
        vc_assert(g_obj[0].use_count() == 1 && !g_is_mon[0], "C11.reentrant.removed_itself");
    if (what == 3)
        vc_assert(g_is_mon[0] && g_mon[0] == EPOLLOUT, "C11.reentrant.switched_events");
    int loads = what == 0 || what == 2 ? 1 : what == 1 ? 3 : 2;
    vc_assert(g_loop->ev_loads() == loads, "C11.reentrant.load_counts_handlers");
    seen = -1;
    if (what == 3)
        what = 4;                                  // once is enough
    if (what == 0)
    {
        full_pass(*g_loop);
        vc_assert(g_run[0] == 1 && g_run[2] == 1, "C11.reentrant.removed_handler_not_called_again");
    }
}
