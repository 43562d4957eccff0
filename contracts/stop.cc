// C31: stopping a loop, starting and shutting down servers and clients.
// The real event loops, threads and reactor run against a model of epoll, pipes, sockets and threads.
#include "vc.h"
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include "utils.cc"
#include "sysconfig.cc"
#include "nio.cc"
#include "event_loop_epoll.cc"
#include "tcp.cc"
#include <system_error>
using namespace cppev;
using namespace cppev::reactor;

// logging is outside these contracts: statements have no effect on the reactor
namespace cppev
{
async_logger::async_logger(int) {}
async_logger::~async_logger() {}
void async_logger::run_impl() {}
async_logger &async_logger::operator<<(const char *) { return *this; }
async_logger &async_logger::operator<<(const async_logger &) { return *this; }
async_logger &async_logger::operator<<(const std::string &) { return *this; }
async_logger &async_logger::operator<<(long) { return *this; }
async_logger &async_logger::operator<<(int) { return *this; }
async_logger &async_logger::operator<<(double) { return *this; }
async_logger &async_logger::operator<<(float) { return *this; }
namespace log
{
async_logger info(1), error(2), endl(0);
}
}

static int pick(const char *name, int hi)
{
    long v = vc_int(name, 0, hi);
    if (v == 0) return 0;
    if (v == 1) return 1;
    if (v == 2) return 2;
    if (v == 3) return 3;
    if (v == 4) return 4;
    return 5;
}
template <class Fn> static int outcome(Fn &&f, int &code)
{
    // 0 returned, 1 system_error, 2 other
    try
    {
        f();
    }
    catch (const std::system_error &e)
    {
        code = e.code().value();
        return 1;
    }
    catch (const std::exception &)
    {
        return 2;
    }
    return 0;
}

// ---------------------------------------------------------------- kernel model
// descriptors: loops 50.., pipes 100 + 2k (read end) and 101 + 2k (write end), sockets 200..
static const int MAXL = 8, MAXP = 8, MAXS = 3, MAXM = 20;
static int g_loops, g_pipes, g_socks;
static bool g_loop_open[MAXL], g_rd_open[MAXP], g_wr_open[MAXP], g_sock_open[MAXS];
static long g_unread[MAXP];
static int g_nmon;
static struct { int ep, fd; unsigned ev; } g_mon[MAXM];
static int g_pipe_err;
static struct { int domain; bool bound, listening; int port; char path; unsigned char mark; } g_sock[MAXS];
static int g_unlinks;
static bool g_ignored;                             // SIGPIPE is ignored

static bool is_open(int fd)
{
    if (fd >= 50 && fd < 50 + g_loops) return g_loop_open[fd - 50];
    if (fd >= 100 && fd < 100 + 2 * g_pipes) return (fd & 1) ? g_wr_open[(fd - 100) / 2] : g_rd_open[(fd - 100) / 2];
    if (fd >= 200 && fd < 200 + g_socks) return g_sock_open[fd - 200];
    return false;
}
static unsigned events_of(int fd, unsigned wanted)
{
    unsigned e = 0;
    if (fd >= 100 && fd < 100 + 2 * g_pipes && !(fd & 1))
    {
        int k = (fd - 100) / 2;
        if (g_unread[k] > 0)
            e |= EPOLLIN;
        if (!g_wr_open[k])
            e |= EPOLLHUP;
    }
    else if (fd >= 101 && fd < 100 + 2 * g_pipes)
    {
        e |= EPOLLOUT;
        if (!g_rd_open[(fd - 100) / 2])
            e |= EPOLLERR;
    }
    return e & (wanted | EPOLLHUP | EPOLLERR);
}
static int find_mon(int ep, int fd)
{
    for (int i = 0; i < g_nmon; ++i)
        if (g_mon[i].ep == ep && g_mon[i].fd == fd)
            return i;
    return -1;
}
static void drop_mon(int i)
{
    --g_nmon;
    g_mon[i] = g_mon[g_nmon];
}
static void (*on_point)();                         // other threads may act here
static int (*on_wait)(int ep, int n);              // may act before a loop sleeps; n: reports available
static void point()
{
    if (on_point)
        on_point();
}
static bool g_locked;
static int g_lock_owner, g_cur;                    // thread under way (0: main)
static void (*on_lock)();

extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t *)
{
    point();
    if (on_lock)
        on_lock();
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *)
{
    g_locked = false;
    return 0;
}
int __wrap_fcntl(int fd, int, long)
{
    vc_assert(is_open(fd), "C31.kernel.open_descriptors_only");
    return 0;
}
int __wrap_pipe(int *p)
{
    point();
    if (g_pipe_err)
    {
        errno = g_pipe_err;
        return -1;
    }
    p[0] = 100 + 2 * g_pipes;
    p[1] = 101 + 2 * g_pipes;
    g_rd_open[g_pipes] = g_wr_open[g_pipes] = true;
    ++g_pipes;
    return 0;
}
int __wrap_pipe2(int *p, int) { return __wrap_pipe(p); }
int __wrap_close(int fd)
{
    point();
    vc_assert(is_open(fd), "C31.kernel.closed_once");
    for (int i = g_nmon - 1; i >= 0; --i)
        if (g_mon[i].fd == fd || g_mon[i].ep == fd)
            drop_mon(i);
    if (fd >= 200) g_sock_open[fd - 200] = false;
    else if (fd >= 100 && (fd & 1)) g_wr_open[(fd - 100) / 2] = false;
    else if (fd >= 100) g_rd_open[(fd - 100) / 2] = false;
    else g_loop_open[fd - 50] = false;
    return 0;
}
int __wrap_epoll_create(int)
{
    g_loop_open[g_loops] = true;
    return 50 + g_loops++;
}
int __wrap_epoll_create1(int) { return __wrap_epoll_create(1); }
int __wrap_epoll_ctl(int ep, int op, int fd, epoll_event *ev)
{
    point();
    vc_assert(is_open(ep) && is_open(fd), "C31.kernel.open_descriptors_only");
    int i = find_mon(ep, fd);
    if (op == EPOLL_CTL_DEL)
    {
        if (i < 0) { errno = ENOENT; return -1; }
        drop_mon(i);
        return 0;
    }
    if (op == EPOLL_CTL_ADD && i >= 0) { errno = EEXIST; return -1; }
    if (op == EPOLL_CTL_MOD && i < 0) { errno = ENOENT; return -1; }
    if (i < 0)
        i = g_nmon++;
    g_mon[i].ep = ep;
    g_mon[i].fd = fd;
    g_mon[i].ev = ev->events;
    return 0;
}
int __wrap_epoll_wait(int ep, epoll_event *evs, int max, int)
{
    vc_assert(is_open(ep), "C31.kernel.open_descriptors_only");
    while (true)
    {
        int n = 0;
        for (int i = 0; i < g_nmon; ++i)
            if (g_mon[i].ep == ep && n < max)
            {
                unsigned e = events_of(g_mon[i].fd, g_mon[i].ev);
                if (e)
                {
                    evs[n].events = e;
                    evs[n].data.u64 = 0;
                    evs[n].data.fd = g_mon[i].fd;
                    ++n;
                }
            }
        int r = on_wait(ep, n);                    // 0: look again, 1: return the reports, -1: interrupted
        if (r > 0)
            return n;
        if (r < 0)
        {
            errno = EINTR;
            return -1;
        }
    }
}
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    vc_assert(is_open(fd), "C31.kernel.open_descriptors_only");
    int k = (fd - 100) / 2;
    if (g_unread[k] == 0)
    {
        if (!g_wr_open[k])
            return 0;
        errno = EAGAIN;
        return -1;
    }
    long m = (long)n < g_unread[k] ? (long)n : g_unread[k];
    memset(buf, '0', (size_t)m);
    g_unread[k] -= m;
    return m;
}
ssize_t __wrap_write(int fd, const void *, size_t n)
{
    vc_assert(is_open(fd), "C31.kernel.open_descriptors_only");
    g_unread[(fd - 100) / 2] += (long)n;
    return (ssize_t)n;
}
int __wrap_socket(int domain, int type, int)
{
    vc_assert((type & 0xff) == SOCK_STREAM, "C31.listen.stream_socket");
    g_sock_open[g_socks] = true;
    g_sock[g_socks].domain = domain;
    return 200 + g_socks++;
}
int __wrap_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int __wrap_getsockopt(int, int, int, void *, socklen_t *) { errno = ENOPROTOOPT; return -1; }
int __wrap_bind(int fd, const sockaddr *addr, socklen_t)
{
    vc_assert(is_open(fd) && fd >= 200, "C31.kernel.open_descriptors_only");
    vc_assert(!g_sock[fd - 200].bound && addr->sa_family == g_sock[fd - 200].domain, "C31.listen.address_asked");
    g_sock[fd - 200].bound = true;
    if (addr->sa_family == AF_UNIX)
        g_sock[fd - 200].path = ((const sockaddr_un *)addr)->sun_path[0];
    else
    {
        g_sock[fd - 200].port = ntohs(((const sockaddr_in *)addr)->sin_port);
        g_sock[fd - 200].mark = addr->sa_family == AF_INET ? *(const unsigned char *)&((const sockaddr_in *)addr)->sin_addr
                                                           : *(const unsigned char *)&((const sockaddr_in6 *)addr)->sin6_addr;
    }
    return 0;
}
int __wrap_listen(int fd, int)
{
    vc_assert(is_open(fd) && fd >= 200 && g_sock[fd - 200].bound, "C31.listen.bound_before");
    g_sock[fd - 200].listening = true;
    return 0;
}
// the only address texts used here are "::1" and "127.0.0.1": the stand-in leaves a mark
int __wrap_inet_pton(int, const char *text, void *dst)
{
    *(unsigned char *)dst = text[0] == ':' ? 0x61 : 0x41;
    return 1;
}
int __wrap_unlink(const char *)
{
    ++g_unlinks;
    return 0;
}
int __wrap_sigaction(int sig, const struct sigaction *act, struct sigaction *)
{
    if (sig == SIGPIPE)
        g_ignored = act->sa_handler == SIG_IGN;
    return 0;
}
sighandler_t __wrap_signal(int sig, sighandler_t h)
{
    if (sig == SIGPIPE)
        g_ignored = h == SIG_IGN;
    return SIG_DFL;
}
}

// ================================================================ one loop, stopped from another thread
static event_loop *g_loop;
static int g_co;                                   // the stopping thread
static bool g_in_stopper, g_stop_done, g_stopping;
static int g_waits_after, g_others;
static int g_stop_points;

static void run_stopper()
{
    if (g_stop_done)
        return;
    g_in_stopper = true;
    vc_co_resume(g_co);
    g_in_stopper = false;
}
static void stopper(void *)
{
    g_stopping = true;
    g_loop->stop_loop_forever();
    g_stop_done = true;
}
static void stop_point()
{
    if (g_in_stopper)
    {
        // the stopping thread can be delayed anywhere
        if (pick("delayed", 1))
        {
            g_in_stopper = false;
            vc_co_yield();
            g_in_stopper = true;
        }
    }
    else if (g_stop_points > 0)
    {
        --g_stop_points;
        if (pick("other_thread_goes_on", 1))
            run_stopper();
    }
}
static void stop_lock()
{
    // one of the threads holds the lock: the other one lets it go on
    while (g_locked)
    {
        if (g_in_stopper)
        {
            g_in_stopper = false;
            vc_co_yield();
            g_in_stopper = true;
        }
        else
            run_stopper();
    }
    g_locked = true;
}
static int stop_wait(int, int n)
{
    if (g_stop_done)
    {
        if (n == 0)
        {
            vc_assert(false, "C31.stop.a_stopped_loop_never_sleeps_on");
            vc_stop();
        }
        vc_assert(g_waits_after == 0, "C31.stop.no_further_pass");
        ++g_waits_after;
        return 1;
    }
    if (pick("other_thread_goes_on", 1))
    {
        run_stopper();
        return 0;
    }
    if (n > 0)
        return 1;
    if (g_others > 0)
    {
        --g_others;
        return -1;
    }
    run_stopper();
    return 0;
}
CONTRACT(c31_stop)
{
    g_loop = new event_loop();
    on_point = stop_point;
    on_lock = stop_lock;
    on_wait = stop_wait;
    g_others = 1;
    g_stop_points = 2;
    g_co = vc_co_new(stopper, nullptr);
    if (pick("stopped_before_it_starts", 1))
        while (!g_stop_done)
            run_stopper();
    bool before = g_stop_done;
    g_loop->loop_forever(-1);
    vc_assert(g_stopping, "C31.stop.runs_until_stopped");
    if (before)
        vc_assert(g_waits_after == 0, "C31.stop.no_pass_when_stopped_before");
    while (!g_stop_done)
        run_stopper();
    on_point = nullptr;
    delete g_loop;
    vc_assert(g_pipes <= 1, "C31.stop.at_most_one_pipe");
    for (int i = 0; i < g_pipes; ++i)
        vc_assert(!g_rd_open[i] && !g_wr_open[i], "C31.stop.nothing_left_open");
}
CONTRACT(c31_stop_fails)
{
    g_loop = new event_loop();
    g_pipe_err = (int)vc_int("pipe_code", 1, 133);
    int code = 0;
    int o = outcome([] { g_loop->stop_loop_forever(); }, code);
    vc_assert(o == 1 && code == g_pipe_err, "C31.stop.failure_thrown");
    delete g_loop;
}

// any number of passes: a pass is replaced by its contract (it may do anything, stopping the loop included)
static bool g_asked;
static long g_passes;
static int g_timeout;
extern "C" void stub_loop_once(event_loop *l, int timeout) asm("vc_stub._ZN5cppev10event_loop9loop_onceEi");
extern "C" void stub_loop_once(event_loop *l, int timeout)
{
    vc_assert(l == g_loop, "C31.forever.this_loop");
    vc_assert(!g_asked, "C31.stop.no_further_pass");
    vc_assert(timeout == g_timeout, "C31.forever.timeout_passed_on");
    if (vc_bool("stop_now"))
    {
        l->stop_loop_forever();
        g_asked = true;
        vc_phase();
    }
}
static int forever_wait(int, int n)                // natively the real pass runs
{
    if (g_asked)
        return 1;
    if (g_others > 0 && vc_bool("interrupted"))
    {
        --g_others;
        return -1;
    }
    g_loop->stop_loop_forever();
    g_asked = true;
    return 0;
}
CONTRACT(c31_forever)
{
    g_loop = new event_loop();
    g_timeout = (int)vc_int("timeout", INT_MIN, INT_MAX);
    on_wait = forever_wait;
    g_others = 3;
    g_loop->loop_forever(g_timeout);
    vc_assert(g_asked, "C31.stop.runs_until_stopped");
    delete g_loop;
    vc_assert(!g_rd_open[0] && !g_wr_open[0], "C31.stop.nothing_left_open");
}

// ================================================================ servers and clients
static const int MAXT = 8;
static int g_threads;                              // created so far; thread k has the handle 70 + k
static void *(*g_fn[MAXT])(void *);
static void *g_arg[MAXT];
static int g_cos[MAXT];
static bool g_ran[MAXT], g_ended[MAXT], g_joined[MAXT], g_slept;
static int g_early;                                // threads run as soon as they are created

static void body(void *p)
{
    int k = (int)(long)p;
    g_fn[k](g_arg[k]);
    g_ended[k] = true;
}
static int thread_wait(int, int n)
{
    if (n > 0)
        return 1;
    if (g_cur == 0)
    {
        vc_assert(false, "C31.run.only_threads_wait");
        vc_stop();
    }
    int me = g_cur;
    g_slept = true;
    g_cur = 0;
    vc_co_yield();
    g_cur = me;
    return 0;
}
static void resume_thread(int k)
{
    g_cur = 70 + k;
    vc_co_resume(g_cos[k]);
    g_cur = 0;
}
extern "C"
{
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    vc_assert(g_ignored, "C31.run.broken_pipes_ignored_before_threads_start");
    int k = g_threads++;
    for (int i = 0; i < k; ++i)
        vc_assert(g_arg[i] != arg, "C31.run.each_started_once");
    g_fn[k] = fn;
    g_arg[k] = arg;
    g_cos[k] = vc_co_new(body, (void *)(long)k);
    *t = (pthread_t)(70 + k);
    if (g_early)
        resume_thread(k);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **)
{
    int k = (int)((long)t - 70);
    vc_assert(k >= 0 && k < g_threads, "C31.shutdown.joins_its_threads");
    vc_assert(!g_joined[k], "C31.shutdown.joined_once");
    g_joined[k] = true;
    // the thread goes on until it ends; nobody else is there to wake it up later
    g_slept = false;
    resume_thread(k);
    if (g_slept)
    {
        vc_assert(false, "C31.shutdown.waits_only_for_stopped_threads");
        vc_stop();
    }
    return 0;
}
int __wrap_pthread_once(pthread_once_t *ctl, void (*fn)())
{
    if (*ctl == 0)
    {
        *ctl = 2;
        if (std::__once_call)
            std::__once_call();
        else
            fn();
    }
    return 0;
}
void __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *) {}
int __wrap_pthread_setcancelstate(int, int *) { return 0; }
int __wrap_pthread_setcanceltype(int, int *) { return 0; }
int __wrap_pthread_cancel(pthread_t) { vc_assert(false, "C31.shutdown.threads_end_by_themselves"); return 0; }
int __wrap_pthread_detach(pthread_t) { vc_assert(false, "C31.shutdown.threads_are_joined"); return 0; }
}

static void all_closed()
{
    for (int i = 0; i < g_loops; ++i)
        vc_assert(!g_loop_open[i], "C31.end.nothing_left_open");
    for (int i = 0; i < g_pipes; ++i)
        vc_assert(!g_rd_open[i] && !g_wr_open[i], "C31.end.nothing_left_open");
    for (int i = 0; i < g_socks; ++i)
        vc_assert(!g_sock_open[i], "C31.end.nothing_left_open");
}
static void all_ended(int n)
{
    vc_assert(g_threads == n, "C31.shutdown.starts_none");
    for (int i = 0; i < n; ++i)
    {
        vc_assert(g_joined[i], "C31.shutdown.every_thread_joined");
        vc_assert(g_ended[i], "C31.shutdown.every_thread_ended");
    }
}
CONTRACT(c31_server)
{
    on_wait = thread_wait;
    g_early = pick("threads_run_at_once", 1);
    int workers = 1 + pick("workers_minus_1", 1), addrs = pick("addresses", 2);
    tcp_server *srv = new tcp_server(workers);
    int removals = 0;
    int kind[2] = {0, 0}, port[2] = {0, 0};
    for (int i = 0; i < addrs; ++i)
    {
        kind[i] = pick("kind", 2);
        port[i] = (int)vc_int("port", 1, 65535);
        if (kind[i] == 0)
            srv->listen(port[i], family::ipv4);
        else if (kind[i] == 1)
            srv->listen(port[i], family::ipv6, "::1");
        else
        {
            bool remove = pick("remove", 1) != 0;
            removals += remove;
            srv->listen_unix(i == 0 ? "a" : "b", remove);
        }
    }
    vc_assert(g_threads == 0, "C31.run.nothing_started_before");
    vc_assert(g_socks == addrs && g_unlinks == removals, "C31.listen.one_socket_per_address");
    for (int i = 0; i < addrs; ++i)
    {
        vc_assert(g_sock_open[i] && g_sock[i].listening, "C31.listen.listening");
        vc_assert(g_sock[i].domain == (kind[i] == 0 ? AF_INET : kind[i] == 1 ? AF_INET6 : AF_UNIX), "C31.listen.address_asked");
        if (kind[i] == 2)
            vc_assert(g_sock[i].path == (i == 0 ? 'a' : 'b'), "C31.listen.address_asked");
        else
        {
            vc_assert(g_sock[i].port == port[i], "C31.listen.address_asked");
            vc_assert(g_sock[i].mark == (kind[i] == 1 ? 0x61 : 0), "C31.listen.address_asked");
        }
    }
    srv->run();
    vc_assert(g_threads == workers + addrs, "C31.run.each_started_once");
    if (g_early)
    {
        for (int i = 0; i < g_threads; ++i)
            vc_assert(!g_ended[i], "C31.run.threads_run_until_shutdown");
        for (int s = 0; s < addrs; ++s)
        {
            int loops = 0;
            for (int i = 0; i < g_nmon; ++i)
                if (g_mon[i].fd == 200 + s && (g_mon[i].ev & EPOLLIN))
                    ++loops;
            vc_assert(loops == 1, "C31.run.every_address_is_served_by_one_loop");
        }
    }
    srv->shutdown();
    all_ended(workers + addrs);
    delete srv;
    all_closed();
}
CONTRACT(c31_client)
{
    on_wait = thread_wait;
    g_early = pick("threads_run_at_once", 1);
    int workers = 1 + pick("workers_minus_1", 1), conns = 1 + pick("connectors_minus_1", 1);
    tcp_client *cl = new tcp_client(workers, conns);
    vc_assert(g_threads == 0, "C31.run.nothing_started_before");
    cl->run();
    vc_assert(g_threads == workers + conns, "C31.run.each_started_once");
    if (g_early)
        for (int i = 0; i < g_threads; ++i)
            vc_assert(!g_ended[i], "C31.run.threads_run_until_shutdown");
    cl->shutdown();
    all_ended(workers + conns);
    delete cl;
    all_closed();
}
