// C12 (failed connects), C14 (connection targets) and C15 (choice of the worker).  These contracts look at private members
// of the reactor classes (the tables of hosts and failures, the list of workers).
#include "vc.h"
#include <fcntl.h>
#include <sys/un.h>
#include "utils.cc"
#include "sysconfig.cc"
#include "nio.cc"
#include "event_loop_epoll.cc"
#include "tcp.cc"
#include <system_error>
using namespace cppev;
using namespace cppev::reactor;

namespace cppev
{
async_logger::async_logger(int) {}
async_logger::~async_logger() {}
void async_logger::run_impl() {}
async_logger &async_logger::operator<<(const char *) { return *this; }
async_logger &async_logger::operator<<(const async_logger &) { return *this; }
async_logger &async_logger::operator<<(const std::string &) { return *this; }
async_logger &async_logger::operator<<(long) { return *this; }
async_logger &async_logger::operator<<(int) { return *this; }
async_logger &async_logger::operator<<(double) { return *this; }
async_logger &async_logger::operator<<(float) { return *this; }
namespace log
{
async_logger info(1), error(2), endl(0);
}
}

static int pick(const char *name, int hi)
{
    long v = vc_int(name, 0, hi);
    if (v == 0) return 0;
    if (v == 1) return 1;
    if (v == 2) return 2;
    if (v == 3) return 3;
    if (v == 4) return 4;
    return 5;
}

// ---------------------------------------------------------------- kernel model
static int g_loops;                                // event loops 50, 51, ... in order of construction
static int g_next_fd = 10;                         // descriptors of new sockets
static bool g_open[16];
static int g_on[16];                               // event loop a descriptor is monitored by
static unsigned g_bits[16];
static int g_added[16];                            // how often it was added to an event loop
static char g_target[16];                          // first letter of the path it was connected to
static int g_attempts;                             // attempts made so far
static bool g_bad[8];                              // these attempts fail ...
static int g_bad_kind;                             // ... in this way: 0 connect, 1 socket, 2 registration
static bool g_refuse[16];
static int g_accepts;                              // connections waiting in the listening socket
static int g_load[4];                              // handlers registered per worker, counted here
static int g_first_worker;                         // event loop descriptor of the first worker
static int g_workers;
static bool g_not_minimal;
static int g_so_error;
static int g_pipe;                                 // bytes in the pipe
static bool g_locked;
static void (*on_unlock)();
static void (*on_lock)();
static connector *g_cont;
static bool g_pipe_guard;

static int slot(int fd)
{
    vc_assert(fd >= 10 && fd < 26, "C14.kernel.its_own_sockets");
    return fd - 10;
}
extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (g_cont && m == (pthread_mutex_t *)&g_cont->lock_)
    {
        if (on_lock)
            on_lock();
        vc_assert(!g_locked, "C14.lock.no_self_deadlock");
        g_locked = true;
        vc_protect(&g_cont->hosts_, sizeof(g_cont->hosts_), true, "targets");
        if (g_pipe_guard)
            vc_protect(&g_cont->wrp_->wbuffer(), sizeof(buffer), true, "pipe");
    }
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (g_cont && m == (pthread_mutex_t *)&g_cont->lock_)
    {
        g_locked = false;
        vc_protect(&g_cont->hosts_, sizeof(g_cont->hosts_), false, "targets");
        if (g_pipe_guard)
            vc_protect(&g_cont->wrp_->wbuffer(), sizeof(buffer), false, "pipe");
        if (on_unlock)
            on_unlock();
    }
    return 0;
}
int __wrap_fcntl(int, int, long) { return 0; }
int __wrap_pipe(int *p)
{
    p[0] = 30;
    p[1] = 31;
    return 0;
}
int __wrap_pipe2(int *p, int) { return __wrap_pipe(p); }
int __wrap_close(int fd)
{
    if (fd >= 10 && fd < 26)
    {
        vc_assert(g_open[slot(fd)], "C14.kernel.closed_once");
        g_open[slot(fd)] = false;
        g_on[slot(fd)] = 0;
    }
    return 0;
}
static int new_socket()
{
    int fd = g_next_fd++;
    g_open[slot(fd)] = true;
    return fd;
}
int __wrap_socket(int, int, int)
{
    int n = g_attempts++;
    if (g_bad[n & 7] && g_bad_kind == 1)
    {
        errno = EMFILE;
        return -1;
    }
    int fd = new_socket();
    if (g_bad[n & 7] && g_bad_kind == 2)
        g_refuse[slot(fd)] = true;
    return fd;
}
int __wrap_connect(int fd, const sockaddr *a, socklen_t)
{
    vc_assert(g_target[slot(fd)] == 0, "C14.kernel.one_connect_per_socket");
    g_target[slot(fd)] = ((const sockaddr_un *)a)->sun_path[0];
    if (g_bad[(g_attempts - 1) & 7] && g_bad_kind == 0)
    {
        errno = ECONNREFUSED;
        return -1;
    }
    errno = EINPROGRESS;
    return g_attempts % 2 ? -1 : 0;
}
int __wrap_accept(int fd, sockaddr *, socklen_t *)
{
    vc_assert(fd == 25, "C15.kernel.listening_socket");
    if (g_accepts == 0)
    {
        errno = EAGAIN;
        return -1;
    }
    --g_accepts;
    return new_socket();
}
int __wrap_getsockopt(int, int, int, void *val, socklen_t *)
{
    *(int *)val = g_so_error;
    return 0;
}
int __wrap_epoll_create(int) { return 50 + g_loops++; }
int __wrap_epoll_create1(int) { return 50 + g_loops++; }
int __wrap_epoll_ctl(int ep, int op, int fd, epoll_event *ev)
{
    if (fd >= 30)
        return 0;
    int i = slot(fd);
    vc_assert(g_open[i], "C14.kernel.open_socket");
    if (op == EPOLL_CTL_DEL)
    {
        vc_assert(g_on[i] == ep, "C15.kernel.removed_from_its_loop");
        g_on[i] = 0;
        g_bits[i] = 0;
        return 0;
    }
    vc_assert(op == EPOLL_CTL_ADD && g_on[i] == 0, "C15.kernel.one_loop_per_connection");
    if (g_refuse[slot(fd)])
    {
        errno = ENOSPC;
        return -1;
    }
    g_on[i] = ep;
    g_bits[i] = ev->events;
    ++g_added[i];
    int w = ep - g_first_worker;
    if (w >= 0 && w < g_workers)
    {
        for (int k = 0; k < g_workers; ++k)
            if (g_load[k] < g_load[w])
                g_not_minimal = true;
        ++g_load[w];
    }
    return 0;
}
static int g_report_fd;
int __wrap_epoll_wait(int, epoll_event *evs, int, int)
{
    evs[0].events = EPOLLOUT;
    evs[0].data.u64 = 0;
    evs[0].data.fd = g_report_fd;
    return 1;
}
ssize_t __wrap_write(int fd, const void *, size_t n)
{
    vc_assert(fd == 31 && n == 1, "C14.kernel.wakes_through_the_pipe");
    if (g_pipe > 0 && vc_bool("pipe_full"))
    {
        errno = EAGAIN;
        return -1;
    }
    ++g_pipe;
    if (!g_locked && on_unlock)
        on_unlock();
    return 1;
}
ssize_t __wrap_read(int fd, void *p, size_t n)
{
    vc_assert(fd == 30, "C14.kernel.reads_the_pipe");
    if (g_pipe == 0 || n == 0)
    {
        errno = EAGAIN;
        return -1;
    }
    *(char *)p = '0';
    --g_pipe;
    return 1;
}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *) { return (unsigned)vc_int("random", 0, 4294967295L); }
}

// ---------------------------------------------------------------- workers
static tp_shared_data *g_dp;
static event_loop *g_worker[4];
static int g_announced[2];
static void workers(int n)
{
    g_dp = new tp_shared_data(nullptr);
    g_first_worker = 50 + g_loops;
    for (int i = 0; i < n; ++i)
    {
        g_worker[i] = new event_loop(reinterpret_cast<void *>(g_dp), nullptr);
        g_dp->evls.push_back(g_worker[i]);
    }
    g_workers = n;
}

// ================================================================ C12
static int failures_at(iohandler *worker, const char *path, int &all)
{
    int of_host = 0;
    all = 0;
    for (auto &h : worker->failures_)
    {
        all += h.second;
        if (std::get<0>(h.first) == path && std::get<2>(h.first) == family::local)
            of_host += h.second;
    }
    return of_host;
}
CONTRACT(c12_connect_failed)
{
    workers(0);
    int connected = 0, other = 0;
    g_dp->on_connect = [&connected](const std::shared_ptr<nsocktcp> &) { ++connected; };
    g_dp->on_accept = g_dp->on_read_complete = g_dp->on_write_complete = g_dp->on_closed =
        [&other](const std::shared_ptr<nsocktcp> &) { ++other; };
    iohandler *worker = new iohandler(g_dp);
    // two connections, to one host or to two
    int same = pick("same", 1), failed[2] = {0, 0}, established = 0;
    for (int i = 0; i < 2; ++i)
    {
        g_so_error = pick("fails", 1) ? (int)vc_int("so_error", 1, 133) : 0;
        int host = same ? 0 : i;
        {
            std::shared_ptr<nsocktcp> sock = nio_factory::get_nsocktcp(family::local);
            sock->connect_unix(host ? "b" : "a");
            worker->evlp_.fd_register(std::static_pointer_cast<nio>(sock), fd_event::fd_writable, iohandler::on_cont_writable, true);
        }
        g_report_fd = 10 + i;
        worker->evlp_.loop_once(-1);
        if (g_so_error)
            ++failed[host];
        else
            ++established;
        vc_assert(other == 0, "C12.connect.no_other_callback");
        vc_assert(connected == established, "C12.connect.announced_iff_established");
        int all;
        int a = failures_at(worker, "a", all), b = failures_at(worker, "b", all);
        vc_assert(a == failed[0] && b == failed[1] && all == a + b, "C12.connect.failure_counted_for_its_host");
        if (g_so_error)
            vc_assert(worker->evlp_.ev_loads() == 2 * established && g_on[i] == 0 && !g_open[i], "C12.connect.failed_is_dropped");
        else
            vc_assert(g_open[i] && g_on[i] != 0 && g_bits[i] == EPOLLIN, "C12.connect.established_is_watched");
    }
}

// what the user hands to a server or client reaches the workers' callbacks: each handler by its own event, and the external data
template <typename T>
static void check_handlers(T *owner, tp_shared_data &shared, int *data, bool server)
{
    static int calls[4];
    static void *got;
    for (int &c : calls)
        c = 0;
    owner->set_on_read_complete([](const std::shared_ptr<nsocktcp> &c) { ++calls[1]; got = external_data(c); });
    owner->set_on_write_complete([](const std::shared_ptr<nsocktcp> &c) { ++calls[2]; got = external_data(c); });
    owner->set_on_closed([](const std::shared_ptr<nsocktcp> &c) { ++calls[3]; got = external_data(c); });
    tcp_event_handler first = [](const std::shared_ptr<nsocktcp> &c) { ++calls[0]; got = external_data(c); };
    if constexpr (std::is_same<T, tcp_server>::value)
        owner->set_on_accept(first);
    else
        owner->set_on_connect(first);
    std::shared_ptr<nsocktcp> conn = nio_factory::get_nsocktcp(family::local);
    conn->set_evlp(*shared.evls[0]);
    for (int e = 0; e < 4; ++e)
    {
        got = nullptr;
        if (e == 0 && server)
            shared.on_accept(conn);
        else if (e == 0)
            shared.on_connect(conn);
        else if (e == 1)
            shared.on_read_complete(conn);
        else if (e == 2)
            shared.on_write_complete(conn);
        else
            shared.on_closed(conn);
        for (int k = 0; k < 4; ++k)
            vc_assert(calls[k] == (k <= e ? 1 : 0), "C12.handlers.each_by_its_own_event");
        vc_assert(got == data, "C12.handlers.external_data");
    }
    // the event nobody handles is harmless
    if (server)
        shared.on_connect(conn);
    else
        shared.on_accept(conn);
    for (int k = 0; k < 4; ++k)
        vc_assert(calls[k] == 1, "C12.handlers.each_by_its_own_event");
}
CONTRACT(c12_handlers)
{
    int data;
    if (pick("server", 1))
    {
        tcp_server *s = new tcp_server(1 + pick("workers", 2), &data);
        check_handlers(s, s->data_, &data, true);
    }
    else
    {
        tcp_client *c = new tcp_client(1 + pick("workers", 2), 1, &data);
        check_handlers(c, c->data_, &data, false);
    }
}

// ================================================================ C14
static int g_depth;                                // 1: the connecting thread runs, 2: an addition meanwhile
static int g_adds_done, g_adds;
static int g_t[2];
static char g_to[2];
static bool g_threw;
static void next_add()
{
    int k = g_adds_done++;
    g_cont->add_unix(g_to[k] == 'a' ? "a" : "b", g_t[k]);
}
static void pick_up()
{
    g_depth = 1;
    try
    {
        connector::on_pipe_readable(std::static_pointer_cast<nio>(g_cont->rdp_));
    }
    catch (...)
    {
        g_threw = true;
    }
    g_depth = 0;
}
static void maybe_pick_up()
{
    if (g_depth == 0 && !g_locked && g_pipe > 0 && vc_bool("picked_up"))
        pick_up();
}
static void maybe_add()
{
    // before the connecting thread takes the lock another addition may happen
    if (g_depth == 1 && g_adds_done < g_adds && vc_bool("added"))
    {
        g_depth = 2;
        next_add();
        g_depth = 1;
    }
}
static int failures_of(const std::string &path)
{
    int n = 0;
    for (auto &h : g_cont->failures_)
        if (std::get<0>(h.first) == path)
            n += h.second;
    return n;
}
static int handed_over(char target)
{
    int n = 0;
    for (int i = 0; i < 6; ++i)
        if (g_target[i] == target && g_open[i] && g_added[i] == 1 && g_on[i] >= g_first_worker && g_bits[i] == EPOLLOUT)
            ++n;
    return n;
}
static void prepare()
{
    workers(2);
    connector *c = new connector(g_dp);
    c->rdp_->set_evlp(c->evlp_);
    g_cont = c;
    vc_protect(&c->hosts_, sizeof(c->hosts_), false, "targets");
}
static void all_attempted()
{
    vc_protect(&g_cont->hosts_, sizeof(g_cont->hosts_), true, "targets");
    int want_a = 0, want_b = 0;
    for (int i = 0; i < g_adds; ++i)
        (g_to[i] == 'a' ? want_a : want_b) += g_t[i];
    vc_assert(!g_threw, "C14.attempts.connector_survives_failures");
    vc_assert(handed_over('a') + failures_of("a") == want_a, "C14.attempts.each_handed_over_or_failed");
    vc_assert(handed_over('b') + failures_of("b") == want_b, "C14.attempts.each_handed_over_or_failed");
    vc_assert(g_attempts == want_a + want_b, "C14.attempts.exactly_as_many_as_added");
    int bad = 0;
    for (int i = 0; i < g_attempts && i < 8; ++i)
        bad += g_bad[i];
    vc_assert(failures_of("a") + failures_of("b") == bad, "C14.attempts.failures_counted");
    vc_assert(g_worker[0]->ev_loads() + g_worker[1]->ev_loads() == g_attempts - bad, "C14.attempts.one_worker_each");
}
CONTRACT(c14_interleaved)
{
    prepare();
    g_adds = 2;
    g_to[0] = 'a';
    g_to[1] = pick("same_target", 1) ? 'a' : 'b';
    g_t[0] = pick("t0", 2);
    g_t[1] = pick("t1", 2);
    on_unlock = maybe_pick_up;
    on_lock = maybe_add;
    next_add();
    if (g_adds_done < g_adds)
        next_add();
    on_unlock = nullptr;
    on_lock = nullptr;
    if (g_pipe > 0)
        pick_up();
    all_attempted();
    if (g_pipe > 0)
        pick_up();
    all_attempted();
}
CONTRACT(c14_failures)
{
    prepare();
    g_adds = 2;
    g_to[0] = 'a';
    g_to[1] = 'b';
    g_t[0] = pick("t0", 2);
    g_t[1] = pick("t1", 1);
    int which = (int)vc_int("which", 0, 7);
    for (int i = 0; i < 3; ++i)
        g_bad[i] = (which >> i) & 1;
    g_bad_kind = pick("kind", 2);
    next_add();
    next_add();
    if (g_pipe > 0)
        pick_up();
    all_attempted();
}
// any counts: what is scheduled before pick-up accumulates
CONTRACT(c14_accumulates)
{
    workers(1);
    connector *c = new connector(g_dp);
    int t0 = (int)vc_int("t0", 0, 1 << 30), t1 = (int)vc_int("t1", 0, (1 << 30) - 1);
    int kind = pick("second", 3);
    c->add("h", 80, family::ipv4, t0);
    c->add(kind == 1 ? "g" : "h", kind == 2 ? 81 : 80, kind == 3 ? family::ipv6 : family::ipv4, t1);
    long first = 0, second = 0;
    for (auto &h : c->hosts_)
    {
        bool is_first = std::get<0>(h.first) == "h" && std::get<1>(h.first) == 80 && std::get<2>(h.first) == family::ipv4;
        (is_first ? first : second) += h.second;
    }
    vc_assert(first == t0 + (kind == 0 ? (long)t1 : 0), "C14.add.same_target_accumulates");
    vc_assert(second == (kind == 0 ? 0 : (long)t1), "C14.add.other_target_separate");
    if (first + second > 0)
        vc_assert(g_pipe > 0, "C14.add.connector_woken");
}
static void distributed(int connectors)
{
    tcp_client *client = new tcp_client(1, connectors);
    int t = (int)vc_int("t", 0, INT_MAX);
    int unix_path = pick("unix", 1);
    if (unix_path)
        client->add_unix("h", t);
    else
        client->add("h", 80, family::ipv6, t);
    long total = 0;
    bool right = true, negative = false;
    for (auto &c : client->conts_)
        for (auto &h : c->hosts_)
        {
            total += h.second;
            negative = negative || h.second < 0;
            right = right && std::get<0>(h.first) == "h" && std::get<2>(h.first) == (unix_path ? family::local : family::ipv6)
                    && (unix_path || std::get<1>(h.first) == 80);
        }
    vc_assert(right && !negative, "C14.client.target_as_given");
    vc_assert(total == t, "C14.client.exactly_t_in_total");
}
CONTRACT(c14_client_1) { distributed(1); }
CONTRACT(c14_client_2) { distributed(2); }
CONTRACT(c14_client_3) { distributed(3); }
// the pipe's buffer is shared by all threads that add targets
CONTRACT(c14_pipe_guarded)
{
    prepare();
    g_pipe_guard = true;
    vc_protect(&g_cont->wrp_->wbuffer(), sizeof(buffer), false, "pipe");
    g_cont->add("h", 80, family::ipv4, (int)vc_int("t", 1, 1 << 30));
    vc_protect(&g_cont->wrp_->wbuffer(), sizeof(buffer), true, "pipe");
    vc_protect(&g_cont->hosts_, sizeof(g_cont->hosts_), true, "targets");
    vc_assert(g_pipe == 1, "C14.add.connector_woken");
}

// ================================================================ C15
static void preload(int worker, int n)
{
    // other registrations of that worker
    for (int i = 0; i < n; ++i)
        g_worker[worker]->fd_register(std::make_shared<nstream>(40 + 2 * worker + i), fd_event::fd_readable,
                                      [](const std::shared_ptr<nio> &) {}, false);
    g_load[worker] = n;
}
CONTRACT(c15_accept)
{
    workers(2);
    preload(0, pick("load", 2));
    preload(1, pick("load", 2));
    int loads = g_load[0] + g_load[1];
    g_dp->on_accept = [](const std::shared_ptr<nsocktcp> &c) { ++g_announced[c->fd() - 10]; };
    event_loop listening(reinterpret_cast<void *>(g_dp), nullptr);
    g_open[15] = true;
    std::shared_ptr<nsocktcp> sock = std::make_shared<nsocktcp>(25, family::ipv4);
    sock->set_evlp(listening);
    int n = pick("pending", 2);
    g_accepts = n;
    acceptor::on_acpt_readable(std::static_pointer_cast<nio>(sock));
    vc_assert(g_accepts == 0, "C15.accept.all_taken");
    vc_assert(!g_not_minimal, "C15.accept.least_loaded_worker");
    vc_assert(listening.ev_loads() == 0, "C15.accept.not_kept_by_the_acceptor");
    vc_assert(g_worker[0]->ev_loads() + g_worker[1]->ev_loads() == loads + n, "C15.accept.one_registration_each");
    for (int i = 0; i < n; ++i)
    {
        vc_assert(g_open[i] && g_added[i] == 1, "C15.accept.registered_exactly_once");
        vc_assert(g_on[i] >= g_first_worker && g_on[i] < g_first_worker + 2, "C15.accept.registered_with_a_worker");
        vc_assert(g_bits[i] == EPOLLOUT, "C15.accept.for_the_accept_callback");
        g_report_fd = 10 + i;
        g_worker[g_on[i] - g_first_worker]->loop_once(-1);
        vc_assert(g_announced[i] == 1, "C15.accept.for_the_accept_callback");
    }
}
// the workers to choose from are all of the pool's, each once
template <typename T>
static void check_workers(T *owner, int n)
{
    vc_assert(owner->tp_.size() == n, "C15.workers.as_many_as_asked");
    for (int i = 0; i < n; ++i)
    {
        int found = 0;
        for (event_loop *l : owner->data_.evls)
            if (l == &owner->tp_[i].evlp_)
                ++found;
        vc_assert(found == 1, "C15.workers.every_worker_is_a_candidate");
        vc_assert(owner->tp_[i].evlp_.data() == &owner->data_, "C15.workers.share_the_data");
    }
    vc_assert((int)owner->data_.evls.size() == n, "C15.workers.nothing_else_is_a_candidate");
}
CONTRACT(c15_workers)
{
    int n = 1 + pick("workers", 3);
    if (pick("server", 1))
        check_workers(new tcp_server(n), n);
    else
        check_workers(new tcp_client(n, 1 + pick("connectors", 1)), n);
}
// arbitrary loads
static int g_any_load[4];
extern "C" int stub_loads(const event_loop *l) asm("vc_stub._ZNK5cppev10event_loop8ev_loadsEv");
extern "C" int stub_loads(const event_loop *l)
{
    return l == g_worker[0] ? g_any_load[0] : l == g_worker[1] ? g_any_load[1] : l == g_worker[2] ? g_any_load[2] : g_any_load[3];
}
CONTRACT(c15_least_loaded)
{
    int n = 1 + pick("workers", 3);
    workers(n);
    for (int i = 0; i < 4; ++i)
        g_any_load[i] = (int)vc_int("load", 0, INT_MAX - 1);
    event_loop *l = g_dp->minloads_get_evlp();
    bool found = false;
    for (int i = 0; i < n; ++i)
    {
        found = found || l == g_worker[i];
        vc_assert(l->ev_loads() <= g_worker[i]->ev_loads(), "C15.least_loaded.minimal");
    }
    vc_assert(found, "C15.least_loaded.a_worker");
}
// the standard library's generator: any number of its range (seeding from random_device is not looked into)
extern "C" unsigned long stub_generator(void *) asm("vc_stub._ZNSt26linear_congruential_engineImLm16807ELm0ELm2147483647EEclEv");
extern "C" unsigned long stub_generator(void *) { return (unsigned long)vc_int("generated", 1, 2147483646); }
CONTRACT(c15_random)
{
    int n = 1 + pick("workers", 3);
    workers(n);
    event_loop *l = g_dp->random_get_evlp();
    bool found = false;
    for (int i = 0; i < n; ++i)
        found = found || l == g_worker[i];
    vc_assert(found, "C15.random.a_worker");
}
