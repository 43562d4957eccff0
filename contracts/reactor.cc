// C12: life of a connection in a worker.  C13: async_write.
// The real event loop, reactor callbacks and buffers run against a model of epoll and of one kernel stream per connection.
#include "vc.h"
#include <fcntl.h>
#include "utils.cc"
#include "sysconfig.cc"
#include "nio.cc"
#include "event_loop_epoll.cc"
#include "tcp.cc"
#include <system_error>
using namespace cppev;
using namespace cppev::reactor;

// logging is outside these contracts: statements have no effect on the reactor
namespace cppev
{
async_logger::async_logger(int) {}
async_logger::~async_logger() {}
void async_logger::run_impl() {}
async_logger &async_logger::operator<<(const char *) { return *this; }
async_logger &async_logger::operator<<(const async_logger &) { return *this; }
async_logger &async_logger::operator<<(const std::string &) { return *this; }
async_logger &async_logger::operator<<(long) { return *this; }
async_logger &async_logger::operator<<(int) { return *this; }
async_logger &async_logger::operator<<(double) { return *this; }
async_logger &async_logger::operator<<(float) { return *this; }
namespace log
{
async_logger info(1), error(2), endl(0);
}
}

static int pick(const char *name, int hi)
{
    long v = vc_int(name, 0, hi);
    if (v == 0) return 0;
    if (v == 1) return 1;
    if (v == 2) return 2;
    if (v == 3) return 3;
    if (v == 4) return 4;
    return 5;
}

// ---------------------------------------------------------------- kernel model
static const int EPFD = 50;
static const int FDS[2] = {10, 11};
static bool g_open[2] = {true, true};
static bool g_is_mon[2];
static unsigned g_mon[2];
static int g_n, g_fd[2];
static unsigned g_ev[2];
// incoming stream of connection 0: in_data[0..in_max); what is delivered now ends at in_avail, followed by in_end
enum { AGAIN, END, RESET };
static const char *in_data;
static long in_pos, in_avail;
static int in_end;
// outgoing stream: out_data[0..out_max) are the bytes to send; the kernel takes some of them, then out_end
static const char *out_data;
static long out_pos, out_max;
static int out_end;                                // AGAIN, END (broken pipe) or RESET
static int g_so_error;
static int g_used_after_close;

static int index_of(int fd)
{
    vc_assert(fd == FDS[0] || fd == FDS[1], "C12.kernel.only_its_connections");
    int i = fd == FDS[0] ? 0 : 1;
    vc_assert(g_open[i], "C12.kernel.closed_connection_never_used");
    return i;
}
static int end_errno(int e)
{
    return e == AGAIN ? EAGAIN : ECONNRESET;
}
extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t *) { return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *) { return 0; }
int __wrap_fcntl(int, int, long) { return 0; }
int __wrap_close(int fd)
{
    if (fd == FDS[0] || fd == FDS[1])
    {
        int i = index_of(fd);
        g_open[i] = false;
        g_is_mon[i] = false;
        g_mon[i] = 0;
    }
    return 0;
}
int __wrap_epoll_create(int) { return EPFD; }
int __wrap_epoll_create1(int) { return EPFD; }
int __wrap_epoll_ctl(int, int op, int fd, epoll_event *ev)
{
    int i = index_of(fd);
    if (op == EPOLL_CTL_DEL)
    {
        if (!g_is_mon[i]) { errno = ENOENT; return -1; }
        g_is_mon[i] = false;
        g_mon[i] = 0;
        return 0;
    }
    if (op == EPOLL_CTL_ADD && g_is_mon[i]) { errno = EEXIST; return -1; }
    if (op == EPOLL_CTL_MOD && !g_is_mon[i]) { errno = ENOENT; return -1; }
    g_is_mon[i] = true;
    g_mon[i] = ev->events;
    return 0;
}
int __wrap_epoll_wait(int, epoll_event *evs, int, int)
{
    for (int i = 0; i < g_n; ++i)
    {
        evs[i].events = g_ev[i];
        evs[i].data.u64 = 0;
        evs[i].data.fd = g_fd[i];
    }
    return g_n;
}
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    int i = index_of(fd);
    if (n == 0)
        return 0;
    if (i == 0 && in_pos < in_avail)
    {
        long k = vc_len("read_count", 1, (long)n < in_avail - in_pos ? (long)n : in_avail - in_pos);
        memcpy(buf, in_data + in_pos, (size_t)k);
        in_pos += k;
        return k;
    }
    if (in_end == END)
        return 0;
    errno = end_errno(in_end);
    return -1;
}
ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
    index_of(fd);
    vc_assert((long)n <= out_max - out_pos, "C13.kernel.nothing_beyond_the_buffer");
    vc_assert_eq_bytes(buf, out_data + out_pos, (long)n, "C13.kernel.unsent_bytes_in_order");
    long k = vc_len("accepted", 0, (long)n);
    if (k > 0)
    {
        out_pos += k;
        return k;
    }
    errno = out_end == END ? EPIPE : end_errno(out_end);
    return -1;
}
int __wrap_getsockopt(int fd, int level, int name, void *val, socklen_t *)
{
    index_of(fd);
    vc_assert(level == SOL_SOCKET && name == SO_ERROR, "C12.connect.asks_for_the_result");
    *(int *)val = g_so_error;
    return 0;
}
}

// ---- contracts of the stream functions (C03, C04), for the callers' proofs
extern "C" int stub_read_all(nstream *s, int step) asm("vc_stub._ZN5cppev7nstream8read_allEi");
extern "C" int stub_read_all(nstream *s, int step)
{
    vc_assert(step >= 1, "C03.read_all.requires");
    int i = index_of(s->fd());
    long k = i == 0 ? in_avail - in_pos : 0;
    s->rbuffer().produce(in_data + in_pos, (int)k);
    in_pos += k;
    if (in_end == END)
        s->eof_ = true;
    if (in_end == RESET)
        s->reset_ = true;
    return (int)k;
}
extern "C" int stub_write_all(nstream *s, int step) asm("vc_stub._ZN5cppev7nstream9write_allEi");
extern "C" int stub_write_all(nstream *s, int step)
{
    vc_assert(step >= 1, "C04.write_all.requires");
    index_of(s->fd());
    buffer &b = s->wbuffer();
    vc_assert(b.size() == out_max - out_pos, "C13.kernel.nothing_beyond_the_buffer");
    vc_assert_eq_bytes(b.rawbuf(), out_data + out_pos, b.size(), "C13.kernel.unsent_bytes_in_order");
    long k = vc_len("accepted", 0, b.size());
    out_pos += k;
    if (k < b.size())
    {
        if (out_end == END)
            s->eop_ = true;
        if (out_end == RESET)
            s->reset_ = true;
    }
    b.consume((int)k);
    return (int)k;
}

// ---------------------------------------------------------------- user of the reactor
enum { NOTHING, WRITE, CLOSE, CLOSE_OTHER };
static std::shared_ptr<nsocktcp> g_conn[2];
static tp_shared_data *g_dp;
static event_loop *g_loop;
static int g_on_accept, g_on_connect, g_on_read, g_on_write, g_on_closed;      // calls
static int do_accept, do_read, do_write, do_closed;                            // what the callback does
static bool g_closed_by_user[2];
static const void *g_got;
static long g_got_n;
static bool g_completed_early, g_before_announce, g_after_close, g_wrong_object;

static void user_writes()
{
    long n = vc_len("out", 1, 1L << 20);
    char *p = (char *)vc_alloc("out_data", n);
    out_data = p;
    out_pos = 0;
    out_max = n;
    out_end = pick("out_end", 2);
    g_conn[0]->wbuffer().produce(p, (int)n);
    async_write(g_conn[0]);
}
static void act(int what, const std::shared_ptr<nsocktcp> &c)
{
    if (what == WRITE)
        user_writes();
    else if (what == CLOSE)
    {
        g_closed_by_user[c == g_conn[0] ? 0 : 1] = true;
        safely_close(c);
    }
    else if (what == CLOSE_OTHER)
    {
        int o = c == g_conn[0] ? 1 : 0;
        g_closed_by_user[o] = true;
        safely_close(g_conn[o]);
    }
}
static int note(const std::shared_ptr<nsocktcp> &c)
{
    int i = c == g_conn[0] ? 0 : 1;
    if (c != g_conn[i])
        g_wrong_object = true;
    if (g_closed_by_user[i])
        g_after_close = true;
    return i;
}
static void announced()
{
    if (!g_on_accept && !g_on_connect)
        g_before_announce = true;
    if (g_on_closed)
        g_after_close = true;
}
static void start()
{
    g_dp = new tp_shared_data(nullptr);
    g_dp->on_accept = [](const std::shared_ptr<nsocktcp> &c) {
        note(c);
        ++g_on_accept;
        act(do_accept, c);
    };
    g_dp->on_connect = [](const std::shared_ptr<nsocktcp> &c) {
        note(c);
        ++g_on_connect;
        act(do_accept, c);
    };
    g_dp->on_read_complete = [](const std::shared_ptr<nsocktcp> &c) {
        announced();
        if (note(c) == 0)
        {
            ++g_on_read;
            g_got_n = c->rbuffer().size();
            g_got = vc_snapshot(c->rbuffer().rawbuf(), g_got_n);
        }
        act(do_read, c);
    };
    g_dp->on_write_complete = [](const std::shared_ptr<nsocktcp> &c) {
        note(c);
        announced();
        ++g_on_write;
        if (c->wbuffer().size() != 0 || out_pos != out_max)
            g_completed_early = true;
        int what = do_write;
        do_write = NOTHING;                        // only the first completion writes again
        act(what, c);
    };
    g_dp->on_closed = [](const std::shared_ptr<nsocktcp> &c) {
        note(c);
        announced();
        ++g_on_closed;
        act(do_closed, c);
    };
    g_loop = new event_loop(reinterpret_cast<void *>(g_dp), nullptr);
    g_conn[0] = std::make_shared<nsocktcp>(FDS[0], family::ipv4);
    g_conn[1] = std::make_shared<nsocktcp>(FDS[1], family::ipv4);
}
// the kernel reports connection i ready for what it is watched for; false if an exception leaves the pass
static bool report(int i)
{
    g_fd[0] = FDS[i];
    g_ev[0] = g_mon[i];
    g_n = 1;
    try
    {
        g_loop->loop_once(-1);
    }
    catch (...)
    {
        return false;
    }
    return true;
}
static void arrives(int i)
{
    // as the acceptor hands it over
    g_loop->fd_register(std::static_pointer_cast<nio>(g_conn[i]), fd_event::fd_writable, iohandler::on_acpt_writable, true);
}
static void incoming(const char *name)
{
    in_avail = vc_len(name, 0, 1L << 20);
    in_data = (const char *)vc_alloc("in_data", in_avail);
    in_pos = 0;
    in_end = pick("in_end", 2);
}
// whatever happened, these hold at the end
static void sane()
{
    vc_assert(!g_wrong_object, "C12.callback.gets_its_connection");
    vc_assert(!g_before_announce, "C12.order.announced_first");
    vc_assert(!g_after_close, "C12.order.nothing_after_close");
    vc_assert(!g_completed_early, "C13.complete.never_while_bytes_remain");
}
// state of connection 0 outside callbacks: dropped, waiting for writability with unsent bytes, or waiting for input
static void watched(bool unsent, const char *id)
{
    vc_assert(g_open[0] && g_is_mon[0] && g_mon[0] == (unsigned)(unsent ? EPOLLOUT : EPOLLIN), id);
}

// ================================================================ C12
CONTRACT(c12_announce)
{
    start();
    arrives(0);
    do_accept = pick("in_accept", 2);
    vc_assert(report(0), "C12.announce.no_exception");
    vc_assert(g_on_accept == 1, "C12.announce.exactly_once");
    vc_assert(g_on_read == 0 && g_on_connect == 0, "C12.announce.nothing_else");
    sane();
    if (do_accept == CLOSE)
    {
        vc_assert(!g_open[0] && g_loop->ev_loads() == 0, "C12.announce.closed_is_dropped");
        vc_assert(g_on_closed == 0, "C12.announce.no_closed_callback_after_own_close");
        return;
    }
    bool unsent = do_accept == WRITE && out_pos < out_max;
    watched(unsent, "C12.announce.then_watched");
    do_accept = NOTHING;
    incoming("in");
    if (!unsent)
    {
        vc_assert(report(0), "C12.announce.no_exception");
        vc_assert(g_on_accept == 1, "C12.announce.exactly_once");
        vc_assert(g_on_read == 1 && g_got_n == in_avail, "C12.announce.then_reads");
        sane();
    }
}
CONTRACT(c12_read)
{
    start();
    arrives(0);
    report(0);
    incoming("in");
    do_read = pick("in_read", 2);
    do_closed = pick("in_closed", 1) ? CLOSE : NOTHING;
    vc_assert(report(0), "C12.read.no_exception");
    sane();
    vc_assert(g_on_accept == 1, "C12.announce.exactly_once");
    vc_assert(in_pos == in_avail, "C12.read.takes_everything");
    if (in_avail > 0)
        vc_assert(g_on_read == 1, "C12.read.callback_exactly_once");
    else
        vc_assert(g_on_read <= 1, "C12.read.callback_at_most_once");
    vc_assert(g_got_n == in_avail, "C12.read.delivers_the_bytes");
    vc_assert_eq_bytes(g_got, in_data, in_avail, "C12.read.delivers_the_bytes");
    if (do_read == CLOSE && g_on_read)
    {
        vc_assert(g_on_closed == 0, "C12.read.no_callback_after_own_close");
        vc_assert(!g_open[0] && g_loop->ev_loads() == 0, "C12.read.closed_is_dropped");
        return;
    }
    vc_assert(g_conn[0]->rbuffer().size() == 0, "C12.read.buffer_emptied");
    bool gone = in_end != AGAIN;
    bool reset_on_write = do_read == WRITE && out_pos < out_max && out_end == RESET;
    if (gone)
    {
        vc_assert(g_on_closed == 1, "C12.closed.exactly_once");
        vc_assert(!g_is_mon[0] && g_loop->ev_loads() == 0, "C12.closed.dropped_from_its_loop");
        vc_assert(g_conn[0].use_count() == 1, "C12.closed.not_referenced_any_more");
        vc_assert(g_open[0] == (do_closed != CLOSE), "C12.closed.descriptor_left_to_the_user");
        return;
    }
    if (reset_on_write)
    {
        // noticed by the write: announced now or when the next report comes
        vc_assert(g_on_closed <= 1, "C12.closed.exactly_once");
        return;
    }
    vc_assert(g_on_closed == 0, "C12.closed.only_when_closed");
    watched(do_read == WRITE && out_pos < out_max, "C12.read.watched_again");
    if (do_read == NOTHING)
    {
        long first = in_avail;
        in_avail = vc_len("more", 1, 1L << 20);
        in_data = (const char *)vc_alloc("more_data", in_avail);
        in_pos = 0;
        in_end = AGAIN;
        vc_assert(report(0), "C12.read.no_exception");
        vc_assert(g_on_read == 1 + (first > 0 ? 1 : g_on_read - 1), "C12.read.callback_exactly_once");
        vc_assert(g_got_n == in_avail, "C12.read.delivers_the_bytes");
        vc_assert_eq_bytes(g_got, in_data, in_avail, "C12.read.delivers_the_bytes");
        vc_assert(g_conn[0]->rbuffer().size() == 0, "C12.read.buffer_emptied");
        sane();
    }
}
// two connections are reported in one pass; the callback of the first closes the second
CONTRACT(c12_close_other)
{
    start();
    arrives(0);
    arrives(1);
    report(0);
    report(1);
    in_end = AGAIN;
    int first = pick("first", 1);
    do_read = CLOSE_OTHER;
    for (int i = 0; i < 2; ++i)
    {
        g_fd[i] = FDS[i == 0 ? first : 1 - first];
        g_ev[i] = EPOLLIN;
    }
    in_avail = 0;
    in_data = (const char *)vc_alloc("in_data", 1);
    g_n = 2;
    bool thrown = false;
    try
    {
        g_loop->loop_once(-1);
    }
    catch (...)
    {
        thrown = true;
    }
    vc_assert(!thrown, "C12.close_other.no_exception");
    sane();
    vc_assert(g_on_closed == 0, "C12.close_other.no_closed_callback");
    vc_assert(g_open[0] != g_open[1] && g_loop->ev_loads() > 0, "C12.close_other.the_first_stays");
}
CONTRACT(c12_connected)
{
    start();
    g_loop->fd_register(std::static_pointer_cast<nio>(g_conn[0]), fd_event::fd_writable, iohandler::on_cont_writable, true);
    g_so_error = 0;
    do_accept = pick("in_connect", 2);
    vc_assert(report(0), "C12.connect.no_exception");
    vc_assert(g_on_connect == 1 && g_on_accept == 0 && g_on_read == 0, "C12.connect.announced_exactly_once");
    sane();
    if (do_accept == CLOSE)
    {
        vc_assert(!g_open[0] && g_loop->ev_loads() == 0 && g_on_closed == 0, "C12.connect.closed_is_dropped");
        return;
    }
    watched(do_accept == WRITE && out_pos < out_max, "C12.connect.then_watched");
}

// ================================================================ C13
// established connection, nothing unsent
static void established()
{
    start();
    arrives(0);
    report(0);
}
CONTRACT(c13_async_write)
{
    established();
    do_write = pick("in_complete", 2);
    int again = do_write;
    user_writes();                                 // from user code running in the worker
    sane();
    // (a write issued by the completion callback replaces the one before)
    if (out_pos == out_max)
        vc_assert(g_on_write == (again == WRITE ? 2 : 1), "C13.write.completes_exactly_once");
    else
        vc_assert(g_on_write == (again == WRITE && do_write == NOTHING ? 1 : 0), "C13.write.no_completion_while_bytes_remain");
    if (again == CLOSE && do_write == NOTHING)
        return;
    vc_assert(g_on_closed == 0, "C13.write.no_closed_callback");
    watched(out_pos < out_max, "C13.write.watched_as_needed");
    vc_assert(g_conn[0]->wbuffer().size() == out_max - out_pos, "C13.write.rest_stays_queued");
    vc_assert_eq_bytes(g_conn[0]->wbuffer().rawbuf(), out_data + out_pos, out_max - out_pos, "C13.write.rest_stays_queued");
}
// any number of unsent bytes is queued and the connection is reported writable
CONTRACT(c13_drain)
{
    established();
    user_writes();
    if (out_pos == out_max || out_end != AGAIN)
        vc_stop();
    vc_assert(g_on_write == 0, "C13.write.no_completion_while_bytes_remain");
    out_end = pick("drain_end", 2);
    do_write = pick("in_complete", 2);
    int again = do_write;
    do_closed = pick("in_closed", 1) ? CLOSE : NOTHING;
    vc_assert(report(0), "C13.drain.no_exception");
    sane();
    bool wrote_again = again == WRITE && do_write == NOTHING;
    bool user_closed = again == CLOSE && do_write == NOTHING;
    vc_assert(g_on_write == (out_pos == out_max ? 1 : 0) + (wrote_again ? 1 : 0), "C13.drain.completes_exactly_once");
    if (user_closed)
    {
        vc_assert(g_on_closed == 0 && !g_open[0] && g_loop->ev_loads() == 0, "C13.drain.closed_is_dropped");
        return;
    }
    if (out_pos < out_max && out_end != AGAIN)
    {
        // broken: reported as closed, now or (when the completion callback ran into it) with the next report
        vc_assert(g_on_closed == 1 || (wrote_again && g_on_closed == 0), "C13.drain.broken_connection_reported");
        if (g_on_closed)
            vc_assert(!g_is_mon[0] && g_loop->ev_loads() == 0, "C13.drain.broken_connection_dropped");
        return;
    }
    vc_assert(g_on_closed == 0, "C13.drain.no_closed_callback");
    watched(out_pos < out_max, "C13.drain.watched_as_needed");
    vc_assert(g_conn[0]->wbuffer().size() == out_max - out_pos, "C13.drain.rest_stays_queued");
    vc_assert_eq_bytes(g_conn[0]->wbuffer().rawbuf(), out_data + out_pos, out_max - out_pos, "C13.drain.rest_stays_queued");
}
