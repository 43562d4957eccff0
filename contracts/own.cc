// C06: one owner per descriptor, closed exactly once.  Inductive form: the operations are checked from every state an
// object can be in (open, closed by close(), emptied by a move), so that every history is covered step by step.
#include "buf_common.h"
#include <fcntl.h>
#include <sys/stat.h>
#include "utils.cc"
#include "sysconfig.cc"
#include "nio.cc"
#include <system_error>
using namespace cppev;

static int g_fd[3];
static int g_closed[3];
static int g_nfd;
static bool g_track;

extern "C" int __wrap_fcntl(int, int, long) { return 0; }
extern "C" int __wrap_close(int fd)
{
    int k = -1;
    for (int i = 0; i < 3; ++i)
        if (i < g_nfd && g_fd[i] == fd)
            k = i;
    vc_assert(k >= 0, "C06.closes_only_owned_descriptors");
    if (k >= 0)
    {
        ++g_closed[k];
        vc_assert(g_closed[k] == 1, "C06.closed_at_most_once");
    }
    return 0;
}

static int new_fd(const char *n)
{
    int fd = (int)vc_int(n, 0, INT_MAX);
    for (int i = 0; i < 3; ++i)
        if (i < g_nfd)
            vc_assume(g_fd[i] != fd);
    g_fd[g_nfd++] = fd;
    return fd;
}

template <class T> static T *make(int fd, family f);
template <> nstream *make<nstream>(int fd, family) { return new nstream(fd); }
template <> nsocktcp *make<nsocktcp>(int fd, family f) { return new nsocktcp(fd, f); }
template <> nsockudp *make<nsockudp>(int fd, family f) { return new nsockudp(fd, f); }

static void any_flags(nstream &s)
{
    s.reset_ = vc_bool("reset");
    s.eof_ = vc_bool("eof");
    s.eop_ = vc_bool("eop");
}
static void any_sock(nsock &s)
{
    long n = vc_len("path_len", 0, 107);
    const char *p = vc_cstr("path", n);
    s.peer_ = std::make_tuple(std::string(p, (size_t)n), (int)vc_int("peer_port", -1, 65535));
}
static void any_attr(nstream &s) { any_flags(s); }
static void any_attr(nsocktcp &s) { any_flags(s); any_sock(s); }
static void any_attr(nsockudp &s) { any_sock(s); }

struct attrs
{
    bool reset, eof, eop;
    family f;
    const char *path;
    long path_len;
    int port;
};
static void stream_attrs(const nstream &s, attrs &a) { a.reset = s.is_reset(); a.eof = s.eof(); a.eop = s.eop(); }
static void sock_attrs(const nsock &s, attrs &a)
{
    a.f = s.sockfamily();
    a.path_len = (long)std::get<0>(s.peer_).size();
    a.path = (const char *)vc_snapshot(std::get<0>(s.peer_).data(), a.path_len);
    a.port = std::get<1>(s.peer_);
}
static void take(const nstream &s, attrs &a) { stream_attrs(s, a); }
static void take(const nsocktcp &s, attrs &a) { stream_attrs(s, a); sock_attrs(s, a); }
static void take(const nsockudp &s, attrs &a) { sock_attrs(s, a); }
static void same_stream(const nstream &s, const attrs &a)
{
    vc_assert(s.is_reset() == a.reset && s.eof() == a.eof && s.eop() == a.eop, "C06.status_flags_follow");
}
static void same_sock(const nsock &s, const attrs &a)
{
    vc_assert(s.sockfamily() == a.f, "C06.family_follows");
    vc_assert((long)std::get<0>(s.peer_).size() == a.path_len && std::get<1>(s.peer_) == a.port, "C06.recorded_peer_follows");
    vc_assert_eq_bytes(std::get<0>(s.peer_).data(), a.path, a.path_len, "C06.recorded_peer_follows");
}
static void same(const nstream &s, const attrs &a) { same_stream(s, a); }
static void same(const nsocktcp &s, const attrs &a) { same_stream(s, a); same_sock(s, a); }
static void same(const nsockudp &s, const attrs &a) { same_sock(s, a); }

// an object in any reachable state; *own is the index of the descriptor it must still close (-1: none)
template <class T> static T *any_object(const char *nm, const char *st, int &own, bool content)
{
    int fd = new_fd(nm);
    family f = (family)vc_int("family", 0, 2);
    T *o = make<T>(fd, f);
    own = g_nfd - 1;
    vc_assert(!o->is_closed() && o->fd() == fd, "C06.new_object_is_open");
    if (content)
    {
        any_buffer(o->rbuffer());
        any_buffer(o->wbuffer());
        any_attr(*o);
    }
    if (vc_bool(st))
    {
        int k = own;
        o->close();
        vc_assert(g_closed[k] == 1 && o->is_closed(), "C06.close_closes");
        own = -1;
    }
    return o;
}

template <class T> static void finish(T *a, T *b)
{
    delete a;
    delete b;
    for (int i = 0; i < 3; ++i)
        if (i < g_nfd)
            vc_assert(g_closed[i] == 1, "C06.closed_exactly_once_in_the_end");
}

template <class T> static void close_and_destroy()
{
    int own;
    T *a = any_object<T>("fd", "closed", own, false);
    if (vc_bool("again"))
        a->close();
    if (vc_bool("and_again"))
        a->close();
    vc_assert(a->is_closed() == (g_closed[0] == 1), "C06.is_closed");
    delete a;
    vc_assert(g_closed[0] == 1, "C06.closed_exactly_once_in_the_end");
}

template <class T> static void move_construct()
{
    int own;
    T *b = any_object<T>("fd", "closed", own, true);
    int fd = b->fd();
    bool was_closed = b->is_closed();
    attrs at;
    take(*b, at);
    view r = view_of(b->rbuffer()), w = view_of(b->wbuffer());
    T *a = new T(std::move(*b));
    vc_assert(a->is_closed() == was_closed, "C06.closed_state_follows");
    if (!was_closed)
        vc_assert(a->fd() == fd, "C06.descriptor_follows");
    vc_assert(b->is_closed(), "C06.source_owns_nothing");
    same_content(a->rbuffer(), r, "C06.read_buffer_follows");
    same_content(a->wbuffer(), w, "C06.write_buffer_follows");
    same(*a, at);
    vc_assert(g_closed[0] == (was_closed ? 1 : 0), "C06.move_closes_nothing");
    if (vc_bool("source_close"))
        b->close();
    if (vc_bool("source_first"))
    {
        delete b;
        vc_assert(g_closed[0] == (was_closed ? 1 : 0), "C06.source_owns_nothing");
        delete a;
    }
    else
    {
        delete a;
        delete b;
    }
    vc_assert(g_closed[0] == 1, "C06.closed_exactly_once_in_the_end");
}

template <class T> static void move_assign()
{
    int oa, ob;
    T *a = any_object<T>("fd_target", "target_closed", oa, false);
    T *b = any_object<T>("fd_source", "source_closed", ob, true);
    if (vc_bool("target_moved_from"))
    {
        T *c = new T(std::move(*a));
        delete c;
        oa = -1;
    }
    int fd = b->fd();
    bool was_closed = b->is_closed();
    attrs at;
    take(*b, at);
    view r = view_of(b->rbuffer()), w = view_of(b->wbuffer());
    *a = std::move(*b);
    vc_assert(g_closed[0] == 1, "C06.assignment_closes_what_the_target_owned");
    vc_assert(g_closed[1] == (was_closed ? 1 : 0), "C06.move_closes_nothing_of_the_source");
    vc_assert(a->is_closed() == was_closed, "C06.closed_state_follows");
    if (!was_closed)
        vc_assert(a->fd() == fd, "C06.descriptor_follows");
    vc_assert(b->is_closed(), "C06.source_owns_nothing");
    same_content(a->rbuffer(), r, "C06.read_buffer_follows");
    same_content(a->wbuffer(), w, "C06.write_buffer_follows");
    same(*a, at);
    if (vc_bool("source_close"))
        b->close();
    if (vc_bool("target_close"))
        a->close();
    finish(a, b);
}

template <class T> static void self_assign()
{
    int own;
    T *a = any_object<T>("fd", "closed", own, true);
    int fd = a->fd();
    bool was_closed = a->is_closed();
    attrs at;
    take(*a, at);
    view r = view_of(a->rbuffer()), w = view_of(a->wbuffer());
    T &alias = *a;
    *a = std::move(alias);
    vc_assert(a->fd() == fd && a->is_closed() == was_closed, "C06.self_assignment_changes_nothing");
    same_content(a->rbuffer(), r, "C06.self_assignment_changes_nothing");
    same_content(a->wbuffer(), w, "C06.self_assignment_changes_nothing");
    same(*a, at);
    delete a;
    vc_assert(g_closed[0] == 1, "C06.closed_exactly_once_in_the_end");
}

CONTRACT(c06_stream_close) { close_and_destroy<nstream>(); }
CONTRACT(c06_tcp_close) { close_and_destroy<nsocktcp>(); }
CONTRACT(c06_udp_close) { close_and_destroy<nsockudp>(); }
CONTRACT(c06_stream_move_construct) { move_construct<nstream>(); }
CONTRACT(c06_tcp_move_construct) { move_construct<nsocktcp>(); }
CONTRACT(c06_udp_move_construct) { move_construct<nsockudp>(); }
CONTRACT(c06_stream_move_assign) { move_assign<nstream>(); }
CONTRACT(c06_tcp_move_assign) { move_assign<nsocktcp>(); }
CONTRACT(c06_udp_move_assign) { move_assign<nsockudp>(); }
CONTRACT(c06_stream_self_assign) { self_assign<nstream>(); }
CONTRACT(c06_tcp_self_assign) { self_assign<nsocktcp>(); }
CONTRACT(c06_udp_self_assign) { self_assign<nsockudp>(); }

// ---------------------------------------------------------------- factories
static bool pipe_called;
extern "C" int __wrap_pipe(int fds[2])
{
    pipe_called = true;
    if (vc_bool("pipe_fails"))
    {
        errno = (int)vc_int("pipe_errno", 1, 133);
        return -1;
    }
    fds[0] = new_fd("pipe_read");
    fds[1] = new_fd("pipe_write");
    return 0;
}
static int opened_flags[2], n_opened;
extern "C" int __wrap_open(const char *path, int flags, int)
{
    vc_assert(path[0] == 'f' && path[1] == 0, "C06.fifo_path");
    if (vc_bool("open_fails"))
    {
        errno = (int)vc_int("open_errno", 1, 133);
        return -1;
    }
    vc_assume(n_opened < 2);
    opened_flags[n_opened++] = flags;
    return new_fd("fifo");
}
extern "C" int __wrap_mkfifo(const char *path, unsigned)
{
    vc_assert(path[0] == 'f' && path[1] == 0, "C06.fifo_path");
    if (vc_bool("mkfifo_fails"))
    {
        errno = (int)vc_int("mkfifo_errno", 1, 133);
        return -1;
    }
    return 0;
}

CONTRACT(c06_pipes)
{
    bool threw = false;
    try
    {
        std::vector<std::shared_ptr<nstream>> v = nio_factory::get_pipes();
        vc_assert(v.size() == 2, "C06.pipe_has_two_ends");
        vc_assert(g_nfd == 2 && v[0]->fd() == g_fd[0] && v[1]->fd() == g_fd[1], "C06.pipe_ends_in_order");
        vc_assert(g_closed[0] == 0 && g_closed[1] == 0, "C06.factory_returns_open_descriptors");
    }
    catch (const std::system_error &)
    {
        threw = true;
    }
    for (int i = 0; i < 2; ++i)
        if (i < g_nfd)
            vc_assert(g_closed[i] == 1, "C06.closed_exactly_once_in_the_end");
    vc_assert(threw == (g_nfd == 0), "C06.factory_failure_is_thrown");
}

CONTRACT(c06_fifos)
{
    bool threw = false;
    try
    {
        std::vector<std::shared_ptr<nstream>> v = nio_factory::get_fifos("f");
        vc_assert(v.size() == 2 && g_nfd == 2, "C06.fifo_has_two_ends");
        vc_assert((opened_flags[0] & O_ACCMODE) != (opened_flags[1] & O_ACCMODE), "C06.fifo_has_two_ends");
        int r = (opened_flags[0] & O_ACCMODE) == O_RDONLY ? 0 : 1;
        vc_assert(v[0]->fd() == g_fd[r] && v[1]->fd() == g_fd[1 - r], "C06.fifo_ends_in_order");
        vc_assert(g_closed[0] == 0 && g_closed[1] == 0, "C06.factory_returns_open_descriptors");
    }
    catch (const std::system_error &)
    {
        threw = true;
    }
    for (int i = 0; i < 2; ++i)
        if (i < g_nfd)
            vc_assert(g_closed[i] == 1, "C06.closed_exactly_once_in_the_end");
    (void)threw;
}
