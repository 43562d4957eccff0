// C11: the table of registrations is shared with other threads and only touched under the loop's lock.
#include "vc.h"
#include "utils.cc"
#include "sysconfig.cc"
#include "nio.cc"
#include "event_loop_epoll.cc"
using namespace cppev;

static bool g_held;
static event_loop *g_loop;
static int g_n;

extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t *)
{
    g_held = true;
    if (g_loop)
        vc_protect(&g_loop->fds_, sizeof(g_loop->fds_), true, "registrations");
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *)
{
    g_held = false;
    if (g_loop)
        vc_protect(&g_loop->fds_, sizeof(g_loop->fds_), false, "registrations");
    return 0;
}
int __wrap_fcntl(int, int, long) { return 0; }
int __wrap_close(int) { return 0; }
int __wrap_epoll_create(int) { return 50; }
int __wrap_epoll_create1(int) { return 50; }
int __wrap_epoll_ctl(int, int, int, epoll_event *) { return 0; }
int __wrap_epoll_wait(int, epoll_event *evs, int, int)
{
    for (int i = 0; i < g_n; ++i)
    {
        evs[i].events = EPOLLIN;
        evs[i].data.u64 = 0;
        evs[i].data.fd = 10;
    }
    return g_n;
}
}
CONTRACT(c11_table_guarded)
{
    event_loop *loop = new event_loop();
    g_loop = loop;
    vc_protect(&loop->fds_, sizeof(loop->fds_), false, "registrations");
    std::shared_ptr<nio> obj = std::make_shared<nstream>(10);
    int calls = 0;
    loop->fd_register(obj, fd_event::fd_readable, [&calls](const std::shared_ptr<nio> &) { ++calls; }, vc_bool("activate"), p0);
    vc_assert(loop->ev_loads() == 1, "C11.guarded.loads");
    g_n = 1;
    loop->loop_once(-1);
    vc_assert(calls == 1, "C11.guarded.called");
    loop->fd_remove(obj, vc_bool("clean"), vc_bool("deactivate"));
    vc_protect(&loop->fds_, sizeof(loop->fds_), true, "registrations");
    g_loop = nullptr;
    delete loop;
}
