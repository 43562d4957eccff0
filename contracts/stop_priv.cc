// C31, on the private representation: the flag that ends a loop is read by the loop's thread and written by others, so it
// is only ever touched atomically or under the loop's lock.
#include "vc.h"
#include "utils.cc"
#include "sysconfig.cc"
#include "nio.cc"
#include "event_loop_epoll.cc"
using namespace cppev;

static event_loop *g_loop;
static int g_passes, g_pipes;
static void protect(bool accessible)
{
    if (g_loop)
        vc_protect(&g_loop->stop_, sizeof(g_loop->stop_), accessible, "the stop flag");
}
extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t *)
{
    protect(true);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *)
{
    protect(false);
    return 0;
}
int __wrap_fcntl(int, int, long) { return 0; }
int __wrap_close(int) { return 0; }
int __wrap_pipe(int *p)
{
    p[0] = 10 + g_pipes++;
    p[1] = 10 + g_pipes++;
    return 0;
}
int __wrap_epoll_create(int) { return 50; }
int __wrap_epoll_create1(int) { return 50; }
int __wrap_epoll_ctl(int, int, int, epoll_event *) { return 0; }
int __wrap_epoll_wait(int, epoll_event *, int, int)
{
    if (++g_passes == 2)
        g_loop->stop_loop_forever();
    return 0;
}
}
CONTRACT(c31_flag_guarded)
{
    event_loop *loop = new event_loop();
    g_loop = loop;
    protect(false);
    loop->loop_forever(-1);
    vc_assert(g_passes == 2, "C31.guarded.stopped");
    protect(true);
    g_loop = nullptr;
    delete loop;
}
