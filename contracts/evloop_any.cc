// C10 for any number of reports: one pass over any number of descriptors reported ready, each with up to two handlers
// for any events.  The table of handlers and the queue of a pass are seen through what they promise (equal_range finds
// the handlers of a descriptor; what is pushed comes out once, the highest priority first).
#include "vc.h"
#include "utils.cc"
#include "sysconfig.cc"
#include "nio.cc"
#include "event_loop_epoll.cc"
#include <system_error>
using namespace cppev;

static const int EPFD = 5, FIRST = 10;             // the descriptors reported are FIRST, FIRST + 1, ...
static epoll_event *g_evs;
static long g_n;                                   // reports of the pass
static int g_waits;
static long g_looked_up, g_expected, g_queued, g_popped, g_ran;
static int g_handlers, g_due0, g_due1;             // of the descriptor looked up last: handlers, still to be queued
static bool g_ready_r, g_ready_w;
static long g_seed;
static long *g_calls;                              // natively: calls per handler
static int *g_want, *g_rdy, *g_prio;
static long g_last_prio;

static unsigned rnd(long i)
{
    unsigned long x = (unsigned long)g_seed * 0x9E3779B97F4A7C15UL + (unsigned long)i * 0xD1B54A32D192ED03UL;
    x ^= x >> 29;
    x *= 0xBF58476D1CE4E5B9UL;
    return (unsigned)(x >> 40);
}
extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t *) { return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *) { return 0; }
int __wrap_fcntl(int, int, long) { return 0; }
int __wrap_close(int) { return 0; }
int __wrap_epoll_create(int) { return EPFD; }
int __wrap_epoll_create1(int) { return EPFD; }
int __wrap_epoll_ctl(int, int, int, epoll_event *) { return 0; }
int __wrap_epoll_wait(int, epoll_event *evs, int max, int)
{
    ++g_waits;
    g_evs = evs;
    vc_assume(g_n <= max);
    // (the verifier takes what is in the buffer for arbitrary; see look_up)
    if (!vc_symbolic())
        for (long i = 0; i < g_n; ++i)
        {
            evs[i].events = (g_rdy[i] & 1 ? (unsigned)EPOLLIN : 0) | (g_rdy[i] & 2 ? (unsigned)EPOLLOUT : 0);
            evs[i].data.u64 = 0;
            evs[i].data.fd = FIRST + (int)i;
        }
    return (int)g_n;
}
}

typedef std::tuple<int, std::shared_ptr<nio>, std::shared_ptr<fd_event_handler>, fd_event> entry;
typedef std::unordered_multimap<int, entry> table;
typedef std::tuple<int, std::shared_ptr<nio>, std::shared_ptr<fd_event_handler>> queued;
typedef std::priority_queue<queued> queue;
typedef std::__detail::_Hash_node<std::pair<const int, entry>, false> node;
static node *g_node[2];
static queued *g_top;
static nio *g_obj[3];
static fd_event_handler *g_handler[3];

std::pair<table::iterator, table::iterator> look_up(table *, const int &fd)
    asm("vc_stub._ZNSt18unordered_multimapIiSt5tupleIJiSt10shared_ptrIN5cppev3nioEES1_ISt8functionIFvRKS4_EEENS2_8fd_eventEEESt4hashIiESt8equal_toIiESaISt4pairIKiSC_EEE11equal_rangeERSI_");
static int due(int wants)
{
    if (g_ready_r && (wants == 1 || wants == 3))
        return 1;
    return g_ready_w && (wants == 2 || wants == 3) ? 1 : 0;
}
static int wanted(int h)
{
    long w = vc_int("wanted", 0, 3);
    int r = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? 2 : 3;
    std::get<0>(g_node[h]->_M_v().second) = (int)vc_int("priority", 14, 20);
    std::get<3>(g_node[h]->_M_v().second) = (fd_event)r;
    return r;
}
std::pair<table::iterator, table::iterator> look_up(table *, const int &fd)
{
    vc_assert(g_queued == g_expected, "C10.once.queued_if_and_only_if_ready_for_it");
    long i = g_looked_up++;
    vc_assert(i < g_n, "C10.once.only_what_was_reported");
    vc_assume(g_evs[i].data.fd == FIRST + i);
    vc_assert(fd == FIRST + i, "C10.once.every_report");
    g_ready_r = vc_bool("readable");
    g_ready_w = vc_bool("writable");
    vc_assume(g_ready_r || g_ready_w);
    vc_assume(g_evs[i].events == (g_ready_r ? (unsigned)EPOLLIN : 0u) + (g_ready_w ? (unsigned)EPOLLOUT : 0u));
    long k = vc_int("handlers", 0, 2);
    g_handlers = k == 0 ? 0 : k == 1 ? 1 : 2;
    g_due0 = g_handlers > 0 ? due(wanted(0)) : 0;
    g_due1 = g_handlers > 1 ? due(wanted(1)) : 0;
    vc_assume(g_expected < 1L << 40);              // the ghost count does not overflow
    g_expected += g_due0 + g_due1;
    g_node[0]->_M_nxt = g_handlers == 2 ? g_node[1] : nullptr;
    return {table::iterator(g_handlers ? g_node[0] : nullptr), table::iterator(nullptr)};
}
void push(queue *, int &prio, std::shared_ptr<nio> &obj, std::shared_ptr<fd_event_handler> &handler)
    asm("vc_stub._ZNSt14priority_queueISt5tupleIJiSt10shared_ptrIN5cppev3nioEES1_ISt8functionIFvRKS4_EEEEESt6vectorISB_SaISB_EESt4lessISB_EE7emplaceIJRiRS4_RSA_EEEvDpOT_");
void push(queue *, int &prio, std::shared_ptr<nio> &obj, std::shared_ptr<fd_event_handler> &handler)
{
    int h = handler.get() == g_handler[0] ? 0 : 1;
    vc_assert(h < g_handlers && handler.get() == g_handler[h], "C10.once.queued_if_and_only_if_ready_for_it");
    vc_assert(obj.get() == g_obj[h], "C10.once.the_right_object");
    vc_assert(prio == std::get<0>(g_node[h]->_M_v().second), "C10.order.registered_priority");
    vc_assert((h == 0 ? g_due0 : g_due1) == 1, "C10.once.queued_if_and_only_if_ready_for_it");
    if (h == 0)
        g_due0 = 0;
    else
        g_due1 = 0;
    ++g_queued;
}
unsigned long pending(const queue *)
    asm("vc_stub._ZNKSt14priority_queueISt5tupleIJiSt10shared_ptrIN5cppev3nioEES1_ISt8functionIFvRKS4_EEEEESt6vectorISB_SaISB_EESt4lessISB_EE4sizeEv");
unsigned long pending(const queue *) { return (unsigned long)(g_queued - g_popped); }
bool nothing(const queue *)
    asm("vc_stub._ZNKSt14priority_queueISt5tupleIJiSt10shared_ptrIN5cppev3nioEES1_ISt8functionIFvRKS4_EEEEESt6vectorISB_SaISB_EESt4lessISB_EE5emptyEv");
bool nothing(const queue *) { return g_queued == g_popped; }
const queued &highest(const queue *)
    asm("vc_stub._ZNKSt14priority_queueISt5tupleIJiSt10shared_ptrIN5cppev3nioEES1_ISt8functionIFvRKS4_EEEEESt6vectorISB_SaISB_EESt4lessISB_EE3topEv");
const queued &highest(const queue *)
{
    vc_assert(g_popped < g_queued, "C10.once.something_is_queued");
    return *g_top;
}
void pop(queue *)
    asm("vc_stub._ZNSt14priority_queueISt5tupleIJiSt10shared_ptrIN5cppev3nioEES1_ISt8functionIFvRKS4_EEEEESt6vectorISB_SaISB_EESt4lessISB_EE3popEv");
void pop(queue *)
{
    vc_assert(g_popped < g_queued, "C10.once.something_is_queued");
    vc_assert(g_ran == g_popped || g_ran == g_popped + 1, "C10.once.each_one_runs");
    ++g_popped;
}
static void ran(const std::shared_ptr<nio> &p)
{
    vc_assert(p.get() == g_obj[2], "C10.once.the_right_object");
    vc_assert(g_ran == g_popped || g_ran + 1 == g_popped, "C10.once.each_one_runs");
    ++g_ran;
}
CONTRACT(c10_pass_any)
{
    g_n = vc_int("count", 0, 4000);
    sysconfig::event_number = 4000;
    g_seed = vc_int("seed", 0, 1000000);
    event_loop *loop = new event_loop;
    if (vc_symbolic())
    {
        for (int i = 0; i < 3; ++i)
        {
            g_obj[i] = (nio *)operator new(sizeof(nstream));
            g_handler[i] = new fd_event_handler(ran);
        }
        for (int i = 0; i < 2; ++i)
        {
            g_node[i] = (node *)operator new(sizeof(node));
            g_node[i]->_M_nxt = nullptr;
            new (g_node[i]->_M_valptr()) std::pair<const int, entry>(0, entry(0, std::shared_ptr<nio>(std::shared_ptr<nio>(), g_obj[i]),
                std::shared_ptr<fd_event_handler>(std::shared_ptr<fd_event_handler>(), g_handler[i]), fd_event::fd_readable));
        }
        g_top = new queued(0, std::shared_ptr<nio>(std::shared_ptr<nio>(), g_obj[2]),
            std::shared_ptr<fd_event_handler>(std::shared_ptr<fd_event_handler>(), g_handler[2]));
        loop->loop_once(-1);
        vc_assert(g_waits == 1, "C10.wait.once_with_the_given_timeout");
        vc_assert(g_looked_up == g_n, "C10.once.every_report");
        vc_assert(g_queued == g_expected - 0, "C10.once.queued_if_and_only_if_ready_for_it");
        vc_assert(g_ran == g_queued && g_popped == g_queued, "C10.once.each_one_runs");
        return;
    }
    // natively: as many descriptors as were reported and some more, on the real table and queue
    long all = g_n + 3;
    g_calls = new long[2 * all]();
    g_want = new int[2 * all];
    g_rdy = new int[all];
    g_prio = new int[2 * all];
    std::vector<std::shared_ptr<nio>> objs;
    g_last_prio = 1000;
    for (long i = 0; i < all; ++i)
    {
        objs.push_back(std::make_shared<nstream>(FIRST + (int)i));
        nio *obj = objs.back().get();
        g_rdy[i] = i < g_n ? 1 + (int)(rnd(3 * i) % 3) : 0;
        for (int h = 0; h < 2; ++h)
        {
            g_want[2 * i + h] = (int)(rnd(3 * i + 1 + h) % 4);
            g_prio[2 * i + h] = 14 + (int)(rnd(7 * i + h) % 7);
            if (g_want[2 * i + h])
                loop->fd_register(objs.back(), (fd_event)g_want[2 * i + h], [i, h, obj](const std::shared_ptr<nio> &p) {
                    vc_assert(p.get() == obj, "C10.once.the_right_object");
                    ++g_calls[2 * i + h];
                    vc_assert(g_prio[2 * i + h] <= g_last_prio, "C10.order.higher_priority_first");
                    g_last_prio = g_prio[2 * i + h];
                }, h == 0, (priority)g_prio[2 * i + h]);
        }
    }
    loop->loop_once(-1);
    vc_assert(g_waits == 1, "C10.wait.once_with_the_given_timeout");
    for (long k = 0; k < 2 * all; ++k)
        vc_assert(g_calls[k] == ((g_want[k] & g_rdy[k / 2]) ? 1 : 0), "C10.once.queued_if_and_only_if_ready_for_it");
    // nothing is left for the next pass
    g_n = 0;
    g_last_prio = 1000;
    loop->loop_once(-1);
    for (long k = 0; k < 2 * all; ++k)
        vc_assert(g_calls[k] == ((g_want[k] & g_rdy[k / 2]) ? 1 : 0), "C10.once.nothing_repeated");
}
