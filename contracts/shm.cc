// C23: named semaphores.  C24: shared memory.
#include "vc.h"
#include "utils.cc"
#include "ipc.cc"
#include <new>
#include <system_error>
using namespace cppev;

template <class Fn> static int outcome(Fn &&f, int &code)
{
    // 0 returned, 1 system_error, 2 other
    try
    {
        f();
    }
    catch (const std::system_error &e)
    {
        code = e.code().value();
        return 1;
    }
    catch (const std::exception &)
    {
        return 2;
    }
    return 0;
}
static int pick(const char *name, int hi)
{
    long v = vc_int(name, 0, hi);
    if (v == 0) return 0;
    if (v == 1) return 1;
    if (v == 2) return 2;
    if (v == 3) return 3;
    if (v == 4) return 4;
    return 5;
}

// ---------------------------------------------------------------- naming, common to both kinds
static const char *g_name;          // the name under contract
static long g_len;
static unsigned g_mode;
static int g_err;                   // code of the last failed call
static bool g_any_fail, g_tried_create, g_dead_end;
static bool g_exclusive;            // an exclusive creation succeeded
static int g_opens;                 // handles open
static bool g_fixed;                // histories: opening always succeeds, any name

static void check_name(const char *n)
{
    vc_assert(n != nullptr, "name.given");
    vc_assert_eq_bytes(n, g_name, g_len + 1, "name.exactly_that_name");
}
// outcome of an open call: true if it succeeds
static bool open_result(int flags)
{
    if (g_fixed)
        return true;
    g_dead_end = false;
    if (flags & O_CREAT)
        g_tried_create = true;
    if (vc_bool("open_succeeds"))
    {
        if ((flags & O_CREAT) && (flags & O_EXCL))
            g_exclusive = true;
        return true;
    }
    g_any_fail = true;
    g_err = (int)vc_int("open_code", 1, 133);
    if (flags & O_CREAT)
        vc_assume(g_err != ENOENT);
    if (!((flags & O_CREAT) && (flags & O_EXCL)))
        vc_assume(g_err != EEXIST);
    // giving up here would mean a missing object is not created, or an object created meanwhile by another is not opened
    g_dead_end = (g_err == ENOENT && !g_tried_create) || g_err == EEXIST;
    errno = g_err;
    return false;
}

// ================================================================ C23
static sem_t g_sems[2];
static int g_made;                  // handles handed out
static bool g_open_h[2];
static int g_closes;
static long g_taken, g_posted;
static int g_used = -1;                // last handle acted on
static bool g_foreign;              // something else was acted on
static bool g_unlink_fails;
static int g_unlinks;

extern "C"
{
static void use(const sem_t *s)
{
    g_used = s == &g_sems[0] ? 0 : 1;
    if (s != &g_sems[0] && s != &g_sems[1])
        g_foreign = true;
}
sem_t *__wrap_sem_open(const char *name, int flags, mode_t mode, unsigned value)
{
    if (!g_fixed)
        check_name(name);
    if (flags & O_CREAT)
    {
        vc_assert(mode == g_mode, "C23.open.mode");
        vc_assert(value == 0, "C23.open.starts_at_zero");
    }
    if (!open_result(flags))
        return SEM_FAILED;
    vc_assert(g_made < 2, "C23.open.one_handle");
    int k = g_made++;
    g_open_h[k] = true;
    ++g_opens;
    return &g_sems[k];
}
int __wrap_sem_close(sem_t *s)
{
    vc_assert(s == &g_sems[0] || s == &g_sems[1], "C23.close.its_own_handle");
    int k = s == &g_sems[0] ? 0 : 1;
    vc_assert(g_open_h[k], "C23.close.exactly_once");
    g_open_h[k] = false;
    --g_opens;
    return 0;
}
int __wrap_sem_wait(sem_t *s)
{
    use(s);
    if (vc_bool("interrupted"))
    {
        errno = EINTR;
        return -1;
    }
    if (vc_bool("fails"))
    {
        g_any_fail = true;
        errno = g_err = (int)vc_int("code", 1, 133);
        vc_assume(g_err != EINTR);
        return -1;
    }
    ++g_taken;
    return 0;
}
int __wrap_sem_trywait(sem_t *s)
{
    use(s);
    if (vc_bool("fails"))
    {
        g_any_fail = true;
        errno = g_err = (int)vc_int("code", 1, 133);
        return -1;
    }
    ++g_taken;
    return 0;
}
int __wrap_sem_post(sem_t *s)
{
    use(s);
    if (vc_bool("fails"))
    {
        g_any_fail = true;
        errno = g_err = (int)vc_int("code", 1, 133);
        return -1;
    }
    ++g_posted;
    return 0;
}
int __wrap_sem_unlink(const char *name)
{
    check_name(name);
    ++g_unlinks;
    if (g_unlink_fails)
    {
        errno = g_err = (int)vc_int("code", 1, 133);
        return -1;
    }
    return 0;
}
}

static std::string any_name()
{
    g_len = vc_len("name_length", 1, 250);
    g_name = vc_cstr("name", g_len);
    g_mode = (unsigned)vc_int("mode", 0, 0777);
    return std::string(g_name, (size_t)g_len);
}
static std::string fixed_name(const char *n)
{
    g_name = n;
    g_len = (long)strlen(n);
    g_mode = 0600;
    g_fixed = true;
    return std::string(n);
}

CONTRACT(c23_open)
{
    std::string name = any_name();
    int code = 0;
    bool creator = false;
    int o = outcome([&] {
        cppev::semaphore s(name, g_mode);
        creator = s.creator();
        vc_assert(g_opens == 1, "C23.open.one_handle");
    }, code);
    vc_assert(g_opens == 0, "C23.open.handle_closed_once");
    if (o == 0)
    {
        vc_assert(g_made == 1, "C23.open.one_handle");
        vc_assert(creator == g_exclusive, "C23.open.creator_exactly_when_created_exclusively");
    }
    else
    {
        vc_assert(o == 1 && g_any_fail && g_made == 0, "C23.open.only_failures_throw");
        vc_assert(code == g_err, "C23.open.failure_code");
        vc_assert(!g_dead_end, "C23.open.missing_is_created_and_existing_is_opened");
    }
}
static void check_count(int o, int code, long done, long other, long n)
{
    vc_assert(!g_foreign && g_used < 1, "C23.count.its_own_handle");
    vc_assert(other == 0, "C23.count.only_the_asked_direction");
    if (o == 0)
        vc_assert(done == n, "C23.count.exactly_n");
    else
    {
        vc_assert(o == 1 && g_any_fail, "C23.count.only_failures_throw");
        vc_assert(code == g_err, "C23.count.failure_code");
        vc_assert(done <= n, "C23.count.never_more");
    }
}
CONTRACT(c23_acquire)
{
    cppev::semaphore s(fixed_name("/s"), 0600);
    int n = (int)vc_len("n", 0, INT_MAX), code = 0;
    int o = outcome([&] { s.acquire(n); }, code);
    check_count(o, code, g_taken, g_posted, n);
}
CONTRACT(c23_release)
{
    cppev::semaphore s(fixed_name("/s"), 0600);
    int n = (int)vc_len("n", 0, INT_MAX), code = 0;
    int o = outcome([&] { s.release(n); }, code);
    check_count(o, code, g_posted, g_taken, n);
    vc_assert(o == (g_any_fail ? 1 : 0), "C23.release.failure_thrown");
}
CONTRACT(c23_default_counts)
{
    cppev::semaphore s(fixed_name("/s"), 0600);
    int code = 0;
    int o = outcome([&] { s.acquire(); }, code);
    check_count(o, code, g_taken, g_posted, 1);
    g_taken = 0;
    g_any_fail = false;
    o = outcome([&] { s.release(); }, code);
    check_count(o, code, g_posted, g_taken, 1);
}
CONTRACT(c23_try_acquire)
{
    cppev::semaphore s(fixed_name("/s"), 0600);
    int code = 0;
    bool r = false;
    int o = outcome([&] { r = s.try_acquire(); }, code);
    vc_assert(!g_foreign && g_used == 0, "C23.count.its_own_handle");
    vc_assert(g_posted == 0, "C23.count.only_the_asked_direction");
    if (o == 0)
    {
        vc_assert(g_taken == (r ? 1 : 0), "C23.try_acquire.one_unit_exactly_when_true");
        if (!r)
            vc_assert(g_err == EAGAIN || g_err == EINTR, "C23.try_acquire.other_failures_are_thrown");
    }
    else
    {
        vc_assert(o == 1 && g_any_fail, "C23.try_acquire.only_failures_throw");
        vc_assert(g_taken == 0, "C23.try_acquire.nothing_taken_on_failure");
        vc_assert(g_err != EAGAIN && code == g_err, "C23.try_acquire.failure_code");
    }
}
CONTRACT(c23_unlink)
{
    std::string name = any_name();
    g_fixed = true;
    cppev::semaphore s(name, g_mode);
    g_unlink_fails = vc_bool("unlink_fails");
    int code = 0;
    int o = outcome([&] { s.unlink(); }, code);
    vc_assert(g_unlinks == 1, "C23.unlink.once");
    vc_assert(o == (g_unlink_fails ? 1 : 0), "C23.unlink.failure_thrown");
    if (o)
        vc_assert(code == g_err, "C23.unlink.failure_code");
}

// Two objects in every combination of ghost states (absent, owning, moved from); every operation; then what each object
// acts on, and that destroying both closes every handle exactly once.
alignas(cppev::semaphore) static unsigned char sroom[2][sizeof(cppev::semaphore)];
static int s_exists[2], s_handle[2];            // handle -1: moved from
static cppev::semaphore *sem_at(int i) { return (cppev::semaphore *)sroom[i]; }
static void sem_prepare(int i, const char *name)
{
    int s = pick("state", 2);
    s_exists[i] = s != 0;
    s_handle[i] = -1;
    if (s == 0)
        return;
    s_handle[i] = g_made;
    new (sroom[i]) cppev::semaphore(fixed_name(name), 0600);
    if (s == 2)
    {
        cppev::semaphore t(std::move(*sem_at(i)));
        s_handle[i] = -1;
    }
}
static void sem_check(int i)
{
    if (!s_exists[i] || s_handle[i] < 0)
        return;
    g_used = -1;
    g_taken = 0;
    int code = 0;
    outcome([&] { sem_at(i)->try_acquire(); }, code);
    vc_assert(!g_foreign && g_used == s_handle[i], "C23.move.transfers_the_handle");
    vc_assert(g_open_h[s_handle[i]], "C23.move.handle_stays_open");
}
static void sem_history()
{
    sem_prepare(0, "/a");
    sem_prepare(1, "/b");
    int i = pick("object", 1), j = 1 - i;
    int k = pick("operation", 3);
    if (k == 0)
    {
        vc_assume(!s_exists[i] && s_exists[j]);
        new (sroom[i]) cppev::semaphore(std::move(*sem_at(j)));
        s_exists[i] = 1;
        s_handle[i] = s_handle[j];
        s_handle[j] = -1;
    }
    else if (k == 1)
    {
        vc_assume(s_exists[i] && s_exists[j]);
        int was = s_handle[i];
        *sem_at(i) = std::move(*sem_at(j));
        s_handle[i] = s_handle[j];
        s_handle[j] = -1;
        if (was >= 0)
            vc_assert(!g_open_h[was], "C23.move_assign.closes_what_it_held");
    }
    else if (k == 2)
    {
        vc_assume(s_exists[i]);
        cppev::semaphore &self = *sem_at(i);
        *sem_at(i) = std::move(self);
    }
    else
    {
        vc_assume(s_exists[i]);
        sem_at(i)->~semaphore();
        if (s_handle[i] >= 0)
            vc_assert(!g_open_h[s_handle[i]], "C23.destroy.closes_the_handle");
        s_exists[i] = 0;
    }
    sem_check(0);
    sem_check(1);
    if (s_exists[0])
        sem_at(0)->~semaphore();
    if (s_exists[1])
        sem_at(1)->~semaphore();
    vc_assert(g_opens == 0, "C23.handles.every_one_closed");
}
CONTRACT(c23_ownership) { sem_history(); }
CONTRACT(c23_move_state)
{
    // name and creator flag follow the handle
    std::string name = any_name();
    int code = 0;
    g_unlink_fails = false;
    outcome([&] {
        cppev::semaphore s(name, g_mode);
        bool creator = s.creator();
        cppev::semaphore t(std::move(s));
        vc_assert(t.creator() == creator, "C23.move.transfers_creator");
        vc_assert(!s.creator(), "C23.move.source_owns_nothing");
        t.unlink();
        vc_assert(g_unlinks == 1, "C23.move.transfers_name");
        s.unlink();
        vc_assert(g_unlinks == 1, "C23.move.source_owns_nothing");
        s = std::move(t);
        vc_assert(s.creator() == creator && !t.creator(), "C23.move.transfers_creator");
        s.unlink();
        vc_assert(g_unlinks == 2, "C23.move.transfers_name");
    }, code);
}

// ================================================================ C24
struct map { char *p; char *before; long n; bool live; };
static map g_map[2];
static int g_maps, g_live_maps;
static bool g_fd_open[2];
static int g_fds, g_live_fds;
static int g_flags[2];
static bool g_sized;
static long g_size;
static bool g_map_fails, g_trunc_fails;

static int fd_index(int fd, const char *id)
{
    vc_assert((fd == 100 && g_fd_open[0]) || (fd == 101 && g_fd_open[1]), id);
    return fd - 100;
}
extern "C"
{
int __wrap_shm_open(const char *name, int flags, mode_t mode)
{
    if (!g_fixed)
        check_name(name);
    if (flags & O_CREAT)
        vc_assert(mode == g_mode, "C24.open.mode");
    vc_assert((flags & O_ACCMODE) == O_RDWR, "C24.open.read_write");
    vc_assert(!(flags & O_TRUNC), "C24.open.content_not_dropped");
    if (!open_result(flags))
        return -1;
    vc_assert(g_fds < 2, "C24.open.one_descriptor");
    int k = g_fds++;
    g_fd_open[k] = true;
    ++g_live_fds;
    return 100 + k;
}
int __wrap_close(int fd)
{
    int k = fd_index(fd, "C24.close.open_descriptor");
    g_fd_open[k] = false;
    --g_live_fds;
    if (vc_bool("close_clobbers"))
        errno = (int)vc_int("close_errno", 1, 133);
    return 0;
}
int __wrap_ftruncate(int fd, long n)
{
    fd_index(fd, "C24.size.open_descriptor");
    if (!g_fixed)
    {
        vc_assert(g_exclusive, "C24.size.only_the_creator_sizes");
        vc_assert(n == g_size, "C24.size.requested_size");
    }
    if (vc_bool("ftruncate_fails"))
    {
        g_any_fail = true;
        g_dead_end = false;
        errno = g_err = (int)vc_int("ftruncate_code", 1, 133);
        return -1;
    }
    g_sized = true;
    return 0;
}
void *__wrap_mmap(void *, size_t n, int prot, int flags, int fd, long off)
{
    fd_index(fd, "C24.map.open_descriptor");
    vc_assert((long)n == g_size, "C24.map.requested_size");
    vc_assert(prot == (PROT_READ | PROT_WRITE) && (flags & MAP_SHARED), "C24.map.shared_read_write");
    vc_assert(off == 0, "C24.map.from_the_start");
    if (vc_bool("mmap_fails"))
    {
        g_any_fail = true;
        g_dead_end = false;
        errno = g_err = (int)vc_int("mmap_code", 1, 133);
        return MAP_FAILED;
    }
    if (g_exclusive)
        vc_assert(g_sized, "C24.size.creator_sizes_before_mapping");
    vc_assert(g_maps < 2, "C24.map.once");
    map &m = g_map[g_maps++];
    m.n = (long)n;
    m.p = (char *)vc_alloc("content", (long)n);
    m.before = (char *)vc_snapshot(m.p, (long)n);
    m.live = true;
    ++g_live_maps;
    return m.p;
}
int __wrap_munmap(void *p, size_t n)
{
    vc_assert((g_maps > 0 && p == g_map[0].p) || (g_maps > 1 && p == g_map[1].p), "C24.unmap.its_own_mapping");
    map &m = g_map[p == g_map[0].p ? 0 : 1];
    vc_assert(m.live, "C24.unmap.exactly_once");
    vc_assert((long)n == m.n, "C24.unmap.whole_mapping");
    m.live = false;
    --g_live_maps;
    return 0;
}
int __wrap_shm_unlink(const char *name)
{
    check_name(name);
    ++g_unlinks;
    if (g_unlink_fails)
    {
        errno = g_err = (int)vc_int("code", 1, 133);
        return -1;
    }
    return 0;
}
}

CONTRACT(c24_open)
{
    std::string name = any_name();
    g_size = vc_len("size", 1, INT_MAX);
    int code = 0;
    bool creator = false;
    int o = outcome([&] {
        shared_memory s(name, (int)g_size, g_mode);
        creator = s.creator();
        vc_assert(g_maps == 1 && g_live_maps == 1, "C24.open.mapped_once");
        vc_assert(s.ptr() == g_map[0].p && s.size() == (int)g_size, "C24.open.reports_the_mapping");
        if (creator)
            vc_assert_all(s.ptr(), g_size, 0, "C24.open.creator_zeroes");
        else
            vc_assert_eq_bytes(s.ptr(), g_map[0].before, g_size, "C24.open.others_leave_the_content");
    }, code);
    vc_assert(g_live_fds == 0, "C24.open.no_descriptor_leaked");
    vc_assert(g_live_maps == 0, "C24.open.no_mapping_leaked");
    if (o == 0)
        vc_assert(creator == g_exclusive, "C24.open.creator_exactly_when_created_exclusively");
    else
    {
        vc_assert(o == 1 && g_any_fail, "C24.open.only_failures_throw");
        vc_assert(code == g_err, "C24.open.failure_code");
        vc_assert(!g_dead_end, "C24.open.missing_is_created_and_existing_is_opened");
    }
}
CONTRACT(c24_unlink)
{
    std::string name = any_name();
    g_fixed = true;
    g_size = 8;
    int code = 0;
    outcome([&] {
        shared_memory s(name, 8, g_mode);
        g_unlink_fails = vc_bool("unlink_fails");
        int c = 0, o = outcome([&] { s.unlink(); }, c);
        vc_assert(g_unlinks == 1, "C24.unlink.once");
        vc_assert(o == (g_unlink_fails ? 1 : 0), "C24.unlink.failure_thrown");
        if (o)
            vc_assert(c == g_err, "C24.unlink.failure_code");
    }, code);
}
CONTRACT(c24_move_state)
{
    std::string name = any_name();
    g_size = vc_len("size", 1, INT_MAX);
    int code = 0;
    g_unlink_fails = false;
    outcome([&] {
        shared_memory s(name, (int)g_size, g_mode);
        bool creator = s.creator();
        shared_memory t(std::move(s));
        vc_assert(t.creator() == creator && t.ptr() == g_map[0].p && t.size() == g_size, "C24.move.transfers_everything");
        vc_assert(!s.creator() && s.ptr() == nullptr && s.size() == 0, "C24.move.source_owns_nothing");
        t.unlink();
        vc_assert(g_unlinks == 1, "C24.move.transfers_name");
        s = std::move(t);
        vc_assert(s.creator() == creator && s.ptr() == g_map[0].p && s.size() == g_size, "C24.move.transfers_everything");
        vc_assert(!t.creator() && t.ptr() == nullptr && t.size() == 0, "C24.move.source_owns_nothing");
        s.unlink();
        vc_assert(g_unlinks == 2, "C24.move.transfers_name");
    }, code);
    vc_assert(g_live_fds == 0 && g_live_maps == 0, "C24.move.released_once");
}
struct thing { long a, b; thing(long x, long y) : a(x), b(y) {} };
CONTRACT(c24_construct)
{
    fixed_name("/m");
    g_size = vc_len("size", 16, INT_MAX);
    int code = 0;
    outcome([&] {
        shared_memory s("/m", (int)g_size, 0600);
        thing *t = s.construct<thing>(7L, 9L);
        vc_assert((void *)t == s.ptr(), "C24.construct.in_the_mapping");
        vc_assert(t->a == 7 && t->b == 9, "C24.construct.constructed");
    }, code);
}

alignas(shared_memory) static unsigned char mroom[2][sizeof(shared_memory)];
static int m_exists[2], m_map[2];
static shared_memory *shm_at(int i) { return (shared_memory *)mroom[i]; }
static void shm_prepare(int i)
{
    int s = pick("state", 2);
    m_exists[i] = s != 0;
    m_map[i] = -1;
    if (s == 0)
        return;
    m_map[i] = g_maps;
    new (mroom[i]) shared_memory(i == 0 ? "/a" : "/b", 16, 0600);
    if (s == 2)
    {
        shared_memory t(std::move(*shm_at(i)));
        m_map[i] = -1;
    }
}
static void shm_check(int i)
{
    if (!m_exists[i])
        return;
    if (m_map[i] < 0)
    {
        vc_assert(shm_at(i)->ptr() == nullptr && shm_at(i)->size() == 0, "C24.move.source_owns_nothing");
        return;
    }
    vc_assert(shm_at(i)->ptr() == g_map[m_map[i]].p && shm_at(i)->size() == 16, "C24.move.transfers_everything");
    vc_assert(g_map[m_map[i]].live, "C24.move.mapping_stays");
}
CONTRACT(c24_ownership)
{
    fixed_name("/m");
    g_size = 16;
    int code = 0;
    int o = outcome([&] {
        shm_prepare(0);
        shm_prepare(1);
    }, code);
    if (o != 0)
        vc_stop();
    int i = pick("object", 1), j = 1 - i;
    int k = pick("operation", 3);
    if (k == 0)
    {
        vc_assume(!m_exists[i] && m_exists[j]);
        new (mroom[i]) shared_memory(std::move(*shm_at(j)));
        m_exists[i] = 1;
        m_map[i] = m_map[j];
        m_map[j] = -1;
    }
    else if (k == 1)
    {
        vc_assume(m_exists[i] && m_exists[j]);
        int was = m_map[i];
        *shm_at(i) = std::move(*shm_at(j));
        m_map[i] = m_map[j];
        m_map[j] = -1;
        if (was >= 0)
            vc_assert(!g_map[was].live, "C24.move_assign.releases_what_it_held");
    }
    else if (k == 2)
    {
        vc_assume(m_exists[i]);
        shared_memory &self = *shm_at(i);
        *shm_at(i) = std::move(self);
    }
    else
    {
        vc_assume(m_exists[i]);
        shm_at(i)->~shared_memory();
        if (m_map[i] >= 0)
            vc_assert(!g_map[m_map[i]].live, "C24.destroy.releases_the_mapping");
        m_exists[i] = 0;
    }
    shm_check(0);
    shm_check(1);
    if (m_exists[0])
        shm_at(0)->~shared_memory();
    if (m_exists[1])
        shm_at(1)->~shared_memory();
    vc_assert(g_live_maps == 0 && g_live_fds == 0, "C24.mappings.every_one_released");
}
