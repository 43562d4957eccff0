// C20: locks translate to the right primitive operation and report its outcome.  C21: read-write guards.
#include "vc.h"
#include "utils.cc"
#include "lock.cc"
#include <new>
#include <system_error>
using namespace cppev;

// ---------------------------------------------------------------- model of the pthread primitives
// every primitive operation is recorded (kind, object) and may fail with any code
enum op
{
    none, spin_init, spin_destroy, spin_lock, spin_unlock, spin_try, mutex_init, mutex_destroy, mutex_lock, mutex_unlock,
    mutex_try, cond_init, cond_destroy, cond_wait, cond_one, cond_all, rw_init, rw_destroy, rw_rd, rw_wr, rw_tryrd,
    rw_trywr, rw_unlock
};
static int g_ops;                  // number of operations on primitives (attribute objects not counted)
static int g_kind;                 // the last one
static const void *g_obj, *g_obj2;
static int g_ret;                  // what it returned
static bool g_may_fail, g_any_fail;
static int g_codes[8];             // failure codes in order (natively the same trace)
static int g_shared;               // process-shared setting the primitive was initialised with (-1: default)
static int g_type;
static bool g_defer;               // guards: count acquisitions instead (C21)

static const void *a_obj;          // live attribute object
static int a_inits, a_destroys, a_shared, a_type;
static bool a_bad;

static int result(const char *what)
{
    if (!g_may_fail || !vc_bool(what))
        return 0;
    g_any_fail = true;
    return (int)vc_int("code", 1, 133);
}
static int g_live;                 // primitives initialised and not destroyed
static int act(int kind, const void *obj, int ret)
{
    if (kind == spin_init || kind == mutex_init || kind == cond_init || kind == rw_init)
        g_live += ret == 0;
    if (kind == spin_destroy || kind == mutex_destroy || kind == cond_destroy || kind == rw_destroy)
        --g_live;
    ++g_ops;
    g_kind = kind;
    g_obj = obj;
    return g_ret = ret;
}
static int attr_init(const void *a)
{
    int r = result("attr_init_fails");
    if (r == 0)
    {
        ++a_inits;
        a_obj = a;
        a_shared = PTHREAD_PROCESS_PRIVATE;
        a_type = PTHREAD_MUTEX_DEFAULT;
    }
    return g_ret = r;
}
static int attr_destroy(const void *a)
{
    vc_assert(a == a_obj, "C20.attribute.destroyed_while_live");
    int r = result("attr_destroy_fails");
    ++a_destroys;
    a_obj = nullptr;
    return r;
}
static int attr_set(const void *a, int &field, int v)
{
    vc_assert(a == a_obj, "C20.attribute.used_while_live");
    int r = result("attr_set_fails");
    if (r == 0)
        field = v;
    return r;
}
static int prim_init(int kind, const void *obj, const void *a)
{
    vc_assert(a == nullptr || a == a_obj, "C20.attribute.used_while_live");
    g_shared = a ? a_shared : PTHREAD_PROCESS_PRIVATE;
    g_type = a ? a_type : PTHREAD_MUTEX_DEFAULT;
    return act(kind, obj, result("init_fails"));
}

static int g_ignore;
static int g_code;                 // first failure in construction
extern "C"
{
int __wrap_pthread_spin_init(pthread_spinlock_t *l, int) { return act(spin_init, (const void *)l, result("init_fails")); }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *l) { return act(spin_destroy, (const void *)l, 0); }
int __wrap_pthread_spin_lock(pthread_spinlock_t *l) { return act(spin_lock, (const void *)l, result("fails")); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *l) { return act(spin_unlock, (const void *)l, result("fails")); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *l) { return act(spin_try, (const void *)l, result("fails")); }

int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *a) { return attr_init(a); }
int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return attr_destroy(a); }
int __wrap_pthread_mutexattr_settype(pthread_mutexattr_t *a, int v) { return attr_set(a, a_type, v); }
int __wrap_pthread_mutexattr_setprotocol(pthread_mutexattr_t *a, int v) { return attr_set(a, g_ignore, v); }
int __wrap_pthread_mutexattr_setpshared(pthread_mutexattr_t *a, int v) { return attr_set(a, a_shared, v); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return prim_init(mutex_init, m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return act(mutex_destroy, m, 0); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return act(mutex_lock, m, result("fails")); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return act(mutex_unlock, m, result("fails")); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return act(mutex_try, m, result("fails")); }

int __wrap_pthread_condattr_init(pthread_condattr_t *a) { return attr_init(a); }
int __wrap_pthread_condattr_destroy(pthread_condattr_t *a) { return attr_destroy(a); }
int __wrap_pthread_condattr_setpshared(pthread_condattr_t *a, int v) { return attr_set(a, a_shared, v); }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return prim_init(cond_init, c, a); }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { return act(cond_destroy, c, 0); }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    g_obj2 = m;
    return act(cond_wait, c, result("fails"));
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return act(cond_one, c, result("fails")); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return act(cond_all, c, result("fails")); }

int __wrap_pthread_rwlockattr_init(pthread_rwlockattr_t *a) { return attr_init(a); }
int __wrap_pthread_rwlockattr_destroy(pthread_rwlockattr_t *a) { return attr_destroy(a); }
int __wrap_pthread_rwlockattr_setpshared(pthread_rwlockattr_t *a, int v) { return attr_set(a, a_shared, v); }
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *a) { return prim_init(rw_init, m, a); }
}

// read-write locks: two of them, with the acquisitions this history holds (C21)
static pshared_rwlock *g_rw[2];
static int g_rd[2], g_wr[2];
static int which(const void *m)
{
    return m == (const void *)&g_rw[0]->lock_ ? 0 : 1;
}
static int rw_op(int kind, const void *m)
{
    if (!g_defer)
        return act(kind, m, result("fails"));
    vc_assert(m == (const void *)&g_rw[0]->lock_ || m == (const void *)&g_rw[1]->lock_, "C21.guard.operates_on_its_lock");
    int i = which(m), r = 0;
    if (kind == rw_unlock)
    {
        vc_assert(g_rd[i] + g_wr[i] > 0, "C21.guard.releases_only_what_is_held");
        if (g_wr[i])
            --g_wr[i];
        else
            --g_rd[i];
    }
    else
    {
        r = result("acquire_fails");
        if (r == 0)
            ++(kind == rw_rd || kind == rw_tryrd ? g_rd : g_wr)[i];
    }
    return g_ret = r;
}
extern "C"
{
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m) { return act(rw_destroy, m, 0); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return rw_op(rw_rd, m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return rw_op(rw_wr, m); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return rw_op(rw_tryrd, m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return rw_op(rw_trywr, m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return rw_op(rw_unlock, m); }
}

template <class Fn> static int outcome(Fn &&f, int &code)
{
    // 0 returned, 1 system_error, 2 other
    try
    {
        f();
    }
    catch (const std::system_error &e)
    {
        code = e.code().value();
        return 1;
    }
    catch (const std::exception &)
    {
        return 2;
    }
    return 0;
}

// ================================================================ C20
template <class P> static void check_life(int init, int destroy, const void *(*prim)(P *), bool shared)
{
    alignas(P) static unsigned char room[sizeof(P)];
    g_may_fail = true;
    P *p = nullptr;
    int code = 0;
    int o = outcome([&] { p = new (room) P(); }, code);
    vc_assert(a_inits == a_destroys, "C20.construct.attribute_released_once");
    if (o != 0)
    {
        vc_assert(g_live == 0, "C20.construct.nothing_kept_on_failure");
        vc_assert(o == 1 && g_any_fail, "C20.construct.only_failures_throw");
        vc_assert(code > 0, "C20.construct.failure_code");
        return;
    }
    vc_assert(!g_any_fail || a_inits == 1, "C20.construct.failures_are_thrown");
    vc_assert(g_ops == 1 && g_kind == init && g_ret == 0, "C20.construct.initialised_once");
    vc_assert(g_obj == prim(p), "C20.construct.its_own_primitive");
    if (shared)
        vc_assert(g_shared == PTHREAD_PROCESS_SHARED, "C20.construct.process_shared");
    if (init == mutex_init)
        vc_assert(g_type != PTHREAD_MUTEX_RECURSIVE, "C20.construct.excludes_its_owner_too");
    g_ops = 0;
    p->~P();
    vc_assert(g_ops == 1 && g_kind == destroy && g_obj == prim(p), "C20.destroy.released_once");
}
static const void *prim_spin(spinlock *p) { return (const void *)&p->lock_; }
static const void *prim_mutex(pshared_lock *p) { return &p->lock_; }
static const void *prim_cond(pshared_cond *p) { return &p->cond_; }
static const void *prim_rw(pshared_rwlock *p) { return &p->lock_; }

CONTRACT(c20_spin_life) { check_life<spinlock>(spin_init, spin_destroy, prim_spin, false); }
CONTRACT(c20_mutex_life) { check_life<pshared_lock>(mutex_init, mutex_destroy, prim_mutex, true); }
CONTRACT(c20_cond_life) { check_life<pshared_cond>(cond_init, cond_destroy, prim_cond, true); }
CONTRACT(c20_rwlock_life) { check_life<pshared_rwlock>(rw_init, rw_destroy, prim_rw, true); }

static void begin()
{
    g_ops = 0;
    g_any_fail = false;
    g_may_fail = true;
}
static void check_op(int o, int code, int kind, const void *obj)
{
    vc_assert(g_ops == 1 && g_kind == kind, "C20.operation.the_right_one_once");
    vc_assert(g_obj == obj, "C20.operation.on_its_own_primitive");
    vc_assert(o == (g_ret ? 1 : 0), "C20.operation.failure_thrown");
    if (g_ret)
        vc_assert(code == g_ret, "C20.operation.failure_code");
    g_may_fail = false;
}
static void check_try(int o, int code, bool r, int kind, const void *obj, bool again)
{
    vc_assert(g_ops == 1 && g_kind == kind, "C20.try.the_right_one_once");
    vc_assert(g_obj == obj, "C20.try.on_its_own_primitive");
    g_may_fail = false;
    if (g_ret == 0)
        vc_assert(o == 0 && r, "C20.try.true_when_obtained");
    else if (g_ret == EBUSY)
        vc_assert(o == 0 && !r, "C20.try.false_when_busy");
    else if (again && g_ret == EAGAIN)
        vc_assert(o == 1 || !r, "C20.try.not_obtained");
    else
    {
        vc_assert(o == 1, "C20.try.failure_thrown");
        vc_assert(code == g_ret, "C20.try.failure_code");
    }
}

CONTRACT(c20_spin_lock)
{
    spinlock l;
    begin();
    int code = 0, o = outcome([&] { l.lock(); }, code);
    check_op(o, code, spin_lock, prim_spin(&l));
}
CONTRACT(c20_spin_unlock)
{
    spinlock l;
    begin();
    int code = 0, o = outcome([&] { l.unlock(); }, code);
    check_op(o, code, spin_unlock, prim_spin(&l));
}
CONTRACT(c20_spin_trylock)
{
    spinlock l;
    begin();
    bool r = false;
    int code = 0, o = outcome([&] { r = l.trylock(); }, code);
    check_try(o, code, r, spin_try, prim_spin(&l), false);
}
CONTRACT(c20_mutex_lock)
{
    pshared_lock l;
    begin();
    int code = 0, o = outcome([&] { l.lock(); }, code);
    check_op(o, code, mutex_lock, prim_mutex(&l));
}
CONTRACT(c20_mutex_unlock)
{
    pshared_lock l;
    begin();
    int code = 0, o = outcome([&] { l.unlock(); }, code);
    check_op(o, code, mutex_unlock, prim_mutex(&l));
}
CONTRACT(c20_mutex_trylock)
{
    pshared_lock l;
    begin();
    bool r = false;
    int code = 0, o = outcome([&] { r = l.try_lock(); }, code);
    check_try(o, code, r, mutex_try, prim_mutex(&l), false);
}
CONTRACT(c20_cond_wait)
{
    pshared_lock l, l2;
    pshared_cond c, c2;
    std::unique_lock<pshared_lock> lk(l);
    begin();
    int code = 0, o = outcome([&] { c.wait(lk); }, code);
    check_op(o, code, cond_wait, prim_cond(&c));
    vc_assert(g_obj2 == prim_mutex(&l), "C20.cond_wait.releases_the_given_lock");
    vc_assert(lk.owns_lock(), "C20.cond_wait.lock_still_owned");
}
CONTRACT(c20_cond_notify_one)
{
    pshared_cond c;
    begin();
    int code = 0, o = outcome([&] { c.notify_one(); }, code);
    check_op(o, code, cond_one, prim_cond(&c));
}
CONTRACT(c20_cond_notify_all)
{
    pshared_cond c;
    begin();
    int code = 0, o = outcome([&] { c.notify_all(); }, code);
    check_op(o, code, cond_all, prim_cond(&c));
}
CONTRACT(c20_rdlock)
{
    pshared_rwlock l;
    begin();
    int code = 0, o = outcome([&] { l.rdlock(); }, code);
    check_op(o, code, rw_rd, prim_rw(&l));
}
CONTRACT(c20_wrlock)
{
    pshared_rwlock l;
    begin();
    int code = 0, o = outcome([&] { l.wrlock(); }, code);
    check_op(o, code, rw_wr, prim_rw(&l));
}
CONTRACT(c20_rw_unlock)
{
    pshared_rwlock l;
    begin();
    int code = 0, o = outcome([&] { l.unlock(); }, code);
    check_op(o, code, rw_unlock, prim_rw(&l));
}
CONTRACT(c20_try_rdlock)
{
    pshared_rwlock l;
    begin();
    bool r = false;
    int code = 0, o = outcome([&] { r = l.try_rdlock(); }, code);
    check_try(o, code, r, rw_tryrd, prim_rw(&l), true);
}
CONTRACT(c20_try_wrlock)
{
    pshared_rwlock l;
    begin();
    bool r = false;
    int code = 0, o = outcome([&] { r = l.try_wrlock(); }, code);
    check_try(o, code, r, rw_trywr, prim_rw(&l), false);
}

// ================================================================ C21
// Two guards, two locks.  Ghost state of a guard: nonexistent, or bound to a lock and holding it or not, or moved from.
// Every operation from every combination of ghost states; afterwards the acquisitions held are exactly the ghost ones, and
// after destroying the guards none is left.  The ghost states are closed under the operations, so by induction the same
// holds after any sequence.
static int pick(const char *name, int lo, int hi)
{
    long v = vc_int(name, lo, hi);
    if (v == 0) return 0;
    if (v == 1) return 1;
    if (v == 2) return 2;
    if (v == 3) return 3;
    if (v == 4) return 4;
    return 5;
}
struct ghost { int exists, lock, holds; };     // lock -1: none (moved from)

template <class G> struct history
{
    alignas(G) unsigned char room[2][sizeof(G)];
    ghost g[2];
    bool write;
    G *at(int i) { return (G *)room[i]; }
    bool free_for(int l) { return !write || g_wr[l] == 0; }

    void check(const char *id)
    {
        int n[2] = {0, 0};
        for (int i = 0; i < 2; ++i)
            if (g[i].exists && g[i].holds)
                ++n[g[i].lock];
        int *held = write ? g_wr : g_rd, *other = write ? g_rd : g_wr;
        vc_assert(held[0] == n[0] && held[1] == n[1], id);
        vc_assert(other[0] == 0 && other[1] == 0, "C21.guard.mode");
    }
    void construct(int i, int l)
    {
        new (room[i]) G(*g_rw[l]);
        g[i] = {1, l, 1};
        check("C21.construct.acquires_once");
    }
    void move_construct(int i, int j)
    {
        new (room[i]) G(std::move(*at(j)));
        g[i] = g[j];
        g[j] = {1, -1, 0};
        check("C21.move_construct.transfers");
    }
    void move_assign(int i, int j)
    {
        *at(i) = std::move(*at(j));
        if (i != j)
        {
            g[i] = g[j];
            g[j] = {1, -1, 0};
        }
        check(i == j ? "C21.move_assign.self_assignment_changes_nothing" : "C21.move_assign.releases_then_transfers");
    }
    void destroy(int i)
    {
        at(i)->~G();
        g[i] = {0, -1, 0};
        check("C21.destroy.releases_once");
    }
    void unlock(int i)
    {
        at(i)->unlock();
        g[i].holds = 0;
        check("C21.unlock.releases_once");
    }
    void lock(int i)
    {
        at(i)->lock();
        g[i].holds = 1;
        check("C21.lock.acquires_once");
    }
    // ghost states: 0 nonexistent, 1 holds lock 0, 2 holds lock 1, 3 released lock 0, 4 moved from
    void prepare(int i)
    {
        int s = pick("state", 0, 4);
        if (s == 0)
            return;
        if (s == 2)
        {
            vc_assume(free_for(1));
            construct(i, 1);
            return;
        }
        vc_assume(free_for(0));
        construct(i, 0);
        if (s == 3)
            unlock(i);
        if (s == 4)
        {
            G t(std::move(*at(i)));
            g[i] = {1, -1, 0};
        }
    }
    bool step()
    {
        int i = pick("guard", 0, 1), j = 1 - i;
        ghost &x = g[i], &y = g[j];
        int k = pick("operation", 0, 5);
        if (k == 0)
        {
            int l = pick("lock", 0, 1);
            vc_assume(!x.exists && free_for(l));
            construct(i, l);
        }
        else if (k == 1)
        {
            vc_assume(!x.exists && y.exists);
            move_construct(i, j);
        }
        else if (k == 2)
        {
            bool self = pick("self", 0, 1) == 1;
            vc_assume(x.exists && (self || y.exists));
            move_assign(i, self ? i : j);
        }
        else if (k == 3)
        {
            vc_assume(x.exists);
            destroy(i);
        }
        else if (k == 4)
        {
            vc_assume(x.exists && x.holds);
            unlock(i);
        }
        else
        {
            vc_assume(x.exists && !x.holds && x.lock >= 0 && free_for(x.lock));
            lock(i);
        }
        return true;
    }
    void run(bool w, int steps)
    {
        write = w;
        g_defer = true;
        alignas(pshared_rwlock) static unsigned char locks[2][sizeof(pshared_rwlock)];
        for (int i = 0; i < 2; ++i)
            g_rw[i] = new (locks[i]) pshared_rwlock();
        g[0] = g[1] = {0, -1, 0};
        prepare(0);
        prepare(1);
        step();
        if (steps == 2)
            step();
        for (int i = 0; i < 2; ++i)
            if (g[i].exists)
                destroy(i);
        vc_assert(g_rd[0] + g_rd[1] + g_wr[0] + g_wr[1] == 0, "C21.guard.every_acquisition_released");
    }
};

CONTRACT(c21_read_guard) { history<rdlockguard> h; h.run(false, 1); }
CONTRACT(c21_write_guard) { history<wrlockguard> h; h.run(true, 1); }
CONTRACT(c21_read_guard_2) { history<rdlockguard> h; h.run(false, 2); }
CONTRACT(c21_write_guard_2) { history<wrlockguard> h; h.run(true, 2); }

template <class G> static void failed_construct()
{
    g_defer = true;
    alignas(pshared_rwlock) static unsigned char locks[2][sizeof(pshared_rwlock)];
    for (int i = 0; i < 2; ++i)
        g_rw[i] = new (locks[i]) pshared_rwlock();
    g_may_fail = true;
    int code = 0, o = outcome([&] { G g(*g_rw[0]); }, code);
    vc_assert(o == (g_any_fail ? 1 : 0), "C21.construct.failure_thrown");
    if (g_any_fail)
        vc_assert(code > 0, "C21.construct.failure_code");
    vc_assert(g_rd[0] + g_wr[0] + g_rd[1] + g_wr[1] == 0, "C21.construct.nothing_kept");
}
CONTRACT(c21_read_guard_fails) { failed_construct<rdlockguard>(); }
CONTRACT(c21_write_guard_fails) { failed_construct<wrlockguard>(); }
