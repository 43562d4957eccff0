// C19: the logger's representation: two buffers, one of them being filled under the lock, the other being written.
#define ONLY_ENVIRONMENT
#include "log.cc"
#include "buf_common.h"

static view g_pending;                             // what is to be written
static long g_pos;
static int g_rounds, g_waits;
static bool g_outside;
static void guard(bool accessible)
{
    if (accessible)
    {
        vc_protect(&g_log->curr_, sizeof(g_log->curr_), true, "curr_");
        vc_protect(&g_log->buffers_[0], sizeof(buffer), true, "the buffer being filled");
        vc_protect(&g_log->buffers_[1], sizeof(buffer), true, "the buffer being filled");
    }
    else
        vc_protect(&g_log->buffers_[g_log->curr_], sizeof(buffer), false, "the buffer being filled");
    vc_protect(&g_log->curr_, sizeof(g_log->curr_), accessible, "curr_");
    vc_protect(&g_log->stop_, sizeof(g_log->stop_), accessible, "stop_");
    vc_protect(&g_log->recur_level_, sizeof(g_log->recur_level_), accessible, "recur_level_");
}
static bool is_loggers_lock(const void *m) { return m == (const void *)&g_log->lock_; }
static long writes(const void *p, long n)
{
    vc_assert(g_outside, "C19.writer.not_holding_the_lock");
    vc_assert(n > 0 && n <= g_pending.n - g_pos, "C19.writer.only_what_is_pending");
    vc_assert_eq_bytes(p, (const char *)g_pending.bytes + g_pos, n, "C19.writer.pending_bytes_in_order");
    if (vc_bool("interrupted"))
    {
        errno = EINTR;
        return -1;
    }
    long k = vc_len("accepted", 1, n);
    g_pos += k;
    return k;
}
static void pend()
{
    g_pending = view_of(g_log->buffers_[g_log->curr_]);
    g_pos = 0;
}
static void writer_lock(pthread_mutex_t *m, bool got)
{
    // the internal lock of the condition is not the logger's
    if (!is_loggers_lock(m))
        return;
    if (!got && !g_outside)
    {
        g_outside = true;
        guard(false);
    }
    else if (got && g_outside)
    {
        g_outside = false;
        guard(true);
        if (g_rounds++ > 0)
        {
            vc_assert(g_pos == g_pending.n, "C19.writer.everything_written");
            vc_assert(g_log->buffers_[1 - g_log->curr_].size() == 0, "C19.writer.written_buffer_left_empty");
            vc_reach("C19.writer.next_round");
            vc_stop();
        }
    }
}
static void writer_waits()
{
    // nothing to do: meanwhile lines are logged or the logger is destroyed (or neither: a spurious wake)
    guard(true);
    g_rounds = 0;
    vc_assert(g_pending.n == 0 && !g_log->stop_, "C19.writer.sleeps_only_when_nothing_is_left");
    if (vc_bool("logged"))
    {
        any_buffer(g_log->buffers_[g_log->curr_]);
        pend();
    }
    if (vc_bool("stopped"))
        g_log->stop_ = true;
    // a second spurious wake finds the same state as the first
    if (++g_waits > 1)
        vc_assume(g_log->stop_ || g_pending.n > 0);
    guard(false);
}
static void any_logger()
{
    g_level = 1;
    g_log = new async_logger(1);
    g_log->curr_ = pick("curr", 1);
    any_buffer(g_log->buffers_[g_log->curr_]);
    g_active = true;
    g_me = 0;
    g_threads = 1;
}
CONTRACT(c19_writer)
{
    any_logger();
    buffer &idle = g_log->buffers_[1 - g_log->curr_];
    any_buffer(idle);
    vc_assume(idle.size() == 0);
    g_log->stop_ = vc_bool("stop");
    pend();
    on_lock = writer_lock;
    on_wait = writer_waits;
    on_write = writes;
    g_outside = true;
    g_log->run_impl();
    on_lock = nullptr;
    guard(true);
    vc_assert(g_log->stop_ && g_pending.n == 0, "C19.writer.ends_only_when_stopped_and_nothing_is_left");
    vc_reach("C19.writer.ends");
    g_active = false;
}
// operands
static int g_notes;
static void any_statement(int r)
{
    // the calling thread has written r operands of its statement
    pthread_mutex_t *m = (pthread_mutex_t *)&g_log->lock_;
    g_log->recur_level_ = r;
    if (r > 0)
    {
        owner(m) = 1;
        depth(m) = r;
        guard(true);
    }
    else
        guard(false);
}
static void guards(pthread_mutex_t *m, bool got)
{
    if (is_loggers_lock(m))
        guard(got);
}
static void check_appended(const view &old, int r, const char *text, long n)
{
    const buffer &b = g_log->buffers_[g_log->curr_];
    long head = b.size() - old.n - n;
    vc_assert(head >= 0, "C19.statement.appended");
    vc_assert_eq_bytes(b.rawbuf(), old.bytes, old.n, "C19.statement.earlier_text_kept");
    if (r > 0)
        vc_assert(head == 0, "C19.statement.one_header");
    else
    {
        vc_assert(head >= 12, "C19.statement.one_header");
        vc_assert_eq_bytes(b.rawbuf() + old.n, "- [INFO] [", 10, "C19.statement.header_first");
    }
    vc_assert_eq_bytes(b.rawbuf() + old.n + head, text, n, "C19.statement.text_complete");
}
CONTRACT(c19_operand)
{
    any_logger();
    int r = pick("first", 1) ? 0 : (int)vc_int("operands", 1, 1 << 20);
    view old = view_of(g_log->buffers_[g_log->curr_]);
    long n = vc_len("text", 0, 1L << 20);
    vc_assume(g_log->buffers_[g_log->curr_].offset_ + n + 1000 <= BUF_MAX);
    bool cstr = pick("c_string", 1) != 0;
    const char *text = cstr ? vc_cstr("text", n) : (const char *)vc_alloc("text", n);
    any_statement(r);
    on_lock = guards;
    if (cstr)
        *g_log << text;
    else
        *g_log << std::string(text, n);
    on_lock = nullptr;
    guard(true);
    pthread_mutex_t *m = (pthread_mutex_t *)&g_log->lock_;
    vc_assert(is_mine(m) && (int)depth(m) == r + 1 && g_log->recur_level_ == r + 1, "C19.statement.keeps_the_lock");
    check_appended(old, r, text, n);
    g_active = false;
}
static void notified()
{
    // waking the writer comes after the line is complete and may come before or after the lock is free
    ++g_notes;
}
static void completes(int r, bool guarded)
{
    any_logger();
    view old = view_of(g_log->buffers_[g_log->curr_]);
    vc_assume(g_log->buffers_[g_log->curr_].offset_ + 1000L <= BUF_MAX);
    any_statement(r);
    if (guarded)
        on_lock = guards;
    else
        guard(true);
    on_notify = notified;
    *g_log << log::endl;
    on_lock = nullptr;
    guard(true);
    pthread_mutex_t *m = (pthread_mutex_t *)&g_log->lock_;
    vc_assert(is_free(m) && g_log->recur_level_ == 0, "C19.lock.free_after_each_statement");
    vc_assert(g_notes >= 1, "C19.statement.writer_woken");
    check_appended(old, r, "\n", 1);
    g_active = false;
}
CONTRACT(c19_endl)
{
    completes(pick("operands", 3), true);
}
// any number of operands
CONTRACT(c19_endl_any)
{
    completes((int)vc_int("operands", 1, 1 << 20), false);
}
static int g_joins_done;
static void joined()
{
    vc_assert(is_free((pthread_mutex_t *)&g_log->lock_), "C19.end.joined_without_the_lock");
    on_lock = nullptr;
    guard(true);
    vc_assert(g_notes >= 1 && g_log->stop_, "C19.end.writer_told_and_woken");
    ++g_joins_done;
}
CONTRACT(c19_stop_guarded)
{
    // the destructor sets the flag under the lock and wakes the writer afterwards
    any_logger();
    guard(false);
    on_lock = guards;
    on_notify = notified;
    on_join = joined;
    async_logger *l = g_log;
    l->~async_logger();
    vc_assert(g_joins_done == 1, "C19.end.writer_joined");
    vc_assert(g_notes >= 1, "C19.end.writer_woken");
    g_active = false;
}
