// C29: input of any length, with any input still pending.
#define ONLY_ENVIRONMENT
#include "subp.cc"
#include "buf_common.h"

static view g_old;                                 // pending input, then the new input
static const char *g_new;
static long g_n, g_pos;
static void check_next(const char *p, long n)
{
    // p[0..n) continues pending input ++ new input at g_pos
    vc_assert(n <= g_old.n + g_n - g_pos, "C29.input.nothing_but_the_input");
    long k = g_pos < g_old.n ? g_old.n - g_pos : 0;
    if (k > n)
        k = n;
    vc_assert_eq_bytes(p, (const char *)g_old.bytes + g_pos, k, "C29.input.pending_first");
    if (n > k)
        vc_assert_eq_bytes(p + k, g_new + (g_pos + k - g_old.n), n - k, "C29.input.then_the_new");
    g_pos += n;
}
static long accept_all(const void *p, long n)
{
    check_next((const char *)p, n);
    return n;
}
// write_all as its callers see it (c04_write_all): sends some of what is in the buffer, in order, and removes it
extern "C" int stub_write_all(nstream *s, int) asm("vc_stub._ZN5cppev7nstream9write_allEi");
extern "C" int stub_write_all(nstream *s, int)
{
    vc_assert(role_of(s->fd()) == 0, "C29.input.written_to_the_childs_input");
    buffer &b = s->wbuffer();
    vc_assert(g_pos == 0 && b.size() == g_old.n + g_n, "C29.input.complete");
    check_next(b.rawbuf(), b.size());
    long k = vc_len("sent", 0, b.size());
    b.start_ += (int)k;
    return (int)k;
}
CONTRACT(c29_communicate)
{
    run_child_side();
    g_any_history = true;
    g_text[1] = g_text[2] = "";
    on_write = accept_all;
    subp_open s("ls", {});
    any_buffer(s.stdin_->wbuffer());
    g_old = view_of(s.stdin_->wbuffer());
    g_n = vc_len("input", 0, 1L << 20);
    vc_assume(s.stdin_->wbuffer().offset_ + g_n <= BUF_MAX);
    g_new = (const char *)vc_alloc("input", g_n);
    int how = pick("how", 2);
    if (how == 0)
        s.communicate(g_new, (int)g_n);
    else if (how == 1)
        s.communicate(std::string(g_new, g_n));
    else
    {
        g_n = 0;
        s.communicate();
    }
    vc_assert(g_pos == g_old.n + g_n, "C29.input.all_handed_over");
}
