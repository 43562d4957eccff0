// C03, C04: nstream reads and writes against an adversarial kernel stream.
#include "buf_common.h"
#include <fcntl.h>
#include "utils.cc"
#include "sysconfig.cc"
#include "nio.cc"
#include <system_error>
using namespace cppev;

enum { EV_NONE, EV_DATA, EV_EOF, EV_INTR, EV_AGAIN, EV_RESET, EV_PIPE, EV_OTHER };

// ---- kernel model.  in_data[0..in_max) are the bytes the peer sent; the kernel delivers them in order in arbitrary
// pieces, interleaved with interruptions, and reports end-of-file, reset, would-block or another error at any moment.
static int g_fd;
static const char *in_data;
static long in_pos, in_max, in_avail, in_step;
static int last_event;
static bool seen_eof, seen_reset, seen_pipe;
static int g_err;
static bool reading;

extern "C" ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    vc_assert(fd == g_fd, "C03.kernel.read_descriptor");
    vc_assert((long)n >= 0 && (long)n <= in_max - in_pos && (long)n <= in_step, "C03.kernel.never_asks_for_more_than_allowed");
    if (n == 0)
        return 0;
    long ev = vc_int("read_event", EV_DATA, EV_OTHER);
    vc_assume(ev != EV_PIPE);
    vc_assume(ev != EV_DATA || in_pos < in_avail);
    last_event = (int)ev;
    if (ev == EV_DATA)
    {
        long k = vc_len("read_count", 1, (long)n < in_avail - in_pos ? (long)n : in_avail - in_pos);
        memcpy(buf, in_data + in_pos, (size_t)k);
        in_pos += k;
        return k;
    }
    if (ev == EV_EOF)
    {
        seen_eof = true;
        return 0;
    }
    if (ev == EV_INTR)
        errno = EINTR;
    else if (ev == EV_AGAIN)
        errno = EAGAIN;
    else if (ev == EV_RESET)
    {
        seen_reset = true;
        errno = ECONNRESET;
    }
    else
    {
        long e = vc_int("read_errno", 1, 133);
        vc_assume(e != EINTR && e != EAGAIN && e != ECONNRESET);
        errno = (int)e;
        g_err = (int)e;
    }
    return -1;
}

// out_data[0..out_max) are the bytes that may be sent, oldest first.
static const char *out_data;
static long out_pos, out_max;

extern "C" ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
    vc_assert(fd == g_fd, "C04.kernel.write_descriptor");
    vc_assert((long)n >= 0 && (long)n <= out_max - out_pos, "C04.kernel.never_sends_more_than_requested");
    vc_assert_eq_bytes(buf, out_data + out_pos, (long)n, "C04.kernel.oldest_unsent_bytes_in_order");
    if (n == 0)
        return 0;
    long ev = vc_int("write_event", EV_DATA, EV_OTHER);
    vc_assume(ev != EV_EOF);
    last_event = (int)ev;
    if (ev == EV_DATA)
    {
        long k = vc_len("write_count", 1, (long)n);
        out_pos += k;
        return k;
    }
    if (ev == EV_INTR)
        errno = EINTR;
    else if (ev == EV_AGAIN)
        errno = EAGAIN;
    else if (ev == EV_RESET)
    {
        seen_reset = true;
        errno = ECONNRESET;
    }
    else if (ev == EV_PIPE)
    {
        seen_pipe = true;
        errno = EPIPE;
    }
    else
    {
        long e = vc_int("write_errno", 1, 133);
        vc_assume(e != EINTR && e != EAGAIN && e != ECONNRESET && e != EPIPE);
        errno = (int)e;
        g_err = (int)e;
    }
    return -1;
}

extern "C" int __wrap_fcntl(int, int, long) { return 0; }
extern "C" int __wrap_close(int) { return 0; }

static void any_flags(nstream &s, bool &reset, bool &eof, bool &eop)
{
    reset = s.reset_ = vc_bool("reset0");
    eof = s.eof_ = vc_bool("eof0");
    eop = s.eop_ = vc_bool("eop0");
}

// Contract of read_chunk as its callers may use it; established by c03_read_chunk.
extern "C" int stub_read_chunk(nstream *s, int len) asm("vc_stub._ZN5cppev7nstream10read_chunkEi");
extern "C" int stub_read_chunk(nstream *s, int len)
{
    buffer &b = s->rbuffer();
    vc_assert(len >= 0 && b.offset_ + (long)len <= BUF_MAX, "C03.read_chunk.requires");
    vc_assert(len <= in_max - in_pos && len <= in_step, "C03.kernel.never_asks_for_more_than_allowed");
    if (b.cap_ < b.offset_ + len)
        b.cap_ = (int)vc_int("grown_cap", b.offset_ + len, 2 * BUF_MAX - 1);
    long k = vc_len("chunk", 0, len);
    vc_assume(k <= in_avail - in_pos);
    memcpy(b.buffer_.get() + b.offset_, in_data + in_pos, (size_t)k);
    in_pos += k;
    b.offset_ += (int)k;
    if (k == len)
    {
        last_event = EV_DATA;
        return len;
    }
    long ev = vc_int("chunk_stop", EV_EOF, EV_OTHER);
    vc_assume(ev == EV_EOF || ev == EV_AGAIN || ev == EV_RESET || ev == EV_OTHER);
    last_event = (int)ev;
    if (ev == EV_EOF)
        seen_eof = s->eof_ = true;
    if (ev == EV_RESET)
        seen_reset = s->reset_ = true;
    if (ev == EV_OTHER)
    {
        g_err = (int)vc_int("chunk_errno", 1, 133);
        throw std::system_error(std::error_code(g_err, std::system_category()), "read error");
    }
    return (int)k;
}

static long do_read(nstream &s, long len, bool all, bool &threw)
{
    threw = false;
    long r = -1;
    try
    {
        r = all ? s.read_all((int)len) : s.read_chunk((int)len);
    }
    catch (const std::system_error &e)
    {
        threw = true;
        vc_assert(last_event == EV_OTHER, "C03.throws_only_on_other_error");
        vc_assert(e.code().value() == g_err, "C03.error_code");
    }
    return r;
}

static void check_read(nstream &s, const view &v, long r, bool threw, bool reset0, bool eof0, bool eop0)
{
    well_formed(s.rbuffer(), "C03.buffer_well_formed");
    vc_assert(s.rbuffer().size() == v.n + in_pos, "C03.appends_exactly_the_delivered_count");
    vc_assert_eq_bytes(s.rbuffer().rawbuf(), v.bytes, v.n, "C03.old_content_kept");
    vc_assert_eq_bytes(s.rbuffer().rawbuf() + v.n, in_data, in_pos, "C03.appends_exactly_the_delivered_bytes");
    vc_assert(s.eof() == (eof0 || seen_eof), "C03.eof_exactly_when_it_happened");
    vc_assert(s.is_reset() == (reset0 || seen_reset), "C03.reset_exactly_when_it_happened");
    vc_assert(s.eop() == eop0, "C03.eop_untouched");
    if (!threw)
        vc_assert(r == in_pos, "C03.returns_appended_count");
    vc_assert(threw == (last_event == EV_OTHER), "C03.other_error_thrown");
}

CONTRACT(c03_read_chunk)
{
    g_fd = (int)vc_int("fd", 0, INT_MAX);
    nstream s(g_fd);
    any_buffer(s.rbuffer());
    bool reset0, eof0, eop0, threw;
    any_flags(s, reset0, eof0, eop0);
    view v = view_of(s.rbuffer());
    long len = vc_len("len", 0, BUF_MAX);
    vc_assume(s.rbuffer().offset_ + len <= BUF_MAX);
    in_data = (const char *)vc_alloc("stream", len);
    in_pos = 0;
    in_max = in_avail = in_step = len;
    last_event = EV_NONE;
    long r = do_read(s, len, false, threw);
    check_read(s, v, r, threw, reset0, eof0, eop0);
    if (!threw)
        vc_assert(r == len || last_event == EV_EOF || last_event == EV_RESET || last_event == EV_AGAIN,
                  "C03.stops_only_for_a_reason");
    vc_assert(s.rbuffer().size() == v.n + in_pos, "C03.size");
}

CONTRACT(c03_read_all)
{
    g_fd = (int)vc_int("fd", 0, INT_MAX);
    nstream s(g_fd);
    any_buffer_roomy(s.rbuffer());
    bool reset0, eof0, eop0, threw;
    any_flags(s, reset0, eof0, eop0);
    view v = view_of(s.rbuffer());
    long step = vc_len("step", 1, BUF_MAX);
    long total = vc_len("total", 0, BUF_MAX);
    vc_assume(s.rbuffer().offset_ + total + step <= BUF_MAX);
    in_data = (const char *)vc_alloc("stream", total + step);
    in_pos = 0;
    in_max = total + step;
    in_avail = total;
    in_step = step;
    last_event = EV_NONE;
    long r = do_read(s, step, true, threw);
    check_read(s, v, r, threw, reset0, eof0, eop0);
    if (!threw)
        vc_assert(last_event == EV_EOF || last_event == EV_RESET || last_event == EV_AGAIN, "C03.read_all.stops_only_for_a_reason");
}

// Contract of write_chunk as its callers may use it; established by c04_write_chunk.
extern "C" int stub_write_chunk(nstream *s, int len) asm("vc_stub._ZN5cppev7nstream11write_chunkEi");
extern "C" int stub_write_chunk(nstream *s, int len)
{
    buffer &b = s->wbuffer();
    vc_assert(len >= 0, "C04.write_chunk.requires");
    long want = len < b.size() ? len : b.size();
    vc_assert(want <= out_max - out_pos, "C04.kernel.never_sends_more_than_requested");
    long k = vc_len("chunk", 0, want);
    out_pos += k;
    b.start_ += (int)k;
    // (the contract speaks about the content; where an emptied buffer restarts is left abstract)
    last_event = EV_DATA;
    if (k == want)
        return (int)k;
    long ev = vc_int("chunk_stop", EV_EOF, EV_OTHER);
    vc_assume(ev == EV_PIPE || ev == EV_AGAIN || ev == EV_RESET || ev == EV_OTHER);
    last_event = (int)ev;
    if (ev == EV_PIPE)
        seen_pipe = s->eop_ = true;
    if (ev == EV_RESET)
        seen_reset = s->reset_ = true;
    if (ev == EV_OTHER)
    {
        g_err = (int)vc_int("chunk_errno", 1, 133);
        throw std::system_error(std::error_code(g_err, std::system_category()), "write error");
    }
    return (int)k;
}

static long do_write(nstream &s, long len, bool all, bool &threw)
{
    threw = false;
    long r = -1;
    try
    {
        r = all ? s.write_all((int)len) : s.write_chunk((int)len);
    }
    catch (const std::system_error &e)
    {
        threw = true;
        vc_assert(last_event == EV_OTHER, "C04.throws_only_on_other_error");
        vc_assert(e.code().value() == g_err, "C04.error_code");
    }
    return r;
}

static void check_write(nstream &s, const view &v, long r, bool threw, bool reset0, bool eof0, bool eop0)
{
    well_formed(s.wbuffer(), "C04.buffer_well_formed");
    vc_assert(s.wbuffer().size() == v.n - out_pos, "C04.removes_exactly_the_accepted_count");
    vc_assert_eq_bytes(s.wbuffer().rawbuf(), out_data + out_pos, v.n - out_pos, "C04.unsent_bytes_kept");
    vc_assert(s.eop() == (eop0 || seen_pipe), "C04.eop_exactly_when_it_happened");
    vc_assert(s.is_reset() == (reset0 || seen_reset), "C04.reset_exactly_when_it_happened");
    vc_assert(s.eof() == eof0, "C04.eof_untouched");
    if (!threw)
        vc_assert(r == out_pos, "C04.returns_accepted_count");
    vc_assert(threw == (last_event == EV_OTHER), "C04.other_error_thrown");
}

CONTRACT(c04_write_chunk)
{
    g_fd = (int)vc_int("fd", 0, INT_MAX);
    nstream s(g_fd);
    any_buffer(s.wbuffer());
    bool reset0, eof0, eop0, threw;
    any_flags(s, reset0, eof0, eop0);
    view v = view_of(s.wbuffer());
    out_data = (const char *)v.bytes;
    out_pos = 0;
    last_event = EV_NONE;
    long len = vc_len("len", 0, BUF_MAX);
    out_max = len < v.n ? len : v.n;
    long r = do_write(s, len, false, threw);
    check_write(s, v, r, threw, reset0, eof0, eop0);
    if (!threw)
        vc_assert(r == out_max || last_event == EV_PIPE || last_event == EV_RESET || last_event == EV_AGAIN,
                  "C04.stops_only_for_a_reason");
}

CONTRACT(c04_write_all)
{
    g_fd = (int)vc_int("fd", 0, INT_MAX);
    nstream s(g_fd);
    any_buffer(s.wbuffer());
    bool reset0, eof0, eop0, threw;
    any_flags(s, reset0, eof0, eop0);
    view v = view_of(s.wbuffer());
    out_data = (const char *)v.bytes;
    out_pos = 0;
    out_max = v.n;
    last_event = EV_NONE;
    long step = vc_len("step", 1, BUF_MAX);
    long r = do_write(s, step, true, threw);
    check_write(s, v, r, threw, reset0, eof0, eop0);
    if (!threw)
        vc_assert(r == out_max || last_event == EV_PIPE || last_event == EV_RESET || last_event == EV_AGAIN,
                  "C04.write_all.stops_only_for_a_reason");
}

// a fresh stream has seen nothing yet
static void fresh(nstream &s)
{
    vc_assert(!s.eof() && !s.is_reset(), "C03.fresh.no_end_and_no_reset_reported");
    vc_assert(s.rbuffer().size() == 0, "C03.fresh.nothing_received");
    vc_assert(!s.eop(), "C04.fresh.no_broken_pipe_reported");
    vc_assert(s.wbuffer().size() == 0, "C04.fresh.nothing_to_send");
    vc_assert(s.fd() == g_fd && !s.is_closed(), "C03.fresh.that_descriptor");
}
static void fresh_any()
{
    g_fd = (int)vc_int("fd", 0, INT_MAX);
    if (vc_bool("tcp"))
    {
        nsocktcp s(g_fd, family::ipv4);
        fresh(s);
    }
    else
    {
        nstream s(g_fd);
        fresh(s);
    }
}
CONTRACT(c03_fresh) { fresh_any(); }
CONTRACT(c04_fresh) { fresh_any(); }
