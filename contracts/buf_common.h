// Arbitrary buffers satisfying the class invariant, and their abstract value (the bytes [start_, offset_)).
#ifndef BUF_COMMON_H
#define BUF_COMMON_H
#include "vc.h"
#include "cppev/buffer.h"

static const long BUF_MAX = 1L << 30;

struct view { long n; const void *bytes; long cap; };

// Class invariant: 1 <= cap, 0 <= start <= offset <= cap, storage has cap bytes, bytes at and after offset are zero.
static inline void any_buffer(cppev::buffer &b, long maxcap = BUF_MAX)
{
    long cap = vc_len("cap", 1, maxcap);
    long off = vc_int("offset", 0, cap);
    long start = vc_int("start", 0, off);
    vc_assume(off == 0 || start < off);            // an emptied buffer is always reset
    char *p = new char[cap];
    vc_fill(p, 0, cap);
    vc_bytes("data", p, off);
    b.buffer_.reset(p);
    b.cap_ = (int)cap;
    b.start_ = (int)start;
    b.offset_ = (int)off;
}

// The same for contracts whose callees are replaced by their contracts (which may enlarge the storage in place): the
// block has room for the largest capacity.
static inline void any_buffer_roomy(cppev::buffer &b)
{
    if (vc_bounded())
    {
        any_buffer(b);
        return;
    }
    any_buffer(b);
    char *p = new char[2 * BUF_MAX];
    memcpy(p, b.buffer_.get(), b.offset_);
    b.buffer_.reset(p);
}

static inline view view_of(const cppev::buffer &b)
{
    return view{b.size(), vc_snapshot(b.rawbuf(), b.size()), b.capacity()};
}

static inline void same_content(const cppev::buffer &b, const view &v, const char *id)
{
    vc_assert(b.size() == v.n, id);
    vc_assert_eq_bytes(b.rawbuf(), v.bytes, v.n, id);
}

static inline void well_formed(const cppev::buffer &b, const char *id)
{
    vc_assert(b.capacity() >= 1 && b.size() >= 0 && b.size() <= b.capacity() && b.start_ >= 0 && b.start_ <= b.offset_
              && b.offset_ <= b.cap_, id);
}
#endif
