// C01, C02: cppev::buffer
#include "buf_common.h"
#include "utils.cc"
using cppev::buffer;

// ---- C01
CONTRACT(c01_construct)
{
    long cap = vc_len("cap", 1, BUF_MAX);
    buffer b((int)cap);
    vc_assert(b.size() == 0, "C01.construct.empty");
    vc_assert(b.capacity() == cap, "C01.construct.capacity");
    vc_assert_all(b.rawbuf(), cap, 0, "C01.construct.zeroed");
    buffer d;
    vc_assert(d.size() == 0 && d.capacity() >= 1, "C01.construct.default");
}

CONTRACT(c01_produce)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    long len = vc_len("len", 0, BUF_MAX);
    vc_assume(b.offset_ + len <= BUF_MAX);
    const char *src = (const char *)vc_alloc("src", len);
    const void *orig = vc_snapshot(src, len);
    b.produce(src, (int)len);
    well_formed(b, "C01.produce.well_formed");
    vc_assert(b.size() == v.n + len, "C01.produce.size");
    vc_assert(b.capacity() >= v.cap, "C01.produce.capacity_never_shrinks");
    vc_assert_eq_bytes(b.rawbuf(), v.bytes, v.n, "C01.produce.old_bytes_kept");
    vc_assert_eq_bytes(b.rawbuf() + v.n, orig, len, "C01.produce.new_bytes_appended");
    vc_assert_eq_bytes(src, orig, len, "C01.produce.source_unchanged");
    long i = vc_int("i", 0, v.n + len);
    if (i < b.size())
        vc_assert(b[(int)i] == b.rawbuf()[i], "C01.produce.index");
}

CONTRACT(c01_put_string)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    long len = vc_len("len", 0, BUF_MAX);
    vc_assume(b.offset_ + len <= BUF_MAX);
    std::string s((size_t)len, '\0');
    vc_bytes("str", &s[0], len);
    const void *orig = vc_snapshot(s.data(), len);
    b.put_string(s);
    vc_assert(b.size() == v.n + len, "C01.put_string.size");
    vc_assert(b.capacity() >= v.cap, "C01.put_string.capacity_never_shrinks");
    vc_assert_eq_bytes(b.rawbuf(), v.bytes, v.n, "C01.put_string.old_bytes_kept");
    vc_assert_eq_bytes(b.rawbuf() + v.n, orig, len, "C01.put_string.new_bytes_appended");
    well_formed(b, "C01.put_string.well_formed");
}

CONTRACT(c01_consume)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    long len = vc_int("len", -1, v.n);
    b.consume((int)len);
    long took = len == -1 ? v.n : len;
    well_formed(b, "C01.consume.well_formed");
    vc_assert(b.size() == v.n - took, "C01.consume.size");
    vc_assert_eq_bytes(b.rawbuf(), (const char *)v.bytes + took, v.n - took, "C01.consume.rest_kept");
    vc_assert(b.capacity() == v.cap, "C01.consume.capacity");
}

CONTRACT(c01_consume_all_default)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    b.consume();
    vc_assert(b.size() == 0, "C01.consume_all.empty");
    vc_assert(b.capacity() == v.cap, "C01.consume_all.capacity");
    well_formed(b, "C01.consume_all.well_formed");
}

CONTRACT(c01_get_string)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    long len = vc_int("len", -1, v.n);
    bool remove = vc_bool("remove");
    long took = len == -1 ? v.n : len;
    std::string s = b.get_string((int)len, remove);
    vc_assert((long)s.size() == took, "C01.get_string.length");
    vc_assert_eq_bytes(s.data(), v.bytes, took, "C01.get_string.bytes");
    well_formed(b, "C01.get_string.well_formed");
    long left = remove ? v.n - took : v.n, from = remove ? took : 0;
    vc_assert(b.size() == left, "C01.get_string.rest_size");
    vc_assert_eq_bytes(b.rawbuf(), (const char *)v.bytes + from, left, "C01.get_string.rest_kept");
    vc_assert(b.capacity() == v.cap, "C01.get_string.capacity");
}

CONTRACT(c01_get_string_default)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    std::string s = b.get_string();
    vc_assert((long)s.size() == v.n, "C01.get_string_default.length");
    vc_assert_eq_bytes(s.data(), v.bytes, v.n, "C01.get_string_default.bytes");
    vc_assert(b.size() == 0, "C01.get_string_default.emptied");
}

CONTRACT(c01_compact)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    b.tiny();
    well_formed(b, "C01.compact.well_formed");
    same_content(b, v, "C01.compact.content");
    vc_assert(b.capacity() == v.cap, "C01.compact.capacity");
    vc_assert(b.start_ == 0, "C01.compact.at_start");
    vc_assert_all(b.rawbuf() + v.n, v.cap - v.n, 0, "C01.compact.zero_beyond");
}

CONTRACT(c01_enlarge)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    long cap = vc_len("newcap", -5, BUF_MAX);
    b.resize((int)cap);
    well_formed(b, "C01.enlarge.well_formed");
    same_content(b, v, "C01.enlarge.content");
    vc_assert(b.capacity() >= v.cap && b.capacity() >= cap, "C01.enlarge.capacity");
}

CONTRACT(c01_enlarge_then_compact)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    long cap = vc_len("newcap", 1, BUF_MAX);
    b.resize((int)cap);
    b.tiny();
    same_content(b, v, "C01.enlarge_compact.content");
    vc_assume(b.start_ == 0);
    vc_assert_all(b.rawbuf() + v.n, b.capacity() - v.n, 0, "C01.enlarge_compact.zero_beyond");
}

CONTRACT(c01_produce_then_compact)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    long len = vc_len("len", 0, BUF_MAX);
    vc_assume(b.offset_ + len <= BUF_MAX);
    const char *src = (const char *)vc_alloc("src", len);
    b.produce(src, (int)len);
    b.tiny();
    vc_assert(b.size() == v.n + len, "C01.produce_compact.size");
    vc_assert_eq_bytes(b.rawbuf(), v.bytes, v.n, "C01.produce_compact.old_bytes_kept");
    vc_assert_eq_bytes(b.rawbuf() + v.n, src, len, "C01.produce_compact.new_bytes");
    vc_assert_all(b.rawbuf() + b.size(), b.capacity() - b.size() - b.start_, 0, "C01.produce_compact.zero_beyond");
}

CONTRACT(c01_consume_then_compact)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    long len = vc_int("len", 0, v.n);
    b.consume((int)len);
    b.tiny();
    vc_assert(b.size() == v.n - len, "C01.consume_compact.size");
    vc_assert_eq_bytes(b.rawbuf(), (const char *)v.bytes + len, v.n - len, "C01.consume_compact.content");
    vc_assert_all(b.rawbuf() + b.size(), b.capacity() - b.size() - b.start_, 0, "C01.consume_compact.zero_beyond");
}

CONTRACT(c01_clear)
{
    buffer b;
    any_buffer(b);
    view v = view_of(b);
    b.clear();
    well_formed(b, "C01.clear.well_formed");
    vc_assert(b.size() == 0, "C01.clear.empty");
    vc_assert(b.capacity() == v.cap, "C01.clear.capacity");
    vc_assert_all(b.rawbuf(), b.capacity() - b.start_, 0, "C01.clear.zeroed");
}

CONTRACT(c01_accessors)
{
    buffer b;
    any_buffer(b);
    const buffer &c = b;
    vc_assert(b.size() == b.offset_ - b.start_, "C01.accessors.size");
    long i = vc_int("i", 0, BUF_MAX);
    vc_assume(i < b.size());
    char x = b.buffer_.get()[b.start_ + i];
    vc_assert(c[(int)i] == x && b[(int)i] == x && c.rawbuf()[i] == x && b.rawbuf()[i] == x, "C01.accessors.value");
    vc_assert(&c[(int)i] == c.rawbuf() + i && &b[(int)i] == b.rawbuf() + i, "C01.accessors.address");
    b[(int)i] = 'q';
    vc_assert(c.rawbuf()[i] == 'q', "C01.accessors.write_through");
}

// ---- C02
CONTRACT(c02_copy_construct)
{
    buffer a;
    any_buffer(a);
    view v = view_of(a);
    {
        buffer b(a);
        well_formed(b, "C02.copy_construct.well_formed");
        same_content(b, v, "C02.copy_construct.content");
        vc_assert(b.capacity() == v.cap, "C02.copy_construct.capacity");
        same_content(a, v, "C02.copy_construct.source_unchanged");
        vc_assert(a.capacity() == v.cap, "C02.copy_construct.source_capacity");
        vc_assert(!vc_same_obj(a.rawbuf(), b.rawbuf()), "C02.copy_construct.independent_storage");
        b.clear();
        same_content(a, v, "C02.copy_construct.independent");
    }
    same_content(a, v, "C02.copy_construct.source_survives_destruction");
}

CONTRACT(c02_copy_assign)
{
    buffer a, b;
    any_buffer(a);
    any_buffer(b);
    view v = view_of(a);
    buffer &r = (b = a);
    vc_assert(&r == &b, "C02.copy_assign.returns_target");
    well_formed(b, "C02.copy_assign.well_formed");
    same_content(b, v, "C02.copy_assign.content");
    vc_assert(b.capacity() == v.cap, "C02.copy_assign.capacity");
    same_content(a, v, "C02.copy_assign.source_unchanged");
    vc_assert(!vc_same_obj(a.rawbuf(), b.rawbuf()), "C02.copy_assign.independent_storage");
    a.consume();
    same_content(b, v, "C02.copy_assign.independent");
}

CONTRACT(c02_self_assign)
{
    buffer a;
    any_buffer(a);
    view v = view_of(a);
    buffer &alias = a;
    a = alias;
    same_content(a, v, "C02.self_assign.content");
    vc_assert(a.capacity() == v.cap, "C02.self_assign.capacity");
    well_formed(a, "C02.self_assign.well_formed");
}

CONTRACT(c02_move_construct)
{
    buffer a;
    any_buffer(a);
    view v = view_of(a);
    buffer other;
    any_buffer(other);
    view w = view_of(other);
    {
        buffer b(std::move(a));
        well_formed(b, "C02.move_construct.well_formed");
        same_content(b, v, "C02.move_construct.content");
        vc_assert(b.capacity() == v.cap, "C02.move_construct.capacity");
        a = other;
        same_content(a, w, "C02.move_construct.source_assignable");
        same_content(b, v, "C02.move_construct.target_independent");
    }
    same_content(a, w, "C02.move_construct.source_survives");
}

CONTRACT(c02_move_assign)
{
    buffer a;
    any_buffer(a);
    view v = view_of(a);
    buffer other;
    any_buffer(other);
    view w = view_of(other);
    buffer b;
    any_buffer(b);
    b = std::move(a);
    well_formed(b, "C02.move_assign.well_formed");
    same_content(b, v, "C02.move_assign.content");
    vc_assert(b.capacity() == v.cap, "C02.move_assign.capacity");
    a = std::move(other);
    same_content(a, w, "C02.move_assign.source_assignable");
    same_content(b, v, "C02.move_assign.target_independent");
}

CONTRACT(c02_no_leak)
{
    // every allocation made by copies and moves is released exactly once
    long base = vc_live_heap();
    {
        buffer a;
        any_buffer(a, 64);
        buffer b(a);
        buffer c;
        c = b;
        buffer d(std::move(b));
        c = std::move(d);
        b = c;
    }
    vc_assert(vc_live_heap() == base, "C02.no_leak.released");
}
