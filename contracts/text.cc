// C25, C26, C27, C30: text, arithmetic, time and error helpers.
#include "vc.h"
#include "utils.cc"
#include <system_error>
using namespace cppev;

static long pick(const char *name, long lo, long hi)
{
    long v = vc_int(name, lo, hi);
    for (long i = lo; i < hi; ++i)
        if (v == i)
            return i;
    return hi;
}

static std::string some_text(const char *name, long n)
{
    const char *p = (const char *)vc_alloc(name, n);
    return std::string(p, (size_t)n);
}

static bool match(const std::string &s, long at, const std::string &sep)
{
    for (size_t i = 0; i < sep.size(); ++i)
        if (s[(size_t)at + i] != sep[i])
            return false;
    return true;
}

template <class F> static int outcome(F &&f, int &code)
{
    // 0 returned, 1 system_error, 2 logic_error, 3 runtime_error
    try
    {
        f();
    }
    catch (const std::system_error &e)
    {
        code = e.code().value();
        return 1;
    }
    catch (const std::logic_error &)
    {
        return 2;
    }
    catch (const std::runtime_error &)
    {
        return 3;
    }
    return 0;
}

// ================================================================ C25 (bounded)
static void check_split(long n, long m)
{
    std::string s = some_text("text", n), sep = some_text("sep", m), s0 = s, sep0 = sep;
    std::vector<std::string> v;
    int code = 0;
    int o = outcome([&] { v = split(s, sep); }, code);
    if (m == 0)
    {
        vc_assert(o != 0, "C25.split.empty_separator_rejected");
        return;
    }
    vc_assert(o == 0, "C25.split.returns");
    vc_assert(s == s0 && sep == sep0, "C25.split.arguments_unchanged");
    vc_assert(v.size() >= 1, "C25.split.at_least_one_piece");
    long pos = 0;
    for (size_t k = 0; k < v.size(); ++k)
    {
        long len = (long)v[k].size();
        vc_assert(pos + len <= n, "C25.split.pieces_are_the_text");
        for (long i = 0; i < len; ++i)
        {
            vc_assert(v[k][(size_t)i] == s[(size_t)(pos + i)], "C25.split.pieces_are_the_text");
            if (pos + i + m <= n)
                vc_assert(!match(s, pos + i, sep), "C25.split.cuts_at_the_leftmost_separator");
        }
        pos += len;
        if (k + 1 < v.size())
        {
            vc_assert(pos + m <= n && match(s, pos, sep), "C25.split.cuts_only_at_separators");
            pos += m;
        }
        else
            vc_assert(pos == n, "C25.split.whole_text");
    }
}
CONTRACT(c25_split_1) { check_split(pick("n", 0, vc_bounded() && !vc_symbolic() ? 12 : 5), 1); }
CONTRACT(c25_split_2) { check_split(pick("n", 0, vc_bounded() && !vc_symbolic() ? 12 : 5), 2); }
CONTRACT(c25_split_3) { check_split(pick("n", 0, vc_bounded() && !vc_symbolic() ? 14 : 6), 3); }
CONTRACT(c25_split_empty) { check_split(pick("n", 0, 3), 0); }

CONTRACT(c25_join)
{
    long k = pick("pieces", 0, 3);
    std::string sep = some_text("sep", pick("sep_len", 0, 2));
    std::vector<std::string> v;
    std::string want;
    for (long i = 0; i < k; ++i)
    {
        v.push_back(some_text("piece", pick("piece_len", 0, 2)));
        if (i)
            want += sep;
        want += v.back();
    }
    std::string got = join(v, sep);
    vc_assert(got.size() == want.size(), "C25.join.exactly_one_separator_between_neighbours");
    for (size_t i = 0; i < want.size(); ++i)
        vc_assert(got[i] == want[i], "C25.join.concatenates_in_order");
    vc_assert((long)v.size() == k, "C25.join.arguments_unchanged");
}

CONTRACT(c25_round_trip)
{
    long n = pick("n", 0, 4), m = pick("m", 1, 2);
    std::string s = some_text("text", n), sep = some_text("sep", m);
    std::string back = join(split(s, sep), sep);
    vc_assert((long)back.size() == n, "C25.join_inverts_split");
    for (long i = 0; i < n; ++i)
        vc_assert(back[(size_t)i] == s[(size_t)i], "C25.join_inverts_split");
}

// Texts and separators of any length with k cuts anywhere: the pieces are exactly the stretches between the cuts.  The
// scan is verified phase by phase, a phase ends when a cut is recorded.
static const char *g_text, *g_sep;
static long *g_miss, *g_pos;
static long g_seplen;
static bool position(void *, long p) { return g_pos[p] == 1; }
static bool no_match_at(void *, long p) { return (g_pos[p] != 1) | (g_text[p + g_miss[p]] != g_sep[g_miss[p]]); }
static bool miss_inside(void *, long p) { return (g_miss[p] >= 0) & (g_miss[p] < g_seplen); }
static bool is_separator(void *at, long i) { return g_text[*(long *)at + i] == g_sep[i]; }
void push_stub(std::vector<int> *self, int &&x) __asm__("vc_stub._ZNSt6vectorIiSaIiEE9push_backEOi");
void push_stub(std::vector<int> *self, int &&x)
{
    vc_phase();
    self->push_back(std::move(x));
}
static void split_any(long k)
{
    long cut0 = 0, cut1 = 0, cut2 = 0, max = (k == 0) ? 1L << 40 : INT_MAX - 1;
    long n = vc_len("n", 0, max), m = vc_len("m", 1, max);
    long *cut[3] = {&cut0, &cut1, &cut2};
    g_text = (const char *)vc_alloc("text", n);
    g_sep = (const char *)vc_alloc("sep", m);
    g_seplen = m;
    g_miss = vc_ghost_array("miss", n + 1, 2);
    g_pos = vc_ghost_array("pos", n + 1, 0);
    if (vc_symbolic())
    {
        vc_assume_forall(0, n + 1, position, nullptr);
        vc_assume(g_pos[0] == 1);
        vc_assume_forall(0, n + 1, miss_inside, nullptr);
    }
    long from = 0;
    for (long i = 0; i <= k; ++i)
    {
        long to = i < k ? vc_len("cut", 0, max) : n;
        vc_assume(from <= to && (i == k || to + m <= n));
        if (i < k)
            *cut[i] = to;
        if (vc_symbolic())
        {
            // nothing to be found between the cuts
            vc_assume(g_pos[from] == 1);
            vc_assume_forall(from, i < k ? to : n - m + 1, no_match_at, nullptr);
            if (i < k)
                vc_assume_forall(0, m, is_separator, cut[i]);
        }
        else
        {
            for (long p = from; p + m <= n && (p < to || i == k); ++p)
                vc_assume(memcmp(g_text + p, g_sep, (size_t)m) != 0);
            if (i < k)
                vc_assume(memcmp(g_text + to, g_sep, (size_t)m) == 0);
        }
        from = to + m;
    }
    std::string s(g_text, (size_t)n), sep(g_sep, (size_t)m);
    std::vector<std::string> v = split(s, sep);
    vc_assert((long)v.size() == k + 1, "C25.split.cuts_exactly_at_the_separators");
    from = 0;
    for (long i = 0; i <= k; ++i)
    {
        long to = i < k ? *cut[i] : n;
        vc_assert((long)v[(size_t)i].size() == to - from, "C25.split.cuts_at_the_leftmost_separator");
        vc_assert_eq_bytes(v[(size_t)i].data(), g_text + from, to - from, "C25.split.pieces_are_the_text");
        from = to + m;
    }
    vc_assert((long)s.size() == n && (long)sep.size() == m, "C25.split.arguments_unchanged");
}
CONTRACT(c25_split_any_0) { split_any(0); }
CONTRACT(c25_split_any_1) { split_any(1); }
CONTRACT(c25_split_any_2) { split_any(2); }
CONTRACT(c25_split_any_3) { split_any(3); }

// Pieces and separators of any length.
static void join_any(long k)
{
    const char *p[3];
    long len[3], m = vc_len("sep_len", 0, 1L << 40), at = 0;
    const char *q = (const char *)vc_alloc("sep", m);
    std::string sep(q, (size_t)m);
    std::vector<std::string> v;
    for (long i = 0; i < k; ++i)
    {
        len[i] = vc_len("piece_len", 0, 1L << 40);
        p[i] = (const char *)vc_alloc("piece", len[i]);
        v.emplace_back(p[i], (size_t)len[i]);
    }
    std::string got = join(v, sep);
    long total = 0;
    for (long i = 0; i < k; ++i)
        total += len[i] + (i ? m : 0);
    vc_assert((long)got.size() == total, "C25.join.exactly_one_separator_between_neighbours");
    for (long i = 0; i < k; ++i)
    {
        if (i)
        {
            vc_assert_eq_bytes(got.data() + at, q, m, "C25.join.exactly_one_separator_between_neighbours");
            at += m;
        }
        vc_assert_eq_bytes(got.data() + at, p[i], len[i], "C25.join.concatenates_in_order");
        at += len[i];
    }
    vc_assert((long)v.size() == k, "C25.join.arguments_unchanged");
}
CONTRACT(c25_join_0) { join_any(0); }
CONTRACT(c25_join_1) { join_any(1); }
CONTRACT(c25_join_2) { join_any(2); }
CONTRACT(c25_join_3) { join_any(3); }

// ================================================================ C26
// Ghost predicate over positions: L[p] - the left end may be cut at p; R[q] - q remaining characters are left when the
// right end has been cut.  They are the least predicates closed under "remove one more occurrence", and W/V are the
// witnesses of a mismatch, so a position satisfying them at which the pattern no longer matches is THE result.
static const char *g_s, *g_c;
static long g_n, g_m;
static long *g_L, *g_W, *g_R, *g_V;
static long g_p;                 // left end while cutting on the right

static bool left_witness(void *, long p) { return (g_W[p] >= 0) & (g_W[p] < g_m); }
static bool right_witness(void *, long q) { return (g_V[q] >= 0) & (g_V[q] < g_m); }
static bool left_closed(void *, long p)
{
    return !((g_L[p] == 1) & (g_L[p + g_m] != 1)) | (g_s[p + g_W[p]] != g_c[g_W[p]]);
}
static bool right_closed(void *, long q)
{
    // q is the right end, q - m the one after removing one more occurrence
    return !((g_R[q] == 1) & (g_R[q - g_m] != 1)) | (g_s[q - g_m + g_V[q]] != g_c[g_V[q]]);
}

static void left_ghost()
{
    g_L = vc_ghost_array("L", g_n + 1, 0);
    g_W = vc_ghost_array("W", g_n + 1, 2);
    if (vc_symbolic())
    {
        vc_assume(g_L[0] == 1);
        vc_assume_forall(0, g_n + 1, left_witness, nullptr);
        vc_assume_forall(0, g_n - g_m + 1, left_closed, nullptr);
        return;
    }
    g_L[0] = 1;
    for (long p = 0; p + g_m <= g_n && memcmp(g_s + p, g_c, (size_t)g_m) == 0; p += g_m)
        g_L[p + g_m] = 1;
}
static void right_ghost(long p)
{
    g_p = p;
    g_R = vc_ghost_array("R", g_n + 1, 0);
    g_V = vc_ghost_array("V", g_n + 1, 2);
    if (vc_symbolic())
    {
        vc_assume(g_R[g_n] == 1);
        vc_assume_forall(0, g_n + 1, right_witness, nullptr);
        vc_assume_forall(p + g_m, g_n + 1, right_closed, nullptr);
        return;
    }
    g_R[g_n] = 1;
    for (long q = g_n; q - p >= g_m && memcmp(g_s + q - g_m, g_c, (size_t)g_m) == 0; q -= g_m)
        g_R[q - g_m] = 1;
}

static void strip_case(long n, long m, int mode)
{
    g_n = n;
    g_m = m;
    g_s = (const char *)vc_alloc("text", n);
    g_c = (const char *)vc_alloc("pattern", m);
    std::string s(g_s, (size_t)n), c(g_c, (size_t)m), r;
    if (mode == 0)
    {
        left_ghost();
        r = lstrip(s, c);
        long len = (long)r.size(), cut = n - len;
        vc_assert(cut >= 0, "C26.lstrip.rest_of_the_text");
        vc_assert_eq_bytes(r.data(), g_s + cut, len, "C26.lstrip.rest_of_the_text");
        vc_assert(g_L[cut] == 1, "C26.lstrip.removes_only_occurrences");
        vc_assert(!(len >= m && memcmp(g_s + cut, g_c, (size_t)m) == 0), "C26.lstrip.removes_every_occurrence");
    }
    else if (mode == 1)
    {
        right_ghost(0);
        r = rstrip(s, c);
        long len = (long)r.size();
        vc_assert(len <= n, "C26.rstrip.rest_of_the_text");
        vc_assert_eq_bytes(r.data(), g_s, len, "C26.rstrip.rest_of_the_text");
        vc_assert(g_R[len] == 1, "C26.rstrip.removes_only_occurrences");
        vc_assert(!(len >= m && memcmp(g_s + len - m, g_c, (size_t)m) == 0), "C26.rstrip.removes_every_occurrence");
    }
}

#if 1
CONTRACT(c26_lstrip)
{
    strip_case(vc_len("n", 0, 1L << 40), vc_len("m", 1, 1L << 40), 0);
}
CONTRACT(c26_rstrip)
{
    strip_case(vc_len("n", 0, 1L << 40), vc_len("m", 1, 1L << 40), 1);
}
// Both cuts: the left one first, then the right one within what is left.  Where the result begins is a witness taken
// from the result's own contents, or for an empty result from the last piece taken of the text (nothing is assumed
// about it).
static long g_cut = -1;
std::string substr_stub(const std::string *self, size_t pos, size_t n)
    __asm__("vc_stub._ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE6substrEmm");
std::string substr_stub(const std::string *self, size_t pos, size_t n)
{
    g_cut = (long)pos;
    return self->substr(pos, n);
}
CONTRACT(c26_strip_any)
{
    g_n = vc_len("n", 0, 1L << 40);
    g_m = vc_len("m", 1, 1L << 40);
    g_s = (const char *)vc_alloc("text", g_n);
    g_c = (const char *)vc_alloc("pattern", g_m);
    std::string s(g_s, (size_t)g_n), c(g_c, (size_t)g_m);
    left_ghost();
    right_ghost(0);
    std::string r = strip(s, c);
    long len = (long)r.size(), p = vc_origin(r.data());
    vc_assert(len <= g_n, "C26.strip.rest_of_the_text");
    if (!vc_symbolic())
    {
        p = 0;
        while (p + g_m <= g_n && memcmp(g_s + p, g_c, (size_t)g_m) == 0)
            p += g_m;
    }
    if (len == 0 && vc_symbolic())
    {
        p = g_cut;
        if (p < 0)
            return;
    }
    vc_assert(p >= 0 && p + len <= g_n, "C26.strip.rest_of_the_text");
    vc_assert_eq_bytes(r.data(), g_s + p, len, "C26.strip.rest_of_the_text");
    vc_assert(g_L[p] == 1, "C26.strip.left_removes_only_occurrences");
    vc_assert(!(g_n - p >= g_m && memcmp(g_s + p, g_c, (size_t)g_m) == 0), "C26.strip.left_removes_every_occurrence");
    vc_assert(g_R[p + len] == 1, "C26.strip.right_removes_only_occurrences");
    vc_assert(!(len >= g_m && memcmp(g_s + p + len - g_m, g_c, (size_t)g_m) == 0), "C26.strip.right_removes_every_occurrence");
}
#endif
CONTRACT(c26_strip)
{
    long n = pick("n", 0, vc_symbolic() ? 5 : 12), m = pick("m", 1, 3);
    std::string s = some_text("text", n), c = some_text("pattern", m);
    std::string r = strip(s, c);
    long p = 0, q = n;
    while (q - p >= m && match(s, p, c))
        p += m;
    while (q - p >= m && match(s, q - m, c))
        q -= m;
    vc_assert((long)r.size() == q - p, "C26.strip.left_then_right");
    for (long i = 0; i < q - p; ++i)
        vc_assert(r[(size_t)i] == s[(size_t)(p + i)], "C26.strip.rest_of_the_text");
}
CONTRACT(c26_ends)
{
    long n = pick("n", 0, vc_symbolic() ? 5 : 12), m = pick("m", 1, 3);
    std::string s = some_text("text", n), c = some_text("pattern", m);
    bool left = vc_bool("left");
    std::string r = left ? lstrip(s, c) : rstrip(s, c);
    long p = 0, q = n;
    while (left && q - p >= m && match(s, p, c))
        p += m;
    while (!left && q - p >= m && match(s, q - m, c))
        q -= m;
    vc_assert((long)r.size() == q - p, "C26.cut_exactly_the_maximal_run");
    for (long i = 0; i < q - p; ++i)
        vc_assert(r[(size_t)i] == s[(size_t)(p + i)], "C26.rest_of_the_text");
}
CONTRACT(c26_empty_pattern)
{
    std::string s = some_text("text", pick("n", 0, 2)), c;
    long which = vc_int("which", 0, 2);
    int code = 0;
    int o = outcome([&] { which == 0 ? strip(s, c) : which == 1 ? lstrip(s, c) : rstrip(s, c); }, code);
    vc_assert(o == 3 || o == 2, "C26.empty_pattern_rejected");
}

// ================================================================ C27
int64_t gcd_stub(int64_t p, int64_t r) __asm__("vc_stub._ZN5cppev23greatest_common_divisorEll");
int64_t gcd_stub(int64_t p, int64_t r)
{
    vc_assert(p > 0 && r > 0, "C27.gcd.called_with_positive_numbers");
    return vc_gcd(p, r);
}
int64_t lcm_stub(int64_t p, int64_t r) __asm__("vc_stub._ZN5cppev21least_common_multipleEll");
int64_t lcm_stub(int64_t p, int64_t r)
{
    vc_assert(p > 0 && r > 0, "C27.lcm.called_with_positive_numbers");
    return vc_lcm(p, r);
}

CONTRACT(c27_gcd)
{
    int64_t p = vc_int("p", 1, INT64_MAX), r = vc_int("r", 1, INT64_MAX);
    int64_t g = greatest_common_divisor(p, r);
    vc_assert(g == vc_gcd(p, r), "C27.gcd.is_the_greatest_common_divisor");
}
CONTRACT(c27_lcm)
{
    int64_t g = vc_int("g", 1, INT64_MAX), a = vc_int("a", 1, INT64_MAX), b = vc_int("b", 1, INT64_MAX);
    int64_t p, r, l;
    vc_assume(!__builtin_mul_overflow(g, a, &p));
    vc_assume(!__builtin_mul_overflow(g, b, &r));
    vc_assume(!__builtin_mul_overflow(p, b, &l));
    vc_assume(vc_gcd(p, r) == g);
    vc_assert(least_common_multiple(p, r) == l, "C27.lcm.is_the_least_common_multiple");
}

static const int64_t *g_nums;
static long *g_S;
static bool gcd_step(void *, long k) { return g_S[k] == vc_gcd(g_S[k - 1], g_nums[k]); }
static bool lcm_step(void *, long k) { return (g_S[k] == vc_lcm(g_S[k - 1], g_nums[k])) & (g_S[k] >= 1); }

static void any_numbers(std::vector<int64_t> &v)
{
    long n = vc_len("count", 2, 1 << 20);
    int64_t *p = (int64_t *)operator new((size_t)n * 8);
    vc_longs("nums", (long *)p, n, 1, INT64_MAX);
    v._M_impl._M_start = p;
    v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n;
    g_nums = p;
    g_S = vc_ghost_array("fold", n, 1);
}
CONTRACT(c27_gcd_list)
{
    std::vector<int64_t> v;
    any_numbers(v);
    long n = (long)v.size();
    if (vc_symbolic())
    {
        vc_assume(g_S[0] == g_nums[0]);
        vc_assume_forall(1, n, gcd_step, nullptr);
    }
    else
    {
        g_S[0] = g_nums[0];
        for (long i = 1; i < n; ++i)
            g_S[i] = vc_gcd(g_S[i - 1], g_nums[i]);
    }
    vc_assert(greatest_common_divisor(v) == g_S[n - 1], "C27.gcd_of_list.is_the_gcd_of_all");
}
CONTRACT(c27_lcm_list)
{
    std::vector<int64_t> v;
    any_numbers(v);
    long n = (long)v.size();
    if (vc_symbolic())
    {
        vc_assume(g_S[0] == g_nums[0]);
        vc_assume_forall(1, n, lcm_step, nullptr);
    }
    else
    {
        g_S[0] = g_nums[0];
        for (long i = 1; i < n; ++i)
        {
            long x = g_nums[i] / vc_gcd(g_S[i - 1], g_nums[i]);
            vc_assume(!__builtin_mul_overflow(g_S[i - 1], x, &g_S[i]));
        }
    }
    vc_assert(least_common_multiple(v) == g_S[n - 1], "C27.lcm_of_list.is_the_lcm_of_all");
}

template <long N, long D> struct tick_clock
{
    using duration = std::chrono::duration<int64_t, std::ratio<N, D>>;
    using time_point = std::chrono::time_point<tick_clock, duration>;
};
template <class Clock> static void ceil_case(long per_sec)
{
    // per_sec ticks of the clock per second
    long t = vc_int("ticks", 0, per_sec <= 1000000000L ? (INT64_MAX / (1000000000L / per_sec)) - 2 * per_sec : 0);
    auto r = ceil_time_point<Clock>(typename Clock::time_point(typename Clock::duration(t))).time_since_epoch().count();
    vc_assert(r % per_sec == 0, "C27.ceil.whole_second");
    vc_assert(r > t && r - t <= per_sec, "C27.ceil.first_second_strictly_after");
}
CONTRACT(c27_ceil_system) { ceil_case<std::chrono::system_clock>(1000000000L); }
CONTRACT(c27_ceil_steady) { ceil_case<std::chrono::steady_clock>(1000000000L); }
CONTRACT(c27_ceil_micro) { ceil_case<tick_clock<1, 1000000>>(1000000L); }
CONTRACT(c27_ceil_milli) { ceil_case<tick_clock<1, 1000>>(1000L); }

// ================================================================ C30
CONTRACT(c30_system_error)
{
    long n = vc_len("n", 0, 1L << 30);
    const char *msg = vc_cstr("msg", n);
    std::string m(msg, (size_t)n);
    int err = (int)vc_int("err", INT_MIN, INT_MAX);
    int e = (int)vc_int("errno", INT_MIN, INT_MAX);
    errno = e;
    bool caught = false;
    try
    {
        throw_system_error(m, err);
    }
    catch (const std::system_error &x)
    {
        caught = true;
        vc_assert(x.code().value() == (err != 0 ? err : e), "C30.system_error.code");
        vc_assert(x.code().category() == std::system_category(), "C30.system_error.category");
        vc_assert_eq_bytes(x.what(), msg, n, "C30.system_error.text");
    }
    vc_assert(caught, "C30.system_error.thrown");
}
CONTRACT(c30_logic_error)
{
    long n = vc_len("n", 0, 1L << 30);
    const char *msg = vc_cstr("msg", n);
    std::string m(msg, (size_t)n);
    bool caught = false;
    try
    {
        throw_logic_error(m);
    }
    catch (const std::logic_error &x)
    {
        caught = true;
        vc_assert_eq_bytes(x.what(), msg, n + 1, "C30.logic_error.text");
    }
    vc_assert(caught, "C30.logic_error.thrown");
}
CONTRACT(c30_runtime_error)
{
    long n = vc_len("n", 0, 1L << 30);
    const char *msg = vc_cstr("msg", n);
    std::string m(msg, (size_t)n);
    bool caught = false;
    try
    {
        throw_runtime_error(m);
    }
    catch (const std::runtime_error &x)
    {
        caught = true;
        vc_assert_eq_bytes(x.what(), msg, n + 1, "C30.runtime_error.text");
    }
    vc_assert(caught, "C30.runtime_error.thrown");
}

static long now_value, tm_value;
static int now_calls, tm_calls, fmt_calls;
static int g_err;
static bool g_failed;
static const char *fmt_text;
static long fmt_len;
static const char *out_text;
static long out_len;
static tm *tm_where;
extern "C" time_t __wrap_time(time_t *p)
{
    ++now_calls;
    if (vc_bool("time_fails"))
    {
        g_failed = true;
        errno = g_err = (int)vc_int("time_errno", 1, 133);
        return -1;
    }
    now_value = vc_int("now", 0, LONG_MAX);
    if (p)
        *p = now_value;
    return now_value;
}
extern "C" tm *__wrap_localtime_r(const time_t *t, tm *out)
{
    ++tm_calls;
    tm_value = *t;
    tm_where = out;
    if (vc_bool("localtime_fails"))
    {
        g_failed = true;
        errno = g_err = (int)vc_int("localtime_errno", 1, 133);
        return nullptr;
    }
    out->tm_sec = 1;
    out->tm_min = 2;
    out->tm_hour = 3;
    out->tm_mday = 4;
    out->tm_mon = 5;
    out->tm_year = 6;
    out->tm_wday = 1;
    out->tm_yday = 8;
    out->tm_isdst = 0;
    out->tm_gmtoff = 0;
    out->tm_zone = "Z";
    return out;
}
extern "C" size_t __wrap_strftime(char *buf, size_t max, const char *fmt, const tm *t)
{
    ++fmt_calls;
    vc_assert(tm_calls == 1 && !g_failed, "C30.timestamp.failed_conversion_not_formatted");
    vc_assert(t->tm_sec == 1 && t->tm_min == 2 && t->tm_hour == 3 && t->tm_mday == 4 && t->tm_mon == 5 && t->tm_year == 6
              && t->tm_yday == 8, "C30.timestamp.formats_the_converted_time");
    vc_assert_eq_bytes(fmt, fmt_text, fmt_len + 1, "C30.timestamp.uses_the_given_format");
    if (vc_bool("strftime_fails"))
    {
        g_failed = true;
        errno = g_err = (int)vc_int("strftime_errno", 1, 133);
        return 0;
    }
    out_len = vc_len("out_len", 1, 1023);
    vc_assume(out_len < (long)max);
    out_text = vc_cstr("out", out_len);
    memcpy(buf, out_text, (size_t)out_len + 1);
    return (size_t)out_len;
}
CONTRACT(c30_timestamp)
{
    long t = vc_int("t", LONG_MIN, LONG_MAX);
    const char *fmt = nullptr;
    fmt_text = "%F %T %Z";
    fmt_len = 8;
    if (vc_bool("has_format"))
    {
        fmt_len = vc_len("fmt_len", 0, 1000);
        fmt = fmt_text = vc_cstr("fmt", fmt_len);
    }
    std::string r;
    int code = 0;
    int o = outcome([&] { r = timestamp(t, fmt); }, code);
    if (o == 0)
    {
        vc_assert(!g_failed, "C30.timestamp.failure_reported");
        vc_assert(fmt_calls == 1, "C30.timestamp.formats_once");
        vc_assert(tm_value == (t >= 0 ? t : now_value), "C30.timestamp.uses_the_given_or_current_time");
        vc_assert((now_calls == 1) == (t < 0), "C30.timestamp.current_time_only_when_absent");
        vc_assert((long)r.size() == out_len, "C30.timestamp.text");
        vc_assert_eq_bytes(r.data(), out_text, out_len, "C30.timestamp.text");
    }
    else
        vc_assert(g_failed && o == 1 && code == g_err, "C30.timestamp.failure_is_a_system_error_with_its_code");
}
CONTRACT(c30_time)
{
    int code = 0;
    time_t t = 0;
    int o = outcome([&] { t = cppev::time(); }, code);
    if (o == 0)
        vc_assert(!g_failed && t == now_value, "C30.time.value");
    else
        vc_assert(g_failed && o == 1 && code == g_err, "C30.time.failure_is_a_system_error_with_its_code");
}
