// Native side of the contract language: replays a counterexample, or samples inputs, on the real code.
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <string>
#include <vector>
#include <map>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <ctime>
#include <signal.h>

extern "C" int __real_close(int);
static const size_t TRACE = 1 << 20;
static char *g_trace;          // shared text of the chosen inputs
static size_t g_len;
static bool g_replay;
static std::vector<std::string> g_lines;
static size_t g_pos;
static uint64_t g_rng;
static int g_mode;             // sampling profile
static std::map<const void *, long> *g_allocs;

static uint64_t rnd()
{
    g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
    return g_rng * 2685821657736338717ULL;
}

static void tr(const char *s)
{
    size_t n = strlen(s);
    if (g_len + n + 1 < TRACE) { memcpy(g_trace + g_len, s, n); g_len += n; g_trace[g_len] = 0; }
}

extern "C"
{
static void finish(int code, const char *what)
{
    char b[512];
    snprintf(b, sizeof b, "! %s\n", what);
    tr(b);
    _exit(code);
}

static std::string next_line(const char *name)
{
    if (g_pos >= g_lines.size()) finish(70, "replay-exhausted");
    std::string l = g_lines[g_pos++];
    // "i name value" | "b name n hex"
    size_t a = l.find(' '), b = l.find(' ', a + 1);
    if (l.substr(a + 1, b - a - 1) != name) finish(71, (std::string("replay-mismatch ") + name + " vs " + l).c_str());
    return l.substr(b + 1);
}

long vc_int(const char *name, long lo, long hi) noexcept
{
    long v;
    if (g_replay)
    {
        v = atol(next_line(name).c_str());
        if (v < lo || v > hi) finish(72, "replay-out-of-range");
    }
    else
    {
        if (lo > hi) finish(77, "assume");
        unsigned long w = (unsigned long)hi - (unsigned long)lo;
        uint64_t r = rnd();
        unsigned k = r % 16; r = rnd();
        if (w < 8) v = lo + (long)(r % (w + 1));
        else if (k == 0) v = lo;
        else if (k == 1) v = hi;
        else if (k < 9) { long base = lo <= 0 && hi >= 0 ? 0 : lo; unsigned long m = (unsigned long)hi - (unsigned long)base; if (m > 6) m = 6; v = base + (long)(r % (m + 1)); }
        else if (k < 11 && lo < 0) { v = -(long)(r % 6) - 1; if (v < lo) v = lo; if (v > hi) v = hi; }
        else if (k < 14) { unsigned long m = w > 300 ? 300 : w; long base = lo < 0 && hi >= 0 ? 0 : lo; if ((unsigned long)hi - (unsigned long)base < m) m = (unsigned long)hi - (unsigned long)base; v = base + (long)(r % (m + 1)); }
        else v = w == ~0UL ? (long)r : lo + (long)(r % (w + 1));
    }
    char b[256]; snprintf(b, sizeof b, "i %s %ld\n", name, v); tr(b);
    return v;
}

long vc_len(const char *name, long lo, long hi) noexcept
{
    if (!g_replay && hi - lo > 2000) hi = lo + (rnd() % 8 ? 20 : 2000);
    return vc_int(name, lo, hi);
}

bool vc_bool(const char *name) noexcept
{
    bool v = g_replay ? atol(next_line(name).c_str()) != 0 : rnd() & 1;
    char b[256]; snprintf(b, sizeof b, "i %s %d\n", name, (int)v); tr(b);
    return v;
}

static void fill_bytes(const char *name, unsigned char *p, long n, bool nz)
{
    if (g_replay)
    {
        std::string l = next_line(name);
        size_t s = l.find(' ');
        long m = atol(l.substr(0, s).c_str());
        std::string h = s == std::string::npos ? "" : l.substr(s + 1);
        if (m != n) finish(73, "replay-length");
        for (long i = 0; i < n; ++i)
        {
            unsigned x = 0;
            if ((size_t)(2 * i + 1) < h.size()) sscanf(h.substr(2 * i, 2).c_str(), "%2x", &x);
            if (nz && x == 0) x = 'a';
            p[i] = (unsigned char)x;
        }
    }
    else
    {
        unsigned prof = rnd() % 3;
        for (long i = 0; i < n; ++i)
        {
            uint64_t r = rnd() >> 8;
            p[i] = prof == 0 ? "ab"[r % 2] : prof == 1 ? "ab,\0x"[r % 5] : (unsigned char)r;
            if (nz && p[i] == 0) p[i] = 'z';
        }
    }
    char b[256]; snprintf(b, sizeof b, "b %s %ld ", name, n); tr(b);
    if (n <= 65536)
        for (long i = 0; i < n; ++i) { snprintf(b, sizeof b, "%02x", p[i]); tr(b); }
    tr("\n");
}

void vc_bytes(const char *name, void *p, long n) noexcept { fill_bytes(name, (unsigned char *)p, n, false); }

void *vc_alloc(const char *name, long n) noexcept
{
    if (n < 0 || n > (1 << 24)) finish(77, "assume");
    unsigned char *p = (unsigned char *)malloc(n ? n : 1);
    fill_bytes(name, p, n, false);
    return p;
}

char *vc_cstr(const char *name, long n) noexcept
{
    if (n < 0 || n > (1 << 24)) finish(77, "assume");
    unsigned char *p = (unsigned char *)malloc(n + 1);
    fill_bytes(name, p, n, true);
    p[n] = 0;
    return (char *)p;
}

void vc_assume(bool c) noexcept { if (!c) finish(77, "assume"); }
void vc_assert(bool c, const char *id) noexcept { if (!c) finish(66, (std::string("contract ") + id).c_str()); }
void vc_reach(const char *) noexcept {}
void vc_stop() noexcept { finish(0, "stop"); }
bool vc_symbolic() noexcept { return false; }
bool vc_bounded() noexcept { return true; }
void vc_fill(void *p, int byte, long n) noexcept { if (n > 0) memset(p, byte, n); }
void vc_assert_eq_bytes(const void *a, const void *b, long n, const char *id) noexcept
{
    if (n > 0 && memcmp(a, b, n) != 0) finish(66, (std::string("contract ") + id).c_str());
}
void vc_assert_all(const void *p, long n, int byte, const char *id) noexcept
{
    for (long i = 0; i < n; ++i)
        if (((const unsigned char *)p)[i] != (unsigned char)byte) finish(66, (std::string("contract ") + id).c_str());
}
void vc_assume_all(const void *p, long n, int byte) noexcept
{
    for (long i = 0; i < n; ++i)
        if (((const unsigned char *)p)[i] != (unsigned char)byte) finish(77, "assume");
}
void *vc_snapshot(const void *p, long n) noexcept
{
    void *q = malloc(n > 0 ? n : 1);
    if (n > 0) memcpy(q, p, n);
    return q;
}
long vc_origin(const void *) noexcept { return -1; }
void vc_phase() noexcept {}
void vc_invariant(bool (*)(void *), void *) noexcept {}
void vc_protect(const void *, long, bool, const char *) noexcept {}
bool vc_freed(const void *) noexcept { return true; }
bool vc_same_obj(const void *p, const void *q) noexcept { return p == q; }
bool vc_held(const void *) noexcept { return true; }
long vc_live_heap() noexcept { return 0; }
long *vc_ghost_array(const char *, long n, int) noexcept { return (long *)calloc(n > 0 ? n : 1, sizeof(long)); }
void vc_assume_forall(long lo, long hi, bool (*fn)(void *, long), void *ctx) noexcept
{
    for (long j = lo; j < hi; ++j) vc_assume(fn(ctx, j));
}
void vc_longs(const char *name, long *p, long n, long lo, long hi) noexcept
{
    std::string l;
    if (g_replay)
    {
        l = next_line(name);
        if (atol(l.c_str()) != n) finish(73, "replay-length");
    }
    char b[256]; snprintf(b, sizeof b, "l %s %ld", name, n);
    std::string o = b;
    size_t pos = l.find(' ');
    for (long i = 0; i < n; ++i)
    {
        if (g_replay)
        {
            p[i] = pos == std::string::npos ? lo : atol(l.c_str() + pos + 1);
            pos = pos == std::string::npos ? pos : l.find(' ', pos + 1);
        }
        else
        {
            unsigned k = rnd() % 4;
            unsigned long w = (unsigned long)hi - (unsigned long)lo;
            unsigned long m = k < 2 ? 12 : k == 2 ? 1000 : w;
            if (m > w) m = w;
            p[i] = m == ~0UL ? (long)rnd() : lo + (long)(rnd() % (m + 1));
        }
        snprintf(b, sizeof b, " %ld", p[i]);
        o += b;
    }
    o += "\n";
    tr(o.c_str());
}
void vc_ints(const char *name, int *p, long n, int lo, int hi) noexcept
{
    long *q = (long *)malloc((n + 1) * sizeof(long));
    vc_longs(name, q, n, lo, hi);
    for (long i = 0; i < n; ++i) p[i] = (int)q[i];
    free(q);
}
long vc_lcm(long a, long b) noexcept { return a / vc_gcd(a, b) * b; }
long vc_gcd(long a, long b) noexcept
{
    while (b) { long t = a % b; a = b; b = t; }
    return a;
}
void vc_note(const char *) noexcept {}
}

struct entry { const char *name; void (*fn)(); };
extern entry vc_contracts[];

static void on_terminate()
{
    const char *n = "?";
    if (auto *t = abi::__cxa_current_exception_type()) n = t->name();
    finish(67, (std::string("terminate ") + n).c_str());
}

static void on_abort(int s) { char b[64]; snprintf(b, sizeof b, "signal %d", s); finish(68, b); }

static void run(void (*fn)())
{
    std::set_terminate(on_terminate);
    signal(SIGABRT, on_abort);
    if (g_replay)
    {
        // a run that takes this long does not terminate
        rlimit lim = {15, 16};
        setrlimit(RLIMIT_CPU, &lim);
        alarm(50);
    }
    else
        alarm(20);
    try
    {
        fn();
    }
    catch (std::exception &e)
    {
        finish(69, (std::string("uncaught ") + typeid(e).name() + " " + e.what()).c_str());
    }
    finish(0, "ok");
}

// usage: prog replay CONTRACT FILE | prog sample CONTRACT SEED COUNT SECONDS
int main(int argc, char **argv)
{
    g_trace = (char *)mmap(nullptr, TRACE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void (*fn)() = nullptr;
    for (entry *e = vc_contracts; e->name; ++e)
        if (std::string(e->name) == argv[2]) fn = e->fn;
    if (!fn) { fprintf(stderr, "no contract %s\n", argv[2]); return 2; }
    bool replay = std::string(argv[1]) == "replay";
    if (replay)
    {
        g_replay = true;
        FILE *f = fopen(argv[3], "r");
        if (!f) return 2;
        std::string cur;
        int c;
        while ((c = fgetc(f)) != EOF)
        {
            if (c == '\n') { if (!cur.empty() && (cur[0] == 'i' || cur[0] == 'b' || cur[0] == 'l') && cur[1] == ' ') g_lines.push_back(cur); cur.clear(); }
            else cur.push_back((char)c);
        }
        fclose(f);
    }
    long count = replay ? 1 : atol(argv[4]);
    long secs = replay ? 60 : atol(argv[5]);
    uint64_t seed = replay ? 1 : strtoull(argv[3], 0, 10);
    time_t t0 = time(nullptr);
    long done = 0, skipped = 0;
    for (long i = 0; i < count; ++i)
    {
        if (time(nullptr) - t0 > secs) break;
        g_trace[0] = 0;
        pid_t p = fork();
        if (p == 0)
        {
            g_rng = (seed * 1000003ULL + i + 1) * 0x9E3779B97F4A7C15ULL + 12345;
            for (int k = 0; k < 4; ++k) rnd();
            g_len = 0;
            run(fn);
        }
        int st = 0;
        waitpid(p, &st, 0);
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        if (code == 77) { ++skipped; continue; }
        ++done;
        if (code == 128 + SIGXCPU && replay)
        {
            printf("HANG\n%s", g_trace);
            return 1;
        }
        if (code == 128 + SIGALRM)
        {
            if (!replay)
            {
                // does this run ever end?  A replay of it, measured in processor time, tells
                printf("SLOW runs=%ld\n%s", done, g_trace);
                return 0;
            }
            continue;
        }
        if (code != 0)
        {
            printf("FAIL code=%d iteration=%ld\n%s", code, i, g_trace);
            return 1;
        }
    }
    printf("DONE runs=%ld skipped=%ld\n", done, skipped);
    return 0;
}

// ---------------------------------------------------------------- simulated threads: one stack each
#include <ucontext.h>
extern "C"
{
void __sanitizer_start_switch_fiber(void **save, const void *bottom, size_t size) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void *save, const void **bottom, size_t *size) __attribute__((weak));
}
static const size_t CO_STACK = 1 << 20;
struct co_t
{
    ucontext_t ctx, *back;
    char *stack;
    void *fake;
    const void *up_bottom;
    size_t up_size;
    void (*fn)(void *);
    void *arg;
    bool done, running;
};
static std::vector<co_t *> *g_cos;
static std::vector<co_t *> *g_run;
static void co_main()
{
    co_t *c = g_run->back();
    if (__sanitizer_finish_switch_fiber)
        __sanitizer_finish_switch_fiber(nullptr, &c->up_bottom, &c->up_size);
    c->fn(c->arg);
    c->done = true;
    if (__sanitizer_start_switch_fiber)
        __sanitizer_start_switch_fiber(nullptr, c->up_bottom, c->up_size);
    setcontext(c->back);
}
extern "C"
{
int vc_co_new(void (*fn)(void *), void *arg)
{
    if (!g_cos)
    {
        g_cos = new std::vector<co_t *>;
        g_run = new std::vector<co_t *>;
    }
    co_t *c = new co_t();
    c->fn = fn;
    c->arg = arg;
    g_cos->push_back(c);
    return (int)g_cos->size();
}
int vc_co_resume(int k)
{
    co_t *c = g_cos->at(k - 1);
    if (c->done || c->running) finish(78, "resume of a thread that is not suspended");
    ucontext_t here;
    c->back = &here;
    if (!c->stack)
    {
        c->stack = (char *)mmap(nullptr, CO_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&c->ctx);
        c->ctx.uc_stack.ss_sp = c->stack;
        c->ctx.uc_stack.ss_size = CO_STACK;
        c->ctx.uc_link = nullptr;
        makecontext(&c->ctx, co_main, 0);
    }
    void *fake = nullptr;
    c->running = true;
    g_run->push_back(c);
    if (__sanitizer_start_switch_fiber)
        __sanitizer_start_switch_fiber(&fake, c->stack, CO_STACK);
    swapcontext(&here, &c->ctx);
    if (__sanitizer_finish_switch_fiber)
        __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
    g_run->pop_back();
    c->running = false;
    return c->done ? 1 : 0;
}
void vc_co_yield()
{
    co_t *c = g_run->back();
    ucontext_t *back = c->back;
    if (__sanitizer_start_switch_fiber)
        __sanitizer_start_switch_fiber(&c->fake, c->up_bottom, c->up_size);
    swapcontext(&c->ctx, back);
    if (__sanitizer_finish_switch_fiber)
        __sanitizer_finish_switch_fiber(c->fake, &c->up_bottom, &c->up_size);
}
}
