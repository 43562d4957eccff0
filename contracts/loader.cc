// C32: dynamic libraries.
#include "vc.h"
#include "utils.cc"
#include "cppev/dynamic_loader.h"
#include <stdexcept>
using namespace cppev;

static char g_lib[2], g_symbol;                    // stand-ins for two libraries and a symbol
static const char *g_file, *g_name, *g_text;       // what was asked, and the linker's text
static long g_file_n, g_name_n, g_text_n;
static int g_opens, g_closes[2];
static bool g_open_fails, g_sym_null, g_sym_error, g_error;
static int g_flags, g_lib_now;

extern "C"
{
void *__wrap_dlopen(const char *file, int flags)
{
    vc_assert_eq_bytes(file, g_file, g_file_n + 1, "C32.open.that_file");
    g_flags = flags;
    vc_assert(g_opens < 2, "C32.open.once");
    if (g_open_fails)
    {
        g_error = true;
        return nullptr;
    }
    g_lib_now = g_opens;
    return &g_lib[g_opens++];
}
int __wrap_dlclose(void *h)
{
    vc_assert(h == &g_lib[0] || h == &g_lib[1], "C32.close.its_own_library");
    int k = h == &g_lib[1];
    vc_assert(g_closes[k] == 0 && k < g_opens, "C32.close.once");
    ++g_closes[k];
    return 0;
}
void *__wrap_dlsym(void *h, const char *name)
{
    vc_assert(h == &g_lib[g_lib_now], "C32.load.from_its_own_library");
    vc_assert(g_closes[g_lib_now] == 0, "C32.load.library_still_open");
    vc_assert_eq_bytes(name, g_name, g_name_n + 1, "C32.load.that_symbol");
    if (g_sym_null)
    {
        g_error = g_sym_error;
        return nullptr;
    }
    return &g_symbol;
}
char *__wrap_dlerror()
{
    if (!g_error)
        return nullptr;
    g_error = false;
    return const_cast<char *>(g_text);
}
}
static void texts()
{
    g_file_n = vc_len("file_len", 0, 1L << 30);
    g_file = vc_cstr("file", g_file_n);
    g_name_n = vc_len("name_len", 0, 1L << 30);
    g_name = vc_cstr("name", g_name_n);
    g_text_n = vc_len("text_len", 0, 1L << 30);
    g_text = vc_cstr("text", g_text_n);
}
// 0 returned, 1 runtime_error, 2 other
template <class F> static int outcome(F &&f, const char *prefix, bool with_text)
{
    try
    {
        f();
    }
    catch (const std::runtime_error &e)
    {
        if (with_text)
        {
            long n = (long)strlen(prefix);
            vc_assert((long)strlen(e.what()) >= g_text_n, "C32.fail.tells_the_reason");
            vc_assert_eq_bytes(e.what() + strlen(e.what()) - g_text_n, g_text, g_text_n, "C32.fail.tells_the_reason");
        }
        return 1;
    }
    catch (const std::exception &)
    {
        return 2;
    }
    return 0;
}
CONTRACT(c32_open_fails)
{
    texts();
    g_open_fails = true;
    int o = outcome([] { dynamic_loader d(std::string(g_file, (size_t)g_file_n)); }, "", true);
    vc_assert(o == 1, "C32.open.failure_thrown");
    vc_assert(g_opens == 0 && g_closes[0] == 0, "C32.open.nothing_closed_when_none_opened");
}
CONTRACT(c32_load)
{
    texts();
    g_sym_null = vc_bool("symbol_null");
    g_sym_error = vc_bool("symbol_missing");
    {
        dynamic_loader d(std::string(g_file, (size_t)g_file_n));
        vc_assert(g_opens == 1, "C32.open.once");
        void (*f)() = nullptr;
        int o = outcome([&] { f = d.load<void()>(std::string(g_name, (size_t)g_name_n)); }, "", g_sym_null && g_sym_error);
        if (g_sym_null)
            vc_assert(o == 1 && f == nullptr, "C32.load.failure_thrown");
        else
            vc_assert(o == 0 && (void *)f == (void *)&g_symbol, "C32.load.that_symbol");
        vc_assert(g_closes[0] == 0, "C32.close.only_at_the_end");
    }
    vc_assert(g_opens == 1 && g_closes[0] == 1, "C32.close.with_its_owner");
}
CONTRACT(c32_two)
{
    texts();
    dynamic_loader *a = new dynamic_loader(std::string(g_file, (size_t)g_file_n));
    dynamic_loader *b = new dynamic_loader(std::string(g_file, (size_t)g_file_n));
    g_lib_now = 0;
    vc_assert((void *)a->load<void()>(std::string(g_name, (size_t)g_name_n)) == (void *)&g_symbol, "C32.load.that_symbol");
    g_lib_now = 1;
    vc_assert((void *)b->load<long>(std::string(g_name, (size_t)g_name_n)) == (void *)&g_symbol, "C32.load.that_symbol");
    bool first = vc_bool("first_goes_first");
    delete (first ? a : b);
    vc_assert(g_closes[first ? 0 : 1] == 1 && g_closes[first ? 1 : 0] == 0, "C32.close.its_own_library");
    delete (first ? b : a);
    vc_assert(g_closes[0] == 1 && g_closes[1] == 1, "C32.close.with_its_owner");
}
