// C05, C07, C08, C09: sockets against a model of the kernel's socket calls.
#include "buf_common.h"
#include <fcntl.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "utils.cc"
#include "sysconfig.cc"
#include "nio.cc"
#include <system_error>
using namespace cppev;

static int g_fd;
static family g_family;
static int g_err;                     // errno of the last failing call
static bool g_failed;

static int fail_with(const char *name)
{
    g_err = (int)vc_int(name, 1, 133);
    errno = g_err;
    g_failed = true;
    return -1;
}

static int af_of(family f) { return f == family::ipv4 ? AF_INET : f == family::ipv6 ? AF_INET6 : AF_LOCAL; }

// ---------------------------------------------------------------- text <-> address
static int calls;                     // network calls issued
static const char *ip_text;           // text given by the caller (null: any address)
static long ip_len;
static unsigned char ip_addr[16];     // what that text denotes
static bool pton_called, ntop_called;
static long pton_result;
// o: 0 returned, 1 system_error, 2 other
static void check_text(int o)
{
    if (ip_text)
        vc_assert(pton_called, "C07.text_parsed");
    if (!pton_called)
        return;
    if (pton_result == 1)
        vc_assert(o != 2, "C07.text_of_that_family_accepted");
    else
        vc_assert(o != 0 && calls == 0, "C07.bad_text_rejected_before_any_network_call");
}
static int g_port;
static const char *g_path;
static long g_path_len;

extern "C" int __wrap_inet_pton(int af, const char *src, void *dst)
{
    vc_assert(af == af_of(g_family), "C07.text_parsed_as_own_family");
    vc_assert_eq_bytes(src, ip_text, ip_len + 1, "C07.text_parsed_is_the_given_one");
    pton_called = true;
    long r = vc_int("pton", -1, 1);
    pton_result = r;
    if (r == 1)
    {
        vc_bytes("ip_addr", ip_addr, af == AF_INET ? 4 : 16);
        memcpy(dst, ip_addr, af == AF_INET ? 4 : 16);
    }
    else if (r == -1)
        fail_with("pton_errno");
    return (int)r;
}

// the address the kernel reports
static unsigned char rep_addr[16];
static int rep_port;
static family rep_family;
static char *rep_text;
static long rep_text_len;

extern "C" const char *__wrap_inet_ntop(int af, const void *src, char *dst, socklen_t size)
{
    vc_assert(af == af_of(rep_family), "C07.decoded_as_reported_family");
    vc_assert_eq_bytes(src, rep_addr, af == AF_INET ? 4 : 16, "C07.decodes_reported_address_bytes");
    vc_assert(size >= 46, "C07.text_room");
    ntop_called = true;
    if (vc_bool("ntop_fails"))
    {
        fail_with("ntop_errno");
        return nullptr;
    }
    memcpy(dst, rep_text, (size_t)rep_text_len + 1);
    return dst;
}

static void any_reported(family f)
{
    rep_family = f;
    rep_port = (int)vc_int("rep_port", 0, 65535);
    vc_bytes("rep_addr", rep_addr, 16);
    rep_text_len = vc_len("rep_text_len", 2, 45);
    rep_text = vc_cstr("rep_text", rep_text_len);
}

static void report(sockaddr *a, socklen_t *len)
{
    if (rep_family == family::ipv4)
    {
        vc_assert(*len >= sizeof(sockaddr_in), "C07.room_for_address");
        sockaddr_in *p = (sockaddr_in *)a;
        p->sin_family = AF_INET;
        p->sin_port = htons((uint16_t)rep_port);
        memcpy(&p->sin_addr, rep_addr, 4);
        *len = sizeof(sockaddr_in);
    }
    else if (rep_family == family::ipv6)
    {
        vc_assert(*len >= sizeof(sockaddr_in6), "C07.room_for_address");
        sockaddr_in6 *p = (sockaddr_in6 *)a;
        p->sin6_family = AF_INET6;
        p->sin6_port = htons((uint16_t)rep_port);
        memcpy(&p->sin6_addr, rep_addr, 16);
        *len = sizeof(sockaddr_in6);
    }
    else
    {
        a->sa_family = AF_LOCAL;
        *len = sizeof(sa_family_t);
    }
}

static void check_reported(const std::tuple<std::string, int, family> &t)
{
    const std::string &ip = std::get<0>(t);
    vc_assert((long)ip.size() == rep_text_len, "C07.reported_text_length");
    vc_assert_eq_bytes(ip.data(), rep_text, rep_text_len, "C07.reported_text");
    vc_assert(std::get<1>(t) == rep_port, "C07.reported_port");
    vc_assert(std::get<2>(t) == rep_family, "C07.reported_family");
}

// an address argument as the caller denoted it
static void check_addr(const void *addr, socklen_t len, const char *id)
{
    static const unsigned char zero[16] = {0};
    const sockaddr *a = (const sockaddr *)addr;
    vc_assert(a->sa_family == af_of(g_family), id);
    if (g_family == family::ipv4)
    {
        const sockaddr_in *p = (const sockaddr_in *)addr;
        vc_assert(len == sizeof(sockaddr_in), id);
        vc_assert(ntohs(p->sin_port) == g_port, id);
        vc_assert_eq_bytes(&p->sin_addr, ip_text ? ip_addr : zero, 4, id);
    }
    else if (g_family == family::ipv6)
    {
        const sockaddr_in6 *p = (const sockaddr_in6 *)addr;
        vc_assert(len == sizeof(sockaddr_in6), id);
        vc_assert(ntohs(p->sin6_port) == g_port, id);
        vc_assert_eq_bytes(&p->sin6_addr, ip_text ? ip_addr : zero, 16, id);
        vc_assert(p->sin6_flowinfo == 0 && p->sin6_scope_id == 0, id);
    }
    else
    {
        const sockaddr_un *p = (const sockaddr_un *)addr;
        vc_assert((long)len >= (long)offsetof(sockaddr_un, sun_path) + g_path_len && len <= sizeof(sockaddr_un), id);
        vc_assert_eq_bytes(p->sun_path, g_path, g_path_len, id);
        if ((long)len > (long)offsetof(sockaddr_un, sun_path) + g_path_len)
            vc_assert(p->sun_path[g_path_len] == 0, id);
    }
}

static void any_ip(bool may_be_null)
{
    g_port = (int)vc_int("port", 0, 65535);
    ip_text = nullptr;
    if (!may_be_null || vc_bool("has_ip"))
    {
        ip_len = vc_len("ip_len", 0, 64);
        ip_text = vc_cstr("ip", ip_len);
    }
}

static void any_path()
{
    g_path_len = vc_len("path_len", 1, 107);
    g_path = vc_cstr("path", g_path_len);
}

// ---------------------------------------------------------------- descriptors
enum { MAXCALLS = 64 };
static int fl_flags, fl_set, fl_calls;
static bool fl_may_fail;
extern "C" int __wrap_fcntl(int fd, int cmd, long arg)
{
    if (!fl_may_fail)
        return 0;
    vc_assert(fd == g_fd, "C08.blocking_mode.descriptor");
    vc_assert(cmd == F_GETFL || cmd == F_SETFL, "C08.blocking_mode.command");
    if (vc_bool("fcntl_fails"))
        return fail_with("fcntl_errno");
    if (cmd == F_GETFL)
        return fl_flags;
    ++fl_calls;
    fl_set = (int)arg;
    return 0;
}
extern "C" int __wrap_close(int) { return 0; }

static bool unlink_called;
extern "C" int __wrap_unlink(const char *p)
{
    vc_assert_eq_bytes(p, g_path, g_path_len + 1, "C07.unlink_path");
    unlink_called = true;
    vc_assert(calls == 0, "C07.unlink_before_bind");
    return vc_bool("unlink_fails") ? -1 : 0;
}

// ---------------------------------------------------------------- options
static int so_level, so_name, so_calls;
static unsigned char so_value[8];
static int so_len;
static bool so_bind;                 // inside bind(): only SO_REUSEADDR may be set
extern "C" int __wrap_setsockopt(int fd, int level, int name, const void *val, socklen_t len)
{
    vc_assert(fd == g_fd, "C08.set.descriptor");
    ++so_calls;
    so_level = level;
    so_name = name;
    so_len = (int)len;
    vc_assert(len == 4 || len == 8, "C08.set.length");
    memcpy(so_value, val, len);
    if (vc_bool("setsockopt_fails"))
        return fail_with("setsockopt_errno");
    return 0;
}

static int rep_value[2];
extern "C" int __wrap_getsockopt(int fd, int level, int name, void *val, socklen_t *len)
{
    vc_assert(fd == g_fd, "C08.get.descriptor");
    ++so_calls;
    so_level = level;
    so_name = name;
    so_len = (int)*len;
    vc_assert(*len == 4 || *len == 8, "C08.get.length");
    rep_value[0] = (int)vc_int("rep_value", INT_MIN, INT_MAX);
    rep_value[1] = (int)vc_int("rep_value2", INT_MIN, INT_MAX);
    if (vc_bool("getsockopt_fails"))
        return fail_with("getsockopt_errno");
    memcpy(val, rep_value, *len);
    return 0;
}

// ---------------------------------------------------------------- calls carrying addresses
static bool net_ok;
extern "C" int __wrap_bind(int fd, const sockaddr *a, socklen_t len)
{
    vc_assert(fd == g_fd, "C07.bind.descriptor");
    ++calls;
    check_addr(a, len, "C07.bind.address");
    if (vc_bool("bind_fails"))
        return fail_with("bind_errno");
    return 0;
}

extern "C" int __wrap_connect(int fd, const sockaddr *a, socklen_t len)
{
    vc_assert(fd == g_fd, "C07.connect.descriptor");
    ++calls;
    check_addr(a, len, "C07.connect.address");
    net_ok = true;
    if (vc_bool("connect_fails"))
    {
        fail_with("connect_errno");
        net_ok = g_err == EINPROGRESS;
        return -1;
    }
    return 0;
}

static long dg_len;
static const char *dg_data;
static long dg_taken;                // bytes of the datagram delivered or accepted
extern "C" ssize_t __wrap_recvfrom(int fd, void *buf, size_t n, int flags, sockaddr *a, socklen_t *len)
{
    vc_assert(fd == g_fd && flags == 0, "C05.recv.descriptor");
    ++calls;
    vc_assert(calls == 1, "C05.recv.one_datagram");
    if (vc_bool("recv_fails"))
    {
        fail_with("recv_errno");
        return -1;
    }
    dg_taken = dg_len < (long)n ? dg_len : (long)n;
    memcpy(buf, dg_data, (size_t)dg_taken);
    report(a, len);
    return dg_taken;
}

static const void *out_bytes;
static long out_len;
extern "C" ssize_t __wrap_sendto(int fd, const void *buf, size_t n, int flags, const sockaddr *a, socklen_t len)
{
    vc_assert(fd == g_fd && flags == 0, "C05.send.descriptor");
    ++calls;
    vc_assert(calls == 1, "C05.send.once");
    vc_assert((long)n == out_len, "C05.send.whole_content");
    vc_assert_eq_bytes(buf, out_bytes, out_len, "C05.send.whole_content");
    check_addr(a, len, "C05.send.address");
    if (vc_bool("send_fails"))
    {
        fail_with("send_errno");
        return -1;
    }
    dg_taken = vc_len("sent", 0, (long)n);
    return dg_taken;
}

extern "C" int __wrap_getsockname(int fd, sockaddr *a, socklen_t *len)
{
    vc_assert(fd == g_fd, "C07.sockname.descriptor");
    ++calls;
    if (vc_bool("getname_fails"))
        return fail_with("getname_errno");
    report(a, len);
    return 0;
}

extern "C" int __wrap_getpeername(int fd, sockaddr *a, socklen_t *len)
{
    vc_assert(fd == g_fd, "C07.peername.descriptor");
    calls += 100;
    if (vc_bool("getname_fails"))
        return fail_with("getname_errno");
    report(a, len);
    return 0;
}

static int shut_calls, shut_how;
extern "C" int __wrap_shutdown(int fd, int how)
{
    vc_assert(fd == g_fd, "C09.shutdown.descriptor");
    ++shut_calls;
    shut_how = how;
    return vc_bool("shutdown_fails") ? fail_with("shutdown_errno") : 0;
}

static int listen_calls, listen_backlog;
extern "C" int __wrap_listen(int fd, int backlog)
{
    vc_assert(fd == g_fd, "C09.listen.descriptor");
    ++listen_calls;
    listen_backlog = backlog;
    return vc_bool("listen_fails") ? fail_with("listen_errno") : 0;
}

static int sock_calls, sock_domain, sock_type;
extern "C" int __wrap_socket(int domain, int type, int)
{
    ++sock_calls;
    sock_domain = domain;
    sock_type = type;
    return vc_bool("socket_fails") ? fail_with("socket_errno") : (int)vc_int("socket_fd", 0, INT_MAX);
}

static void setup_fd()
{
    g_fd = (int)vc_int("fd", 0, INT_MAX);
    g_family = (family)vc_int("family", 0, 2);
}

template <class F> static int outcome(F &&f, int &code)
{
    // 0 returned, 1 system_error, 2 logic_error
    try
    {
        f();
    }
    catch (const std::system_error &e)
    {
        code = e.code().value();
        return 1;
    }
    catch (const std::logic_error &)
    {
        return 2;
    }
    return 0;
}

// ================================================================ C05
CONTRACT(c05_recv)
{
    setup_fd();
    nsockudp s(g_fd, g_family);
    any_buffer(s.rbuffer());
    any_buffer(s.wbuffer());
    any_path();
    s.peer_ = std::make_tuple(std::string(g_path, (size_t)g_path_len), -1);
    any_reported(g_family);
    view v = view_of(s.rbuffer()), w = view_of(s.wbuffer());
    long room = s.rbuffer().cap_ - s.rbuffer().offset_;
    dg_len = vc_len("dg_len", 0, 65536);
    dg_data = (const char *)vc_alloc("datagram", dg_len);
    int code = 0;
    std::tuple<std::string, int, family> t;
    int o = outcome([&] { t = s.recv(); }, code);
    same_content(s.wbuffer(), w, "C05.recv.write_buffer_untouched");
    if (o == 0)
    {
        vc_assert(!g_failed, "C05.recv.failure_is_reported");
        vc_assert(calls == 1, "C05.recv.one_call");
        vc_assert(dg_taken == dg_len || (dg_len > room && dg_taken == room), "C05.recv.offers_all_free_capacity");
        vc_assert(s.rbuffer().size() == v.n + dg_taken, "C05.recv.appends_the_datagram");
        vc_assert_eq_bytes(s.rbuffer().rawbuf(), v.bytes, v.n, "C05.recv.old_content_kept");
        vc_assert_eq_bytes(s.rbuffer().rawbuf() + v.n, dg_data, dg_taken, "C05.recv.appends_the_datagram");
        if (g_family == family::local)
        {
            vc_assert((long)std::get<0>(t).size() == g_path_len, "C05.recv.unix_path");
            vc_assert_eq_bytes(std::get<0>(t).data(), g_path, g_path_len, "C05.recv.unix_path");
            vc_assert(std::get<2>(t) == family::local, "C05.recv.unix_family");
        }
        else
            check_reported(t);
    }
    else
    {
        vc_assert(o == 1 && g_failed && code == g_err, "C05.recv.failure_is_a_system_error_with_its_code");
        if (!ntop_called)
            same_content(s.rbuffer(), v, "C05.recv.failed_leaves_buffer");
    }
    well_formed(s.rbuffer(), "C05.recv.buffer_well_formed");
}

static void c05_send(bool unix_path)
{
    setup_fd();
    vc_assume((g_family == family::local) == unix_path);
    nsockudp s(g_fd, g_family);
    any_buffer(s.wbuffer());
    any_buffer(s.rbuffer());
    view v = view_of(s.wbuffer()), rv = view_of(s.rbuffer());
    out_bytes = v.bytes;
    out_len = v.n;
    int code = 0, o;
    if (unix_path)
    {
        any_path();
        if (vc_bool("as_string"))
        {
            std::string path(g_path, (size_t)g_path_len);
            o = outcome([&] { s.send_unix(path); }, code);
        }
        else
            o = outcome([&] { s.send_unix(g_path); }, code);
    }
    else
    {
        any_ip(false);
        if (vc_bool("as_string"))
        {
            std::string ip(ip_text, (size_t)ip_len);
            o = outcome([&] { s.send(ip, g_port); }, code);
        }
        else
            o = outcome([&] { s.send(ip_text, g_port); }, code);
        check_text(o);
    }
    same_content(s.rbuffer(), rv, "C05.send.read_buffer_untouched");
    if (o == 0)
    {
        vc_assert(!g_failed, "C05.send.failure_is_reported");
        vc_assert(calls == 1, "C05.send.passed_once");
        vc_assert(s.wbuffer().size() == v.n - dg_taken, "C05.send.consumes_what_was_accepted");
        vc_assert_eq_bytes(s.wbuffer().rawbuf(), (const char *)v.bytes + dg_taken, v.n - dg_taken, "C05.send.rest_kept");
    }
    else
    {
        same_content(s.wbuffer(), v, "C05.send.failed_leaves_buffer");
        if (o == 1)
            vc_assert(g_failed && code == g_err, "C05.send.failure_code");
        else
            vc_assert(calls == 0 && pton_called, "C05.send.bad_text_rejected_before_sending");
    }
    well_formed(s.wbuffer(), "C05.send.buffer_well_formed");
}

CONTRACT(c05_send_ip) { c05_send(false); }
CONTRACT(c05_send_unix) { c05_send(true); }

// ================================================================ C07
CONTRACT(c07_bind_ip)
{
    setup_fd();
    vc_assume(g_family != family::local);
    nsocktcp s(g_fd, g_family);
    any_ip(true);
    int code = 0, o;
    if (!ip_text && vc_bool("port_only"))
        o = outcome([&] { s.bind(g_port); }, code);
    else
        o = outcome([&] { s.bind(ip_text, g_port); }, code);
    vc_assert(pton_called == (ip_text != nullptr), "C07.bind.any_address_when_no_text");
    check_text(o);
    if (o == 0)
        vc_assert(calls == 1 && !g_failed, "C07.bind.called_once");
    else if (o == 1)
        vc_assert(g_failed && code == g_err, "C07.bind.failure_code");
    else
        vc_assert(calls == 0 && so_calls == 0 && pton_called, "C07.bind.bad_text_rejected_first");
}

CONTRACT(c07_bind_ip_udp_string)
{
    setup_fd();
    vc_assume(g_family != family::local);
    nsockudp s(g_fd, g_family);
    any_ip(false);
    std::string ip(ip_text, (size_t)ip_len);
    int code = 0;
    int o = outcome([&] { s.bind(ip, g_port); }, code);
    check_text(o);
    if (o == 0)
        vc_assert(calls == 1 && !g_failed && pton_called, "C07.bind.called_once");
    else if (o == 1)
        vc_assert(g_failed && code == g_err, "C07.bind.failure_code");
    else
        vc_assert(calls == 0 && so_calls == 0, "C07.bind.bad_text_rejected_first");
}

CONTRACT(c07_bind_unix)
{
    setup_fd();
    g_family = family::local;
    nsocktcp s(g_fd, g_family);
    any_path();
    bool remove = vc_bool("remove");
    int code = 0, o;
    if (vc_bool("as_string"))
    {
        std::string path(g_path, (size_t)g_path_len);
        o = outcome([&] { s.bind_unix(path, remove); }, code);
    }
    else
        o = outcome([&] { s.bind_unix(g_path, remove); }, code);
    vc_assert(unlink_called == remove, "C07.bind_unix.unlinks_exactly_when_asked");
    vc_assert(calls == 1, "C07.bind_unix.called_once");
    if (o == 0)
    {
        vc_assert(!g_failed, "C07.bind_unix.failure_reported");
        auto t = s.connpeer();
        auto t1 = s.sockname();
        auto t2 = s.peername();
        vc_assert((long)std::get<0>(t).size() == g_path_len && std::get<2>(t) == family::local, "C07.recorded_path");
        vc_assert_eq_bytes(std::get<0>(t).data(), g_path, g_path_len, "C07.recorded_path");
        vc_assert((long)std::get<0>(t1).size() == g_path_len && std::get<2>(t1) == family::local, "C07.sockname.recorded_path");
        vc_assert_eq_bytes(std::get<0>(t1).data(), g_path, g_path_len, "C07.sockname.recorded_path");
        vc_assert((long)std::get<0>(t2).size() == g_path_len && std::get<2>(t2) == family::local, "C07.peername.recorded_path");
        vc_assert_eq_bytes(std::get<0>(t2).data(), g_path, g_path_len, "C07.peername.recorded_path");
    }
    else
        vc_assert(o == 1 && g_failed && code == g_err, "C07.bind_unix.failure_code");
}

CONTRACT(c07_connect_ip)
{
    setup_fd();
    vc_assume(g_family != family::local);
    nsocktcp s(g_fd, g_family);
    any_ip(false);
    int code = 0, o;
    bool r = false;
    if (vc_bool("as_string"))
    {
        std::string ip(ip_text, (size_t)ip_len);
        o = outcome([&] { r = s.connect(ip, g_port); }, code);
    }
    else
        o = outcome([&] { r = s.connect(ip_text, g_port); }, code);
    check_text(o);
    if (o == 0)
    {
        vc_assert(calls == 1 && pton_called, "C07.connect.called_once");
        vc_assert(r == net_ok, "C09.connect.success_exactly_when_accepted_or_in_progress");
        auto t = s.connpeer();
        vc_assert((long)std::get<0>(t).size() == ip_len && std::get<1>(t) == g_port && std::get<2>(t) == g_family,
                  "C07.connpeer.recorded");
        vc_assert_eq_bytes(std::get<0>(t).data(), ip_text, ip_len, "C07.connpeer.recorded");
    }
    else
    {
        vc_assert(calls == 0, "C07.connect.bad_text_rejected_first");
        vc_assert(o == 2 || (g_failed && code == g_err), "C07.connect.failure_code");
    }
}

CONTRACT(c07_connect_unix)
{
    setup_fd();
    g_family = family::local;
    nsocktcp s(g_fd, g_family);
    any_path();
    int code = 0, o;
    bool r = false;
    if (vc_bool("as_string"))
    {
        std::string path(g_path, (size_t)g_path_len);
        o = outcome([&] { r = s.connect_unix(path); }, code);
    }
    else
        o = outcome([&] { r = s.connect_unix(g_path); }, code);
    vc_assert(o == 0 && calls == 1, "C07.connect_unix.called_once");
    vc_assert(r == net_ok, "C09.connect_unix.success_exactly_when_accepted_or_in_progress");
    auto t = s.connpeer();
    vc_assert((long)std::get<0>(t).size() == g_path_len && std::get<2>(t) == family::local, "C07.connpeer.recorded_path");
    vc_assert_eq_bytes(std::get<0>(t).data(), g_path, g_path_len, "C07.connpeer.recorded_path");
}

CONTRACT(c07_names)
{
    setup_fd();
    vc_assume(g_family != family::local);
    const nsocktcp s(g_fd, g_family);
    any_reported(g_family);
    bool peer = vc_bool("peer");
    int code = 0;
    std::tuple<std::string, int, family> t;
    int o = outcome([&] { t = peer ? s.peername() : s.sockname(); }, code);
    vc_assert(calls == (peer ? 100 : 1), "C07.names.own_call");
    if (o == 0)
    {
        vc_assert(!g_failed, "C07.names.failure_reported");
        check_reported(t);
    }
    else
        vc_assert(o == 1 && g_failed && code == g_err, "C07.names.failure_code");
}

// ================================================================ C08
static int value_at(int k)
{
    int x;
    memcpy(&x, so_value + 4 * k, 4);
    return x;
}
static int reported_at(int k)
{
    int x;
    x = rep_value[k];
    return x;
}

template <class F> static void setter(F &&f, int level, int name, int len)
{
    int code = 0;
    int o = outcome(f, code);
    vc_assert(so_calls == 1 && so_level == level && so_name == name && so_len == len, "C08.set.exactly_its_own_option");
    vc_assert(o == (g_failed ? 1 : 0), "C08.set.failure_reported");
    if (o)
        vc_assert(code == g_err, "C08.set.failure_code");
}

template <class F> static bool getter(F &&f, int level, int name, int len)
{
    int code = 0;
    int o = outcome(f, code);
    vc_assert(so_calls == 1 && so_level == level && so_name == name && so_len == len, "C08.get.exactly_its_own_option");
    vc_assert(o == (g_failed ? 1 : 0), "C08.get.failure_reported");
    if (o)
        vc_assert(code == g_err, "C08.get.failure_code");
    return o == 0;
}

#define SET_BOOL(cname, cls, call, level, name)                                                                  \
    CONTRACT(cname)                                                                                               \
    {                                                                                                             \
        setup_fd();                                                                                               \
        cls s(g_fd, g_family);                                                                                    \
        bool b = vc_bool("enable");                                                                               \
        setter([&] { s.call(b); }, level, name, 4);                                                               \
        vc_assert((value_at(0) != 0) == b, "C08.set.value");                                                      \
    }
#define GET_BOOL(cname, cls, call, level, name)                                                                  \
    CONTRACT(cname)                                                                                               \
    {                                                                                                             \
        setup_fd();                                                                                               \
        const cls s(g_fd, g_family);                                                                              \
        bool b = false;                                                                                           \
        if (getter([&] { b = s.call(); }, level, name, 4))                                                        \
            vc_assert(b == (reported_at(0) != 0), "C08.get.value");                                               \
    }
#define SET_INT(cname, cls, call, level, name)                                                                   \
    CONTRACT(cname)                                                                                               \
    {                                                                                                             \
        setup_fd();                                                                                               \
        cls s(g_fd, g_family);                                                                                    \
        int v = (int)vc_int("value", INT_MIN, INT_MAX);                                                           \
        setter([&] { s.call(v); }, level, name, 4);                                                               \
        vc_assert(value_at(0) == v, "C08.set.value");                                                             \
    }
#define GET_INT(cname, cls, call, level, name)                                                                   \
    CONTRACT(cname)                                                                                               \
    {                                                                                                             \
        setup_fd();                                                                                               \
        const cls s(g_fd, g_family);                                                                              \
        int v = 0;                                                                                                \
        if (getter([&] { v = s.call(); }, level, name, 4))                                                        \
            vc_assert(v == reported_at(0), "C08.get.value");                                                      \
    }

SET_BOOL(c08_set_reuseaddr, nsocktcp, set_so_reuseaddr, SOL_SOCKET, SO_REUSEADDR)
GET_BOOL(c08_get_reuseaddr, nsocktcp, get_so_reuseaddr, SOL_SOCKET, SO_REUSEADDR)
SET_BOOL(c08_set_reuseport, nsockudp, set_so_reuseport, SOL_SOCKET, SO_REUSEPORT)
GET_BOOL(c08_get_reuseport, nsockudp, get_so_reuseport, SOL_SOCKET, SO_REUSEPORT)
SET_INT(c08_set_rcvbuf, nsocktcp, set_so_rcvbuf, SOL_SOCKET, SO_RCVBUF)
GET_INT(c08_get_rcvbuf, nsocktcp, get_so_rcvbuf, SOL_SOCKET, SO_RCVBUF)
SET_INT(c08_set_sndbuf, nsockudp, set_so_sndbuf, SOL_SOCKET, SO_SNDBUF)
GET_INT(c08_get_sndbuf, nsockudp, get_so_sndbuf, SOL_SOCKET, SO_SNDBUF)
SET_INT(c08_set_rcvlowat, nsocktcp, set_so_rcvlowat, SOL_SOCKET, SO_RCVLOWAT)
GET_INT(c08_get_rcvlowat, nsocktcp, get_so_rcvlowat, SOL_SOCKET, SO_RCVLOWAT)
SET_INT(c08_set_sndlowat, nsocktcp, set_so_sndlowat, SOL_SOCKET, SO_SNDLOWAT)
GET_INT(c08_get_sndlowat, nsocktcp, get_so_sndlowat, SOL_SOCKET, SO_SNDLOWAT)
SET_BOOL(c08_set_keepalive, nsocktcp, set_so_keepalive, SOL_SOCKET, SO_KEEPALIVE)
GET_BOOL(c08_get_keepalive, nsocktcp, get_so_keepalive, SOL_SOCKET, SO_KEEPALIVE)
SET_BOOL(c08_set_nodelay, nsocktcp, set_tcp_nodelay, IPPROTO_TCP, TCP_NODELAY)
GET_BOOL(c08_get_nodelay, nsocktcp, get_tcp_nodelay, IPPROTO_TCP, TCP_NODELAY)
SET_BOOL(c08_set_broadcast, nsockudp, set_so_broadcast, SOL_SOCKET, SO_BROADCAST)
GET_BOOL(c08_get_broadcast, nsockudp, get_so_broadcast, SOL_SOCKET, SO_BROADCAST)
GET_INT(c08_get_error, nsocktcp, get_so_error, SOL_SOCKET, SO_ERROR)

CONTRACT(c08_set_linger)
{
    setup_fd();
    nsocktcp s(g_fd, g_family);
    bool on = vc_bool("on");
    int sec = (int)vc_int("seconds", INT_MIN, INT_MAX);
    setter([&] { s.set_so_linger(on, sec); }, SOL_SOCKET, SO_LINGER, 8);
    vc_assert((value_at(0) != 0) == on && value_at(1) == sec, "C08.set.value");
}

CONTRACT(c08_get_linger)
{
    setup_fd();
    const nsocktcp s(g_fd, g_family);
    std::pair<bool, int> p;
    if (getter([&] { p = s.get_so_linger(); }, SOL_SOCKET, SO_LINGER, 8))
        vc_assert(p.first == (reported_at(0) != 0) && p.second == reported_at(1), "C08.get.value");
}

CONTRACT(c08_blocking_mode)
{
    setup_fd();
    nsocktcp s(g_fd, g_family);
    fl_flags = (int)vc_int("flags", 0, INT_MAX);
    fl_may_fail = true;
    bool block = vc_bool("block");
    int code = 0;
    int o = outcome([&] { if (block) s.set_io_block(); else s.set_io_nonblock(); }, code);
    vc_assert(o == (g_failed ? 1 : 0), "C08.blocking_mode.failure_reported");
    if (o)
        vc_assert(code == g_err, "C08.blocking_mode.failure_code");
    else
    {
        vc_assert(fl_calls == 1, "C08.blocking_mode.set_once");
        vc_assert(fl_set == (block ? (fl_flags & ~O_NONBLOCK) : (fl_flags | O_NONBLOCK)), "C08.blocking_mode.other_flags_kept");
    }
}

// ================================================================ C09
CONTRACT(c09_shutdown)
{
    setup_fd();
    nsocktcp s(g_fd, g_family);
    long how = vc_int("how", 0, 2);
    s.shutdown((shut_mode)how);
    vc_assert(shut_calls == 1, "C09.shutdown.once");
    vc_assert(shut_how == (how == 0 ? SHUT_RD : how == 1 ? SHUT_WR : SHUT_RDWR), "C09.shutdown.only_the_direction_asked_for");
}

CONTRACT(c09_listen)
{
    setup_fd();
    nsocktcp s(g_fd, g_family);
    int backlog = (int)vc_int("backlog", INT_MIN, INT_MAX);
    int code = 0;
    int o = outcome([&] { s.listen(backlog); }, code);
    vc_assert(listen_calls == 1 && listen_backlog == backlog, "C09.listen.backlog");
    vc_assert(o == (g_failed ? 1 : 0) && (!o || code == g_err), "C09.listen.failure_reported");
}

CONTRACT(c09_check_connect)
{
    setup_fd();
    const nsocktcp s(g_fd, g_family);
    bool b = false;
    if (getter([&] { b = s.check_connect(); }, SOL_SOCKET, SO_ERROR, 4))
        vc_assert(b == (reported_at(0) == 0), "C09.check_connect.exactly_when_no_pending_error");
}

CONTRACT(c09_connect)
{
    setup_fd();
    nsocktcp s(g_fd, g_family);
    int code = 0, o;
    bool r = false;
    if (g_family == family::local)
    {
        any_path();
        o = outcome([&] { r = s.connect_unix(g_path); }, code);
        vc_assert(o == 0, "C09.connect.no_exception");
    }
    else
    {
        any_ip(false);
        o = outcome([&] { r = s.connect(ip_text, g_port); }, code);
        check_text(o);
    }
    if (o == 0)
        vc_assert(calls == 1 && r == net_ok, "C09.connect.success_exactly_when_accepted_or_in_progress");
}

CONTRACT(c09_create)
{
    g_family = (family)vc_int("family", 0, 2);
    bool tcp = vc_bool("tcp");
    int code = 0;
    std::shared_ptr<nsocktcp> t;
    std::shared_ptr<nsockudp> u;
    int o = outcome([&] { if (tcp) t = nio_factory::get_nsocktcp(g_family); else u = nio_factory::get_nsockudp(g_family); }, code);
    vc_assert(sock_calls == 1 && sock_domain == af_of(g_family), "C09.create.domain");
    vc_assert((sock_type & 0xf) == (tcp ? SOCK_STREAM : SOCK_DGRAM), "C09.create.type");
    vc_assert(o == (g_failed ? 1 : 0) && (!o || code == g_err), "C09.create.failure_reported");
    if (!o && tcp)
        vc_assert(t->sockfamily() == g_family && !t->is_closed(), "C09.create.family");
    if (!o && !tcp)
        vc_assert(u->sockfamily() == g_family && !u->is_closed(), "C09.create.family");
}

// accept: the kernel hands over connections one per call until none is pending
static int acc_fds[8], acc_n, acc_calls, acc_asked;
static bool acc_dry, acc_failed;
static int acc_closed;
static bool acc_any;
static int accept_any(int fd);
extern "C" int __wrap_accept(int fd, sockaddr *, socklen_t *)
{
    if (acc_any)
        return accept_any(fd);
    vc_assert(fd == g_fd, "C09.accept.descriptor");
    vc_assert(!acc_dry && !acc_failed, "C09.accept.stops_when_none_pending");
    vc_assert(acc_n < acc_asked, "C09.accept.at_most_the_requested_number");
    ++acc_calls;
    if (acc_n == 3 || vc_bool("accept_fails"))
    {
        g_err = (int)vc_int("accept_errno", 1, 133);
        errno = g_err;
        if (g_err == EAGAIN || g_err == EWOULDBLOCK)
            acc_dry = true;
        else if (g_err != EINTR && g_err != ECONNABORTED)
            acc_failed = true;
        vc_assume(acc_calls < 4);
        return -1;
    }
    int c = (int)vc_int("conn", 0, INT_MAX);
    vc_assume(c != g_fd);
    for (int i = 0; i < acc_n; ++i)
        vc_assume(acc_fds[i] != c);
    acc_fds[acc_n++] = c;
    return c;
}

CONTRACT(c09_accept)
{
    setup_fd();
    nsocktcp s(g_fd, g_family);
    if (g_family == family::local)
        s.peer_ = std::make_tuple(std::string("lp"), -1);
    acc_asked = (int)vc_int("batch", 0, 3);
    if (acc_asked == 3)
        acc_asked = INT_MAX;
    int code = 0;
    std::vector<std::shared_ptr<nsocktcp>> v;
    int o = outcome([&] { v = s.accept(acc_asked); }, code);
    if (o == 0)
    {
        vc_assert((int)v.size() == acc_n, "C09.accept.returns_every_connection");
        for (int i = 0; i < acc_n; ++i)
        {
            vc_assert(v[i]->fd() == acc_fds[i] && !v[i]->is_closed(), "C09.accept.each_once_in_order");
            vc_assert(v[i]->sockfamily() == g_family, "C09.accept.family");
            if (g_family == family::local)
                vc_assert(std::get<0>(v[i]->peer_) == "lp", "C09.accept.unix_path");
        }
        vc_assert(!acc_failed || acc_n > 0, "C09.accept.failure_reported");
        vc_assert(acc_dry || acc_failed || acc_n == acc_asked, "C09.accept.accepts_until_none_is_pending");
    }
    else
    {
        vc_assert(o == 1 && code == g_err, "C09.accept.failure_is_a_system_error_with_its_code");
        vc_assert(acc_n == 0, "C09.accept.no_connection_lost_on_failure");
        vc_assert(acc_failed, "C09.accept.no_spurious_failure");
    }
}

// Any number of connections, interruptions and aborted connections.  The list is seen through what appending to it
// promises: the new entry is the last one, the others stay.
static long any_n, any_kept;                       // connections handed over by the kernel, kept in the list
static long any_asked;
static int any_last;                               // the last one handed over
static bool any_dry, any_failed, any_plenty;       // plenty: natively, thousands of connections are waiting
static int any_fds[5000];
static std::shared_ptr<nsocktcp> *any_list, *any_slot;
static int accept_any(int fd)
{
    vc_assert(fd == g_fd, "C09.accept.descriptor");
    vc_assert(!any_dry && !any_failed, "C09.accept.stops_when_none_pending");
    vc_assert(any_n < any_asked, "C09.accept.at_most_the_requested_number");
    vc_assert(any_kept == any_n, "C09.accept.returns_every_connection");
    bool plenty = any_plenty && !vc_symbolic() && any_n < 5000;
    if (!plenty && vc_bool("accept_fails"))
    {
        g_err = (int)vc_int("accept_errno", 1, 133);
        errno = g_err;
        if (g_err == EAGAIN || g_err == EWOULDBLOCK)
            any_dry = true;
        else if (g_err != EINTR && g_err != ECONNABORTED)
            any_failed = true;
        return -1;
    }
    any_last = plenty ? 1000000 + (int)any_n : (int)vc_int("conn", 0, INT_MAX);
    vc_assume(any_last != g_fd);
    if (!vc_symbolic())
    {
        vc_assume(any_n < (any_plenty ? 5000 : 8));
        if (!any_plenty)
            for (long i = 0; i < any_n; ++i)
                vc_assume(any_fds[i] != any_last);
        any_fds[any_n] = any_last;
    }
    ++any_n;
    if (!vc_symbolic())
        any_kept = any_n;
    return any_last;
}
typedef std::vector<std::shared_ptr<nsocktcp>> accepted;
std::shared_ptr<nsocktcp> &append_stub(accepted *self, nsocktcp *&&p)
    __asm__("vc_stub._ZNSt6vectorISt10shared_ptrIN5cppev8nsocktcpEESaIS3_EE12emplace_backIJPS2_EEERS3_DpOT_");
std::shared_ptr<nsocktcp> &append_stub(accepted *self, nsocktcp *&&p)
{
    vc_assert(any_kept + 1 == any_n && p->fd() == any_last && !p->is_closed(), "C09.accept.each_once_in_order");
    vc_assert(p->sockfamily() == g_family, "C09.accept.family");
    if (any_kept == 0)
    {
        vc_phase();
        self->_M_impl._M_start = self->_M_impl._M_finish = any_list;
    }
    new (any_slot) std::shared_ptr<nsocktcp>(p);
    ++any_kept;
    self->_M_impl._M_end_of_storage = ++self->_M_impl._M_finish;
    return *any_slot;
}
std::shared_ptr<nsocktcp> &last_stub(accepted *self)
    __asm__("vc_stub._ZNSt6vectorISt10shared_ptrIN5cppev8nsocktcpEESaIS3_EE4backEv");
std::shared_ptr<nsocktcp> &last_stub(accepted *)
{
    vc_assert(any_kept > 0, "C09.accept.each_once_in_order");
    return *any_slot;
}
CONTRACT(c09_accept_any)
{
    setup_fd();
    nsocktcp s(g_fd, g_family);
    acc_any = true;
    any_asked = vc_int("batch", 0, INT_MAX);
    any_plenty = vc_bool("plenty");
    if (vc_symbolic())
    {
        any_list = (std::shared_ptr<nsocktcp> *)operator new(16UL << 31);
        any_slot = (std::shared_ptr<nsocktcp> *)operator new(16);
    }
    int code = 0;
    auto *v = new std::vector<std::shared_ptr<nsocktcp>>;
    int o = outcome([&] { new (v) std::vector<std::shared_ptr<nsocktcp>>(s.accept((int)any_asked)); }, code);
    if (o == 0)
    {
        vc_assert((long)v->size() == any_n, "C09.accept.returns_every_connection");
        if (!vc_symbolic())
            for (long i = 0; i < any_n; ++i)
                vc_assert((*v)[i]->fd() == any_fds[i] && !(*v)[i]->is_closed() && (*v)[i]->sockfamily() == g_family,
                          "C09.accept.each_once_in_order");
        vc_assert(!any_failed || any_n > 0, "C09.accept.failure_reported");
        vc_assert(any_dry || any_failed || any_n == any_asked, "C09.accept.accepts_until_none_is_pending");
    }
    else
    {
        vc_assert(o == 1 && code == g_err, "C09.accept.failure_is_a_system_error_with_its_code");
        vc_assert(any_n == 0, "C09.accept.no_connection_lost_on_failure");
        vc_assert(any_failed, "C09.accept.no_spurious_failure");
    }
}
