// C29: subprocesses, with the descriptors, the child and the signals simulated.
#include "vc.h"
#include <fcntl.h>
#include "utils.cc"
#include "sysconfig.cc"
#include "nio.cc"
#include "subprocess.cc"
#include <system_error>
using namespace cppev;

static int pick(const char *name, int hi)
{
    long v = vc_int(name, 0, hi);
    if (v == 0) return 0;
    if (v == 1) return 1;
    if (v == 2) return 2;
    if (v == 3) return 3;
    if (v == 4) return 4;
    if (v == 5) return 5;
    return 6;
}
template <class Fn> static int outcome(Fn &&f, int &code)
{
    // 0 returned, 1 system_error, 2 other
    try
    {
        f();
    }
    catch (const std::system_error &e)
    {
        code = e.code().value();
        return 1;
    }
    catch (const std::exception &)
    {
        return 2;
    }
    return 0;
}
// ---------------------------------------------------------------- descriptors: 0..2 and the ends of pipes
static const int MAXFD = 40, PID = 4321;
enum { CLOSED, OTHER, READ_END, WRITE_END };
static int g_kind[MAXFD], g_pipe[MAXFD];           // what a descriptor is, and of which pipe (in order of creation)
static bool g_cloexec[MAXFD], g_nonblock[MAXFD];
static int g_next_fd, g_npipes;
static bool g_child;                               // this is the child's side of the fork
static bool g_exec_may_fail;
static int g_forks, g_execs, g_exits;
static int g_pipe_fails_at = -1, g_fork_err, g_setup_err;
static int g_wired[3] = { -1, -1, -1 };            // pipe the child has as its descriptor 0, 1, 2
// the child
static bool g_exited, g_reaped;
static int g_status, g_polls_before_exit, g_waitpid_err;
static const char *g_text[3];                      // output on 1 and 2
static int g_len[3], g_given[3], g_made[3];
static char g_input[64];
static int g_ninput, g_room = 1 << 20;             // input the child has received; room left in the pipe
static int g_signals, g_signal, g_kill_err;
static bool g_read_one;                            // data arrives in small pieces

static void reset_descriptors()
{
    for (int i = 0; i < MAXFD; ++i)
    {
        g_kind[i] = i < 3 ? OTHER : CLOSED;
        g_cloexec[i] = g_nonblock[i] = false;
    }
    g_next_fd = 3;
    g_npipes = 0;
}
static bool valid(int fd) { return fd >= 0 && fd < MAXFD && g_kind[fd] != CLOSED; }
static int role_of(int fd)
{
    // standard stream of the child the pipe is wired to
    for (int i = 0; i < 3; ++i)
        if (g_wired[i] == g_pipe[fd])
            return i;
    return -1;
}
static int open_ends()
{
    int n = 0;
    for (int i = 3; i < MAXFD; ++i)
        n += g_kind[i] != CLOSED;
    return n;
}
static bool writable_by_caller(int role)
{
    for (int i = 3; i < MAXFD; ++i)
        if (g_kind[i] == WRITE_END && g_pipe[i] == g_wired[role])
            return true;
    return false;
}
static bool readable_by_caller(int role)
{
    for (int i = 3; i < MAXFD; ++i)
        if (g_kind[i] == READ_END && g_pipe[i] == g_wired[role])
            return true;
    return false;
}
static long (*on_write)(const void *, long);
static bool g_any_history;                         // the child ends at any time, or never
static bool g_drained[3];                          // everything there has been read after the end
static void drained(int r)
{
    if (g_exited)
        g_drained[r] = true;
}
static const int PIPE_SIZE = 5;
static int g_polls;
static void child_runs(int n)
{
    for (int r = 1; r <= 2; ++r)
        for (int i = 0; i < n; ++i)
            if (g_made[r] < g_len[r] && g_made[r] < g_given[r] + PIPE_SIZE)
                ++g_made[r];
}
// read_all as its callers see it (c03_read_all): everything there is
extern "C" int stub_read_all(nstream *s, int) asm("vc_stub._ZN5cppev7nstream8read_allEi");
extern "C" int stub_read_all(nstream *s, int)
{
    int fd = s->fd();
    vc_assert(valid(fd) && g_kind[fd] == READ_END && g_nonblock[fd], "C29.output.read_from_the_childs_output");
    drained(role_of(fd));
    return 0;
}
static void (*on_exec)(const char *, char *const *, char **);
static int make_pipe(int *fds, bool cloexec, bool nonblock)
{
    vc_assert(g_forks == 0, "C29.start.pipes_before_the_child");
    if (g_pipe_fails_at == g_npipes)
    {
        errno = g_setup_err;
        return -1;
    }
    for (int i = 0; i < 2; ++i)
    {
        int fd = g_next_fd++;
        g_kind[fd] = i == 0 ? READ_END : WRITE_END;
        g_pipe[fd] = g_npipes;
        g_cloexec[fd] = cloexec;
        g_nonblock[fd] = nonblock;
        fds[i] = fd;
    }
    ++g_npipes;
    return 0;
}
extern "C"
{
int __wrap_pipe(int *fds) { return make_pipe(fds, false, false); }
int __wrap_pipe2(int *fds, int flags) { return make_pipe(fds, (flags & O_CLOEXEC) != 0, (flags & O_NONBLOCK) != 0); }
int __wrap_fcntl(int fd, int cmd, long arg)
{
    vc_assert(valid(fd), "C29.descriptor.open_when_used");
    if (cmd == F_GETFL)
        return g_nonblock[fd] ? O_NONBLOCK : 0;
    if (cmd == F_SETFL)
        g_nonblock[fd] = (arg & O_NONBLOCK) != 0;
    if (cmd == F_GETFD)
        return g_cloexec[fd] ? FD_CLOEXEC : 0;
    if (cmd == F_SETFD)
        g_cloexec[fd] = (arg & FD_CLOEXEC) != 0;
    return 0;
}
int __wrap_close(int fd)
{
    vc_assert(valid(fd), "C29.descriptor.closed_once");
    g_kind[fd] = CLOSED;
    return 0;
}
int __wrap_dup2(int from, int to)
{
    vc_assert(g_child, "C29.start.callers_streams_untouched");
    vc_assert(valid(from) && to >= 0 && to < 3, "C29.start.wired");
    g_kind[to] = g_kind[from];
    g_pipe[to] = g_pipe[from];
    g_nonblock[to] = g_nonblock[from];
    g_cloexec[to] = false;
    return to;
}
pid_t __wrap_fork()
{
    ++g_forks;
    if (g_fork_err)
    {
        errno = g_fork_err;
        return -1;
    }
    return g_child ? 0 : PID;
}
int __wrap_execvp(const char *file, char *const *argv)
{
    vc_assert(g_child, "C29.start.only_the_child_is_replaced");
    ++g_execs;
    on_exec(file, argv, environ);
    if (g_exec_may_fail && vc_bool("exec_fails"))
    {
        errno = ENOENT;
        return -1;
    }
    vc_co_yield();
    return -1;
}
void __wrap_exit(int)
{
    // runs the exit handlers and writes the pending output of the caller once more
    vc_assert(false, "C29.start.child_never_runs_the_callers_code");
    vc_stop();
}
void __wrap__exit(int code)
{
    vc_assert(g_child, "C29.failure.never_ends_the_caller");
    vc_assert(g_execs == 1 && code != 0, "C29.start.child_reports_a_failing_exec");
    ++g_exits;
    vc_co_yield();
}
pid_t __wrap_waitpid(pid_t pid, int *status, int options)
{
    vc_assert(pid == PID, "C29.reap.its_own_child");
    if (g_waitpid_err)
    {
        errno = g_waitpid_err;
        return -1;
    }
    if (g_reaped)
    {
        // the number may belong to somebody else by now
        vc_assert(false, "C29.reap.once");
        errno = ECHILD;
        return -1;
    }
    if (g_any_history)
        g_exited = vc_bool("ended");
    else if (!g_exited)
    {
        vc_assert(++g_polls < 40, "C29.wait.drains_the_child_until_it_ends");
        bool ends = g_polls_before_exit-- <= 0;
        child_runs(ends ? PIPE_SIZE : 1);
        // it can only end when its output has found room in the pipes
        g_exited = ends && g_made[1] == g_len[1] && g_made[2] == g_len[2];
    }
    if (!g_exited)
    {
        vc_assert((options & WNOHANG) != 0, "C29.poll.does_not_block");
        return 0;
    }
    g_reaped = true;
    *status = g_status;
    return PID;
}
int __wrap_kill(pid_t pid, int sig)
{
    vc_assert(pid == PID && !g_reaped, "C29.signal.only_its_own_child");
    if (g_kill_err)
    {
        errno = g_kill_err;
        return -1;
    }
    ++g_signals;
    g_signal = sig;
    return 0;
}
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    vc_assert(valid(fd) && g_kind[fd] == READ_END && g_nonblock[fd], "C29.output.read_from_the_childs_output");
    int r = role_of(fd);
    vc_assert(r == 1 || r == 2, "C29.output.read_from_the_childs_output");
    long avail = g_made[r] - g_given[r];
    if (avail > (long)n)
        avail = (long)n;
    if (avail == 0 && n > 0)
    {
        drained(r);
        if (g_exited && !writable_by_caller(r))
            return 0;
        errno = EAGAIN;
        return -1;
    }
    if (g_read_one && avail > 1)
        avail = 1;
    memcpy(buf, g_text[r] + g_given[r], avail);
    g_given[r] += (int)avail;
    return avail;
}
ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
    vc_assert(valid(fd) && g_kind[fd] == WRITE_END && g_nonblock[fd] && role_of(fd) == 0, "C29.input.written_to_the_childs_input");
    if (g_exited && !readable_by_caller(0))
    {
        // nobody can read this any more; the write raises SIGPIPE, which ends the process unless handled
        vc_assert(false, "C29.failure.never_ends_the_caller");
        errno = EPIPE;
        return -1;
    }
    if (on_write)
        return on_write(buf, (long)n);
    long k = (long)n < g_room ? (long)n : g_room;
    if (k == 0)
    {
        errno = EAGAIN;
        return -1;
    }
    vc_assert(g_ninput + k <= (long)sizeof(g_input), "C29.input.nothing_but_the_input");
    memcpy(g_input + g_ninput, buf, k);
    g_ninput += (int)k;
    g_room -= (int)k;
    return k;
}
int __wrap_nanosleep(const struct timespec *, struct timespec *)
{
    if (g_any_history)
        return 0;
    // the child goes on
    child_runs(1);
    g_room += 1;
    return 0;
}
int __wrap_sigprocmask(int, const sigset_t *, sigset_t *) { return 0; }
int __wrap_pthread_sigmask(int, const sigset_t *, sigset_t *) { return 0; }
}
// ---------------------------------------------------------------- starting
static const char *const CMDS[4] = { "ls", "/usr/bin/cat -v x/y", "./t  z", "a/b" };
static const char *const FILES[4] = { "ls", "/usr/bin/cat", "./t", "a/b" };
static const char *const ARGS[4][3] = { { "ls" }, { "cat", "-v", "x/y" }, { "t", "", "z" }, { "b" } };
static const int NARGS[4] = { 1, 3, 3, 1 };
static int g_cmd, g_nenv;
static std::vector<std::string> the_env()
{
    std::vector<std::string> v;
    if (g_nenv > 0)
        v.push_back("A=1");
    if (g_nenv > 1)
        v.push_back("PATH=/x y");
    return v;
}
static void check_exec(const char *file, char *const *argv, char **env)
{
    vc_assert(!strcmp(file, FILES[g_cmd]), "C29.start.file");
    for (int i = 0; i < NARGS[g_cmd]; ++i)
        vc_assert(argv[i] && !strcmp(argv[i], ARGS[g_cmd][i]), "C29.start.arguments");
    vc_assert(argv[NARGS[g_cmd]] == nullptr, "C29.start.arguments");
    const char *vars[2] = { "A=1", "PATH=/x y" };
    for (int i = 0; i < g_nenv; ++i)
        vc_assert(env[i] && !strcmp(env[i], vars[i]), "C29.start.environment");
    vc_assert(env[g_nenv] == nullptr, "C29.start.environment");
    vc_assert(g_kind[0] == READ_END && g_kind[1] == WRITE_END && g_kind[2] == WRITE_END, "C29.start.wired");
    vc_assert(g_pipe[0] != g_pipe[1] && g_pipe[0] != g_pipe[2] && g_pipe[1] != g_pipe[2], "C29.start.wired_apart");
    vc_assert(!g_nonblock[0] && !g_nonblock[1] && !g_nonblock[2], "C29.start.ordinary_streams");
    for (int i = 3; i < MAXFD; ++i)
        vc_assert(g_kind[i] == CLOSED || g_cloexec[i], "C29.start.child_has_only_its_streams");
    for (int i = 0; i < 3; ++i)
        g_wired[i] = g_pipe[i];
}
static void child_side(void *)
{
    subp_open child(CMDS[g_cmd], the_env());
    vc_assert(false, "C29.start.child_never_runs_the_callers_code");
}
// what the child's side of the construction does: fixes which pipe is which
static void run_child_side()
{
    reset_descriptors();
    g_child = true;
    on_exec = check_exec;
    char **mine = environ;
    int co = vc_co_new(child_side, nullptr);
    vc_co_resume(co);
    environ = mine;
    vc_assert(g_execs == 1, "C29.start.runs_the_command");
    g_child = false;
    g_forks = 0;
    reset_descriptors();
}
static void started()
{
    vc_assert(g_forks == 1, "C29.start.one_child");
    vc_assert(!writable_by_caller(1) && !writable_by_caller(2), "C29.start.caller_keeps_only_its_own_ends");
    vc_assert(open_ends() <= 4, "C29.start.caller_keeps_only_its_own_ends");
    for (int i = 3; i < MAXFD; ++i)
        vc_assert(g_kind[i] == CLOSED || g_cloexec[i], "C29.start.not_inherited_by_other_children");
}
#ifndef ONLY_ENVIRONMENT
CONTRACT(c29_start)
{
    g_exec_may_fail = true;
    g_cmd = pick("command", 3);
    g_nenv = pick("environment", 2);
    run_child_side();
    {
        subp_open s(CMDS[g_cmd], the_env());
        started();
        vc_assert(s.pid() == PID, "C29.start.pid");
        vc_assert(s.stdout()[0] == 0 && s.stderr()[0] == 0, "C29.output.none_yet");
    }
    vc_assert(open_ends() == 0, "C29.end.descriptors_closed");
    vc_assert(g_kind[0] == OTHER && g_kind[1] == OTHER && g_kind[2] == OTHER, "C29.start.callers_streams_untouched");
}
CONTRACT(c29_start_fails)
{
    reset_descriptors();
    int what = pick("failing", 3), code = 0;
    g_setup_err = (int)vc_int("error", 1, 133);
    if (what < 3)
        g_pipe_fails_at = what;
    else
        g_fork_err = g_setup_err;
    int o = outcome([] { subp_open s("ls", {}); }, code);
    vc_assert(o == 1 && code == g_setup_err, "C29.failure.thrown");
    vc_assert(open_ends() == 0, "C29.failure.descriptors_closed");
}
static void any_child()
{
    static const char *const OUT[3] = { "", "x\0y\n", "hello, world" };
    static const int OUTLEN[3] = { 0, 4, 12 };
    int a = pick("stdout", 2), b = pick("stderr", 1);
    g_text[1] = OUT[a];
    g_len[1] = OUTLEN[a];
    g_text[2] = OUT[b];
    g_len[2] = OUTLEN[b];
    g_status = (int)vc_int("status", 0, 0xffff);
    g_polls_before_exit = pick("polls_before_exit", 3);
    g_read_one = vc_bool("small_pieces");
}
static void check_output(const subp_open &s)
{
    vc_assert(g_given[1] == g_len[1] && g_given[2] == g_len[2], "C29.output.all_available_after_wait");
    for (int i = 0; i < g_len[1]; ++i)
        vc_assert(s.stdout()[i] == g_text[1][i], "C29.output.stdout");
    for (int i = 0; i < g_len[2]; ++i)
        vc_assert(s.stderr()[i] == g_text[2][i], "C29.output.stderr");
    vc_assert(s.stdout()[g_len[1]] == 0 && s.stderr()[g_len[2]] == 0, "C29.output.terminated");
    vc_assert(s.returncode() == g_status, "C29.reap.status");
}
CONTRACT(c29_wait)
{
    run_child_side();
    any_child();
    subp_open s("ls", {});
    if (vc_bool("polled"))
    {
        bool done = s.poll();
        vc_assert(done == g_exited, "C29.poll.reports_the_end");
    }
    if (vc_bool("with_interval"))
        s.wait(std::chrono::microseconds(1));
    else
        s.wait();
    vc_assert(g_exited && g_reaped, "C29.wait.until_the_end");
    check_output(s);
    // again
    vc_assert(s.poll(), "C29.poll.again_after_the_end");
    s.wait();
    check_output(s);
    // a reaped child gets no more signals
    int code = 0, o = outcome([&s] { s.terminate(); }, code);
    vc_assert(o == 1 && code == ESRCH, "C29.signal.failure_thrown");
}
// any number of polls
CONTRACT(c29_wait_any)
{
    run_child_side();
    g_any_history = true;
    g_text[1] = g_text[2] = "";
    g_status = (int)vc_int("status", 0, 0xffff);
    subp_open s("ls", {});
    s.wait();
    vc_assert(g_exited && g_reaped && s.returncode() == g_status, "C29.wait.until_the_end");
    vc_assert(g_drained[1] && g_drained[2], "C29.output.all_available_after_wait");
    vc_assert(s.poll(), "C29.poll.again_after_the_end");
    s.wait();
    vc_assert(s.returncode() == g_status, "C29.reap.status");
}
CONTRACT(c29_exec_cmd)
{
    run_child_side();
    any_child();
    std::tuple<int, std::string, std::string> r = subprocess::exec_cmd("ls", {});
    vc_assert(g_exited && g_reaped && std::get<0>(r) == g_status, "C29.reap.status");
    vc_assert((int)std::get<1>(r).size() == g_len[1] && (int)std::get<2>(r).size() == g_len[2], "C29.exec_cmd.output_complete");
    vc_assert_eq_bytes(std::get<1>(r).data(), g_text[1], g_len[1], "C29.exec_cmd.stdout");
    vc_assert_eq_bytes(std::get<2>(r).data(), g_text[2], g_len[2], "C29.exec_cmd.stderr");
    vc_assert(open_ends() == 0, "C29.end.descriptors_closed");
}
CONTRACT(c29_input)
{
    run_child_side();
    g_text[1] = "out";
    g_len[1] = 3;
    g_text[2] = "";
    g_polls_before_exit = 8;
    g_room = pick("room", 6);
    subp_open s("ls", {});
    s.communicate("ab\0c", 4);
    s.communicate(std::string("de"));
    vc_assert(g_ninput <= 6, "C29.input.nothing_but_the_input");
    for (int i = 0; i < 6; ++i)
    {
        g_room += 1;
        s.communicate();
    }
    vc_assert(g_ninput == 6, "C29.input.reaches_the_child");
    vc_assert_eq_bytes(g_input, "ab\0cde", 6, "C29.input.in_order");
    s.wait();
    check_output(s);
    // writing to a child that is gone harms nobody
    int code = 0;
    outcome([&s] { s.communicate("zz", 2); }, code);
    vc_assert(g_ninput == 6 || readable_by_caller(0), "C29.input.nothing_but_the_input");
}
CONTRACT(c29_signal)
{
    run_child_side();
    g_polls_before_exit = 9;
    subp_open s("ls", {});
    int sig = (int)vc_int("signal", 1, 64), how = pick("how", 2), code = 0;
    g_kill_err = vc_bool("kill_fails") ? (int)vc_int("error", 1, 133) : 0;
    int o = outcome([&] { if (how == 0) s.terminate(); else if (how == 1) s.kill(); else s.send_signal(sig); }, code);
    if (g_kill_err)
        vc_assert(o == 1 && code == g_kill_err, "C29.signal.failure_thrown");
    else
        vc_assert(o == 0 && g_signals == 1 && g_signal == (how == 0 ? SIGTERM : how == 1 ? SIGKILL : sig), "C29.signal.the_signal_asked_for");
}
CONTRACT(c29_poll_fails)
{
    run_child_side();
    g_polls_before_exit = 9;
    subp_open s("ls", {});
    int code = 0;
    g_waitpid_err = (int)vc_int("error", 1, 133);
    vc_assume(g_waitpid_err != EINTR);
    int o = outcome([&] { s.poll(); }, code);
    vc_assert(o == 1 && code == g_waitpid_err, "C29.failure.thrown");
}
CONTRACT(c29_move)
{
    run_child_side();
    any_child();
    {
        subp_open s("ls", {});
        subp_open t(std::move(s));
        s = std::move(t);
        s.wait();
        check_output(s);
    }
    vc_assert(open_ends() == 0, "C29.end.descriptors_closed");
}
#endif
