"""Which contract files decide which property.  Contracts are the functions contract_<id>_* of those files."""
PROPS = {
    "C01": dict(files=["buffer.cc"]),
    "C02": dict(files=["buffer.cc"]),
    "C03": dict(files=["stream.cc"]),
    "C04": dict(files=["stream.cc"]),
    "C05": dict(files=["sock.cc"]),
    "C06": dict(files=["own.cc"]),
    "C07": dict(files=["sock.cc"]),
    "C08": dict(files=["sock.cc"]),
    "C09": dict(files=["sock.cc"]),
    "C10": dict(files=["evloop.cc", "evloop_any.cc"], note="proved for any number of reports and up to two handlers per descriptor, with the handler table and the queue of a pass seen through their contracts (equal_range, emplace/top/pop of std::priority_queue); on the real containers one pass with at most three handlers and two reports is explored besides (bounded)"),
    "C11": dict(files=["evloop.cc", "evrace.cc"]),
    "C12": dict(files=["reactor.cc", "reactor_priv.cc"]),
    "C13": dict(files=["reactor.cc"]),
    "C14": dict(files=["reactor_priv.cc"]),
    "C15": dict(files=["reactor_priv.cc"]),
    "C16": dict(files=["pool.cc", "pool_priv.cc", "pool_round.cc"], lemmas="pool.lean", note="proved for any number of queued tasks and of workers, per acquisition of the lock: a worker's round, an addition, the wake-ups and stop (c16_round, c16_add, c16_wakes, c16_stops_any), and that queue and stop flag are only touched under the lock; what follows for whole histories is proved from these postconditions in contracts/pool.lean. Batches up to three tasks; whole schedules of one worker with a second worker, producers and stop are explored in addition up to the stated number of tasks and actions (bounded)"),
    "C17": dict(files=["pool.cc"],
                note="a pool is proved for up to four threads, everything else without bound"),
    "C18": dict(files=["sched.cc", "sched_priv.cc"], level="other",
                note="the unbounded part (which handlers are triggered in a round, at what time, in what order, with the next due "
                     "times kept, and the wait between rounds: c18_forever_1/2/3, any intervals, any number of rounds, one to three "
                     "handlers) and the stop flag are proved; whole histories through the constructor and destructor, "
                     "with the public interface only, are bounded (a stated number of rounds)"),
    "C19": dict(files=["log.cc", "log_priv.cc"], level="other",
                note="proved: one round of the writer thread for any pending text and any short or interrupted writes, every operand "
                     "and endl for any text and earlier content, the destructor's hand-over, and that the shared state is only "
                     "touched under the lock (these compose by induction over rounds and statements); whole schedules of "
                     "logging threads, writer and destructor through the public interface are bounded by statements and preemptions"),
    "C20": dict(files=["locks.cc"]),
    "C21": dict(files=["locks.cc"]),
    "C22": dict(files=["sync.cc"]),
    "C23": dict(files=["shm.cc"]),
    "C24": dict(files=["shm.cc"]),
    "C25": dict(files=["text.cc"], level="other",
                note="proved for texts and separators of any length: split when the separator occurs up to once (quick) or "
                     "three times (thorough), join of up to three pieces; bounded: split at more places and the round "
                     "trip, checked for every text and separator of the stated short lengths"),
    "C26": dict(files=["text.cc"],
                note="every strip scan is proved for texts and patterns of any length up to 2^40; two further contracts repeat "
                     "the claims for short texts (bounded), where a failing input can be shown"),
    "C27": dict(files=["text.cc", "sleep.cc"], lemmas="lemmas.lean"),
    "C28": dict(files=["signals.cc"]),
    "C29": dict(files=["subp.cc", "subp_priv.cc"], level="other",
                note="proved: every failure point and errno of the construction, signals, failing waitpid, waiting for any number "
                     "of polls, input of any length with any input pending; starting the child is checked for four commands and "
                     "three environments, and whole exchanges for bounded outputs and inputs"),
    "C30": dict(files=["text.cc"]),
    "C32": dict(files=["loader.cc"]),
    "C31": dict(files=["stop.cc", "stop_priv.cc"], level="other",
                note="proved: any number of passes, the stop flag's accesses, servers and clients of up to two workers and two "
                     "addresses or connectors with any ports; the interleavings of the stopping thread with a blocked or "
                     "running loop are checked exhaustively for up to one other wake-up and two preemptions of the loop"),
}
RW = dict(stubs=["nstream8read_all", "nstream9write_all"], bunroll=3)
# options per contract (name -> dict)
OPTS = {
    "c29_start": dict(bounded=True, bunroll=40), "c29_wait": dict(bounded=True, bunroll=40),
    "c29_exec_cmd": dict(bounded=True, bunroll=40), "c29_input": dict(bounded=True, bunroll=40), "c29_communicate": dict(stubs=["nstream8read_all", "nstream9write_all"]), "c29_wait_any": dict(stubs=["nstream8read_all"], bunroll=8),
    "c29_move": dict(bounded=True, bunroll=40),
    "c19_writer": dict(spec=6),
    "c31_forever": dict(stubs=["10event_loop9loop_once"], phases=2),
    "c31_stop": dict(bounded=True, bunroll=20), "c31_stop_fails": dict(bunroll=20), "c31_server": dict(bunroll=40), "c31_client": dict(bunroll=40),
    "c19_one": dict(bounded=True, bunroll=60), "c19_two": dict(bounded=True, bunroll=60), "c19_overlap": dict(bounded=True, bunroll=60), "c19_twice": dict(bounded=True, bunroll=60), "c19_two_preempted": dict(bounded=True, bunroll=60, thorough=True), "c19_operands": dict(bounded=True, bunroll=60),
    "c19_short_writes": dict(bounded=True, bunroll=60), "c19_spurious": dict(bounded=True, bunroll=60),
    "c10_pass_any": dict(phases=2, stubs=["unordered_multimapI.*11equal_rangeERSI_$", "14priority_queueI.*(7emplaceI|4sizeEv|5emptyEv|3topEv|3popEv)"]),
    "c10_pass_1": dict(bounded=True, bunroll=8),
    "c10_pass_2": dict(bounded=True, bunroll=8),
    "c10_pass_3": dict(bounded=True, bunroll=8, thorough=True),
    "c12_announce": RW, "c12_read": RW, "c12_close_other": RW, "c12_connected": RW, "c13_async_write": RW, "c13_drain": RW,
    "c14_interleaved": dict(bounded=True, bunroll=8), "c14_failures": dict(bounded=True, bunroll=8),
    "c15_accept": dict(bounded=True, bunroll=8), "c15_random": dict(stubs=["26linear_congruential_engineI.*clEv$"]), "c15_least_loaded": dict(stubs=["event_loop8ev_loads"]),
    "c16_worker_idle": dict(bounded=True, bunroll=12), "c16_worker_idle_2": dict(bounded=True, bunroll=12), "c16_worker_busy": dict(bounded=True, bunroll=12), "c16_worker_busier": dict(bounded=True, bunroll=12), "c16_worker_deep": dict(bounded=True, bunroll=12), "c16_worker_deeper": dict(bounded=True, bunroll=12, thorough=True), "c16_stop": dict(bounded=True, bunroll=12),
    "c18_one": dict(bounded=True, bunroll=12), "c18_two": dict(bounded=True, bunroll=12), "c18_odd": dict(bounded=True, bunroll=12), "c18_three": dict(bounded=True, bunroll=12),
    **{"c25_split_any_%d" % k: dict(optimistic=True, spec=0, phases=6, stubs=["6vectorIiSaIiEE9push_backEOi$"],
                                    thorough=k > 1) for k in range(4)},
    "c25_split_1": dict(bounded=True, bunroll=12),
    "c25_split_2": dict(bounded=True, bunroll=12),
    "c25_split_3": dict(bounded=True, bunroll=12),
    "c25_split_empty": dict(bounded=True, bunroll=12),
    "c25_join": dict(bounded=True, bunroll=12),
    "c25_round_trip": dict(bounded=True, bunroll=12),
    "c26_lstrip": dict(optimistic=True, spec=0), "c26_rstrip": dict(optimistic=True, spec=0), "c26_strip_any": dict(optimistic=True, spec=0, stubs=["6substrEmm$"]),
    "c26_strip": dict(bounded=True, bunroll=12),
    "c26_ends": dict(bounded=True, bunroll=12),
    "c27_gcd": dict(gcd=True),
    "c27_lcm": dict(stubs=["greatest_common_divisorEll$"]),
    "c27_gcd_list": dict(stubs=["greatest_common_divisorEll$"]),
    "c27_lcm_list": dict(stubs=["least_common_multipleEll$"]),
    "c09_accept": dict(bounded=True, bunroll=6), "c09_accept_any": dict(phases=2, stubs=["8nsocktcpEESaIS3_EE12emplace_backI", "8nsocktcpEESaIS3_EE4backEv"]),
    "c03_read_all": dict(stubs=["nstream10read_chunk"], bunroll=2),
    "c04_write_all": dict(stubs=["nstream11write_chunk"], bunroll=2),
}
TRUSTED = {
    "common": [
        "clang 18 front end (C++ to unoptimised LLVM IR) and the g++ build of the same sources agree",
        "vc/ (IR semantics, memory model, loop-invariant checker) and the SMT solvers z3 and cvc5",
        "allocation always succeeds; objects do not overlap and have unbounded distinct addresses",
        "single-threaded reading of each contract except where the contract models interference explicitly",
    ],
}
NOT_APPLICABLE = {}
