#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--strict] [--only CONTRACT] [--replay FILE] [-v]

Decides property ID on /repo's current working tree by discharging every obligation of its contracts."""
import argparse, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, VERIF)
from vc import irparse as IR                      # noqa: E402
from vc import exec as X                          # noqa: E402
from vc.props import PROPS, OPTS, TRUSTED         # noqa: E402

INC = ["-std=c++17", "-fno-access-control", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/src/include", "-I" + REPO + "/src/lib",
       "-I" + VERIF + "/contracts"]
IRFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-gline-tables-only", "-S",
           "-emit-llvm", "-Wno-everything"]
NATFLAGS = ["-g1", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
            "-fno-sanitize=vptr", "-DVC_NATIVE"]


class Result(dict):
    pass


def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def compile_ir(f, work):
    out = os.path.join(work, f + ".ll")
    r = sh(["clang++"] + INC + IRFLAGS + ["-o", out, os.path.join(VERIF, "contracts", f)])
    if r.returncode:
        return None, r.stderr.decode(errors="replace")[-3000:]
    return out, ""


def contracts_in(f):
    s = open(os.path.join(VERIF, "contracts", f)).read()
    names = re.findall(r"^(?:CONTRACT|[SG]ET_\w+)\((\w+)[,)]", s, re.M)
    for inc in re.findall(r'^#include "([\w.]+\.inc)"', s, re.M):
        names += contracts_in(inc)
    return names


def sources_of(f, seen=None):
    """text of a contract file and the contract-side headers it includes"""
    seen = seen if seen is not None else set()
    p = os.path.join(VERIF, "contracts", f)
    if f in seen or not os.path.exists(p):
        return ""
    seen.add(f)
    s = open(p).read()
    for inc in re.findall(r'^#include "([\w./]+)"', s, re.M):
        s += sources_of(inc, seen)
    return s


def native_build(f, work):
    """native executable of contract file f (ASan+UBSan), or None"""
    exe = os.path.join(work, f + ".exe")
    if os.path.exists(exe):
        return exe
    names = contracts_in(f)
    gen = os.path.join(work, f + ".entries.cc")
    with open(gen, "w") as h:
        h.write("struct entry { const char *name; void (*fn)(); };\nextern \"C\" {\n")
        for n in names:
            h.write("void contract_%s();\n" % n)
        h.write("}\nextern entry vc_contracts[];\nentry vc_contracts[] = {\n")
        for n in names:
            h.write('  {"%s", contract_%s},\n' % (n, n))
        h.write("  {nullptr, nullptr}};\n")
    src = sources_of(f)
    wraps = sorted(set(re.findall(r"\b__wrap_(\w+)\s*\(", src)) | set(re.findall(r'"__wrap_(\w+)"', src))
                   | set(re.findall(r"^REAL\([^,]*, (\w+),", src, re.M)))
    o1, o2, o3 = (os.path.join(work, f + x) for x in (".o", ".nat.o", ".ent.o"))
    ps = [subprocess.Popen(["g++"] + INC + NATFLAGS + ["-c", "-o", o1, os.path.join(VERIF, "contracts", f)],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE),
          subprocess.Popen(["g++", "-std=c++17", "-O1", "-I" + VERIF + "/contracts", "-c", "-o", o2,
                            os.path.join(VERIF, "contracts", "vc_native.cc")], stderr=subprocess.PIPE),
          subprocess.Popen(["g++", "-c", "-o", o3, gen], stderr=subprocess.PIPE)]
    errs = [p.communicate()[1] for p in ps]
    if any(p.returncode for p in ps):
        open(exe + ".err", "wb").write(b"".join(errs))
        print("native build of %s failed: %s" % (f, b"".join(errs).decode(errors="replace")[:1500]))
        return None
    red = []
    for w in wraps:
        red += ["--redefine-sym", "%s=__real_%s" % (w, w)]
    if red:
        sh(["objcopy"] + red + [o2])
    r = sh(["g++", "-fsanitize=address,undefined", "-o", exe, o1, o2, o3] + ["-Wl,--wrap=" + w for w in wraps]
           + ["-lpthread", "-lrt", "-ldl"])
    if r.returncode:
        open(exe + ".err", "wb").write(r.stderr)
        print("native link of %s failed: %s" % (f, r.stderr.decode(errors="replace")[:1500]))
        return None
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:hard_rss_limit_mb=6000",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0:exitcode=99")
CONFIRM = {66, 67, 68, 69, 99, 1, 128 + 11, 128 + 8, 128 + 7, 128 + 4}


def native_run(exe, args, timeout):
    try:
        r = sh([exe] + [str(a) for a in args], timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return r.returncode, (r.stdout + b"\n--stderr--\n" + r.stderr[-3000:]).decode(errors="replace")


def fail_code(out):
    m = re.search(r"^FAIL code=(\d+)", out, re.M)
    return int(m.group(1)) if m else None


def trace_text(inputs):
    o = ""
    for x in inputs:
        if x["k"] == "i":
            o += "i %s %d\n" % (x["n"], x["v"])
        elif x["k"] == "l":
            o += "l %s %d %s\n" % (x["n"], len(x["v"]), " ".join(str(b) for b in x["v"]))
        else:
            o += "b %s %d %s\n" % (x["n"], len(x["v"]), "".join("%02x" % b for b in x["v"]))
    return o


# ------------------------------------------------------------------ one contract in a worker process
MODS = {}


def prelude():
    """bodies of library templates declared extern (compiled when a function without model is met)"""
    with tempfile.TemporaryDirectory(prefix="vc_pre_") as d:
        ll, err = compile_ir("prelude.cc", d)
        return IR.Module(open(ll).read()) if ll else None


def run_contract(job):
    f, name, opts, budget = job
    mod = MODS[f]
    t0 = time.time()
    sys.setrecursionlimit(20000)
    o = dict(opts)
    o["deadline"] = t0 + budget
    o["prelude"] = prelude
    r = dict(file=f, name=name, status="proved", reasons=[], obligations=[], time=0)
    eng = X.Engine(mod, None, o)
    r["unroll"] = o.get("unroll")
    if o.get("skip"):
        r["status"] = "undecided"
        r["reasons"].append("left to the thorough tier")
        r.update(functions=[], stubs={}, models={}, paths=0, invariants=0, loops_abstract=[], queries=0, solver_s=0,
                 cvc5_s=0, fails=[], bounded_loops=[])
        return r
    try:
        st = X.State()
        st = eng.run_global_ctors(st)
        fn = mod.fn("contract_" + name)
        if fn is None:
            raise X.Unsupported("contract function missing")
        eng.push_call(st, fn, [])
        exits, _ = eng.explore([st])
        r["completed"] = len(exits)
        for s in exits:
            if s.uncaught:
                ti = s.uncaught[1]
                ob = eng.obls.setdefault("no-uncaught-exception", X.Obligation("no-uncaught-exception", "contract", name))
                ob.n += 1
                ob.fail.append(dict(exact=s.exact, line=0, where=ti, notes=list(s.notes), stack=[],
                                    inputs=eng.concretize(s, True)))
    except (X.Unsupported, X.Undecided) as e:
        r["status"] = "undecided"
        r["reasons"].append("%s: %s" % (type(e).__name__, e))
    except RecursionError:
        r["status"] = "undecided"
        r["reasons"].append("recursion limit")
    except MemoryError:
        r["status"] = "undecided"
        r["reasons"].append("memory")
    except Exception as e:
        r["status"] = "undecided"
        r["reasons"].append("engine error %s: %s" % (type(e).__name__, e))
        r["traceback"] = traceback.format_exc()[-1500:]
    fails = []
    for k, ob in eng.obls.items():
        d = dict(key=k, kind=ob.kind, n=ob.n, trivial=ob.trivial, z3=ob.z3, cvc5=ob.cvc5, unknown=ob.unknown,
                 failed=len(ob.fail))
        r["obligations"].append(d)
        for x in ob.fail:
            if x is not None:
                x["key"], x["kind"] = k, ob.kind
                fails.append(x)
        if ob.unknown:
            r["reasons"].append("obligation %s: solver gave no answer" % k)
    r["fails"] = fails
    r["cuts"] = eng.cuts
    if fails:
        r["status"] = "failed"
    elif r["reasons"]:
        r["status"] = "undecided"
    elif eng.bounded or o.get("bounded"):
        r["status"] = "bounded"
    r["bounded_loops"] = ["%s:%s" % k for k in eng.bounded]
    if r["status"] == "proved":
        if not r.get("completed") and not eng.reach:
            r["status"] = "undecided"
            r["reasons"].append("vacuous: no path completes")
        elif not any(d["kind"] == "contract" and d["n"] > 0 for d in r["obligations"]):
            r["status"] = "undecided"
            r["reasons"].append("vacuous: no contract obligation generated")
    want = set(IR_reach(name))
    miss = sorted(want - set(eng.reach))
    if miss and r["status"] == "proved":
        r["status"] = "undecided"
        r["reasons"].append("vacuous: never reached: " + ", ".join(miss))
    r["functions"] = sorted(eng.fns_executed)
    r["stubs"], r["models"] = dict(eng.stubs_used), dict(eng.models_used)
    r["paths"] = eng.paths + r.get("completed", 0)
    r["invariants"] = getattr(eng, "invariants", 0)
    r["loops_abstract"] = ["%s:%s" % (k if isinstance(k, tuple) else (k, "")) for k in eng.loops_abstract]
    r["queries"], r["solver_s"], r["cvc5_s"] = eng.sol.nq, round(eng.sol.time, 3), round(eng.sol.cvc5_time, 3)
    r["time"] = round(time.time() - t0, 2)
    return r


_reach_cache = {}


def IR_reach(name):
    """vc_reach labels that occur textually in the contract"""
    return _reach_cache.get(name, ())


def scan_reach(f):
    s = open(os.path.join(VERIF, "contracts", f)).read()
    parts = re.split(r"^CONTRACT\((\w+)\)", s, flags=re.M)
    for n, body in zip(parts[1::2], parts[2::2]):
        _reach_cache[n] = re.findall(r'vc_reach\("([^"]+)"\)', body)


def pool_map(jobs, cb, timeout):
    """run jobs in separate processes (8 at a time); a crashed or stuck worker gives an undecided result"""
    pending = list(jobs)
    running = []
    res = {}
    while pending or running:
        while pending and len(running) < 8:
            j = pending.pop(0)
            pr, pw = mp.Pipe(False)
            p = mp.Process(target=_child, args=(cb, j, pw), daemon=True)
            p.start()
            pw.close()
            running.append((p, pr, j, time.time()))
        keep = []
        for p, pr, j, t in running:
            got = None
            try:
                if pr.poll(0):
                    got = pr.recv()
            except (EOFError, OSError):
                got = dict(file=j[0], name=j[1], status="undecided", reasons=["worker died"], obligations=[], fails=[], time=0)
            if got is None and time.time() - t > timeout:
                p.kill()
                got = dict(file=j[0], name=j[1], status="undecided", reasons=["time budget"], obligations=[], fails=[],
                           time=timeout)
            if got is not None:
                res[(j[0], j[1])] = got
                p.join(5)
                if p.is_alive():
                    p.kill()
                pr.close()
            else:
                keep.append((p, pr, j, t))
        running = keep
        if running:
            time.sleep(0.02)
    return res


def _child(cb, j, pw):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        r = cb(j)
    except BaseException as e:
        r = dict(file=j[0], name=j[1], status="undecided", reasons=["engine crash %r" % e], obligations=[], fails=[],
                 time=0, traceback=traceback.format_exc()[-1500:])
    pw.send(r)
    pw.close()
    os._exit(0)


# ------------------------------------------------------------------ main
# obligations that a native run cannot observe (ghost state only)
GHOST_KINDS = ("protected-access",)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--strict", action="store_true", help="exit 3 unless everything is proved")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    pid = a.id
    prop = PROPS[pid]
    work = tempfile.mkdtemp(prefix="vc_%s_" % pid)
    try:
        if a.replay:
            return do_replay(pid, a.replay, work)
        return do_check(a, pid, prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def do_replay(pid, path, work):
    d = json.load(open(path))
    if not d.get("inputs_text"):
        print("replay file has no input: failed obligation", d["obligation"])
        print(d.get("detail", ""))
        return 1
    exe = native_build(d["file"], work)
    if not exe:
        print("native build failed")
        return 2
    tf = os.path.join(work, "t.txt")
    open(tf, "w").write(d["inputs_text"])
    rc, out = native_run(exe, ["replay", d["contract"], tf], 60)
    print(out)
    return 1 if fail_code(out) in CONFIRM or re.search(r"^HANG", out or "", re.M) else 0


def do_check(a, pid, prop, tier, seed, work, t0):
    quick = tier == "quick"
    budget = a.budget or (100 if quick else 300)
    jobs, undecided_files = [], {}
    procs = {f: mp.pool.ThreadPool(1).apply_async(compile_ir, (f, work)) for f in prop["files"]} if False else None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        irs = list(ex.map(lambda f: compile_ir(f, work), prop["files"]))
    pref = pid.lower() + "_"
    for f, (ll, err) in zip(prop["files"], irs):
        names = [n for n in contracts_in(f) if n.startswith(pref) and (not a.only or a.only in n)]
        scan_reach(f)
        if ll is None:
            undecided_files[f] = err
            continue
        MODS[f] = IR.Module(open(ll).read())
        for n in names:
            o = dict(OPTS.get(n, {}))
            if o.get("bounded"):
                o["unroll"] = o.get("bunroll", 3) + (0 if quick else o.get("bdeep", 1))
            if quick and o.get("thorough"):
                o["skip"] = True
            jobs.append((f, n, o, budget))
    for f, err in undecided_files.items():
        print("UNDECIDED property=%s contract file %s does not compile against the current sources:\n%s" % (pid, f, err))
    if quick:
        jobs.sort(key=lambda j: -OPTS.get(j[1], {}).get("weight", 1))
    res = pool_map(jobs, run_contract, budget + 30)

    exes = {}

    def exe_of(f):
        if f not in exes:
            exes[f] = native_build(f, work)
        return exes[f]

    known = [k for k in load_known() if k.get("property") == pid]
    violations, knownhits = [], []
    bounded_runs, samples_run = [], {}
    second = []
    for (f, n), r in sorted(res.items()):
        if r["status"] == "failed":
            ghost = [x for x in r["fails"] if x["exact"] and (x["kind"] in GHOST_KINDS or x["key"].startswith("ghost:"))]
            conf = None
            tried = 0
            for x in r["fails"]:
                if not x.get("inputs") and x.get("inputs") != []:
                    continue
                if tried >= 8:
                    break
                tried += 1
                conf = try_replay(f, n, x, exe_of(f), work)
                if conf:
                    break
            if conf:
                violations.append(dict(contract=n, file=f, fail=conf[0], native=conf[1], text=conf[2], result=r))
            elif ghost:
                violations.append(dict(contract=n, file=f, fail=ghost[0], native=None, text=None, result=r))
            else:
                r["reasons"].append("failed obligations not confirmed on the real code: "
                                    + ", ".join(sorted({x["key"] for x in r["fails"]})))
                r["status"] = "undecided"
                second.append((f, n, r))
        elif r["status"] in ("undecided", "bounded"):
            second.append((f, n, r))

    # bounded stand-in for contracts the proof could not decide
    bounded_runs += [r for (f, n), r in sorted(res.items()) if OPTS.get(n, {}).get("bounded")]
    if second and not violations:
        K = 3 if quick else 5
        second0 = [x for x in second if not OPTS.get(x[1], {}).get("bounded")
                   and not (quick and OPTS.get(x[1], {}).get("thorough"))]
        j2 = [(f, n, dict(OPTS.get(n, {}), unroll=OPTS.get(n, {}).get("bunroll", K)), budget) for f, n, r in second0]
        r2 = pool_map(j2, run_contract, budget + 30)
        for (f, n), r in r2.items():
            bounded_runs.append(r)
            for x in r.get("fails", ()):
                if not x.get("inputs") and x.get("inputs") != []:
                    continue
                conf = try_replay(f, n, x, exe_of(f), work)
                if conf:
                    violations.append(dict(contract=n, file=f, fail=conf[0], native=conf[1], text=conf[2], result=r))
                    break
    # loops that were given up: does the real code terminate on these inputs?
    if not violations:
        given_up = []
        for r in list(res.values()) + bounded_runs:
            for x in r.get("cuts") or ():
                k = (r["file"], r["name"], trace_text(x))
                if k not in [g[0] for g in given_up]:
                    given_up.append((k, r, x))
        for f in {g[0][0] for g in given_up}:
            exe_of(f)
        with ThreadPoolExecutor(8) as ex:
            hangs = list(ex.map(lambda g: hang_replay(g[0], exes.get(g[0][0]), work), given_up))
        for ((f, n, text), r, x), out in zip(given_up, hangs):
            if out and not [v for v in violations if v["contract"] == n]:
                violations.append(dict(contract=n, file=f, fail=dict(key="terminates", where="run of the real code", line=0),
                                       native=out, text=text, result=r))
    todo = []
    if not violations:
        todo = [(f, n, (8 if OPTS.get(n, {}).get("bounded") else 20) if quick else 60) for f, n, r in second]
        if not quick:
            done = {(f, n) for f, n, _ in todo}
            todo += [(j[0], j[1], 20) for j in jobs if (j[0], j[1]) not in done]
    if todo:
        for f in {t[0] for t in todo}:
            exe_of(f)
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda t: sample(exes.get(t[0]), t[1], seed, t[2]), todo))
        slow = []
        for (f, n, s), o in zip(todo, outs):
            if o is None:
                continue
            code, out, runs = o
            samples_run[n] = runs
            if out.startswith("SLOW") and OPTS.get(n, {}).get("bounded"):
                # every run of a bounded contract is short: one that burns seconds of processor time does not end
                text = re.sub(r"^SLOW.*\n", "", out.split("--stderr--")[0])
                slow.append((f, n, text))
            if code in CONFIRM:
                violations.append(dict(contract=n, file=f, fail=dict(key=re.findall(r"^! (.*)$", out, re.M)[-1:] or "sampled"),
                                       native=out, text=re.sub(r"^FAIL.*\n", "", out.split("--stderr--")[0]), result=res[(f, n)]))

        with ThreadPoolExecutor(8) as ex:
            hangs = list(ex.map(lambda g: hang_replay(g, exes.get(g[0]), work), slow))
        for (f, n, text), out in zip(slow, hangs):
            if out:
                violations.append(dict(contract=n, file=f, fail=dict(key="terminates", where="run of the real code", line=0),
                                       native=out, text=text, result=res[(f, n)]))

    # known findings
    rest = []
    for v in violations:
        hit = None
        for k in known:
            if k.get("status") == "known" and k.get("contract") == v["contract"] and \
                    k.get("obligation") == key_of(v):
                hit = k
        if hit:
            knownhits.append(hit)
        else:
            rest.append(v)
    for k in known:
        if k.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    code = 0
    rdir = os.path.join(VERIF, "replays")
    for i, v in enumerate(rest):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (pid, i + 1))
        x = v["fail"]
        json.dump(dict(property=pid, contract=v["contract"], file=v["file"], obligation=key_of(v),
                       where=x.get("where"), line=x.get("line"), stack=x.get("stack"), notes=x.get("notes"),
                       inputs_text=v["text"], native_output=v["native"],
                       detail="obligation %s of contract %s failed in %s (line %s); solver: %s"
                              % (key_of(v), v["contract"], x.get("where"), x.get("line"), "counterexample" if v["text"] else "sat"),
                       verifier_output=[d for d in v["result"]["obligations"] if d.get("failed")],
                       rerun="python3-vt /verif/check.py %s --replay %s" % (pid, path)), open(path, "w"), indent=1)
        print("  contract %s obligation %s at %s line %s" % (v["contract"], key_of(v), x.get("where"), x.get("line")))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if v["text"] or v["native"] else " no-failing-input-found"))
        code = 1
    ev = evidence(pid, prop, tier, seed, jobs, res, bounded_runs, samples_run, undecided_files, rest, t0)
    if prop.get("lemmas"):
        ok, note = check_lemmas(prop["lemmas"])
        ev["coverage"]["lemmas"] = dict(file="contracts/" + prop["lemmas"], checked_by="lean", accepted=ok, note=note)
        if not ok:
            ev["assumptions"].append("lemmas of contracts/%s (not checked in this run: %s)" % (prop["lemmas"], note))
            print("UNDECIDED property=%s lemmas not checked: %s" % (pid, note))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    allproved = True
    for (f, n), r in sorted(res.items()):
        ob = sum(d["n"] for d in r["obligations"])
        if r["status"] != "proved":
            allproved = False
        if a.v or r["status"] != "proved":
            print("%-9s %-40s obligations=%d paths=%d t=%.1fs %s" % (
                r["status"], n, ob, r.get("paths", 0), r["time"], "; ".join(r["reasons"])[:600]))
            if a.v and r["status"] != "proved":
                for x in r.get("fails", [])[:6]:
                    print("    fail", x["key"], "exact" if x["exact"] else "inexact", "line", x["line"], x["stack"][-3:], x["notes"][-3:])
                    if x.get("inputs"):
                        print("      " + trace_text(x["inputs"]).replace("\n", " | ")[:600])
                if r.get("traceback"):
                    print(r["traceback"])
    for r in bounded_runs:
        print("  bounded stand-in %s: unroll=%s status=%s %s" % (r["name"], r.get("unroll"), r["status"], "; ".join(r["reasons"])[:300]))
    for n, k in samples_run.items():
        if a.v:
            print("  native sampling %s: %s runs" % (n, k))
    c = ev["coverage"]
    print("%s %s: %d/%d obligations discharged, %d contracts proved of %d, %.1fs" % (
        pid, tier, c["discharged"], c["obligations"], c["contracts_proved"], c["contracts"], time.time() - t0))
    if a.strict and code == 0 and (not allproved or undecided_files):
        return 3
    return code


def check_lemmas(name):
    """lemmas over the contracts' postconditions (nothing of the code): accepted by the proof checker, without axioms left open"""
    path = os.path.join(VERIF, "contracts", name)
    try:
        p = subprocess.run(["lean", path], capture_output=True, text=True, timeout=300)
    except Exception as e:
        return False, repr(e)[:200]
    text = p.stdout + p.stderr
    if p.returncode != 0 or "error" in text or "sorry" in text:
        return False, text[:300]
    return True, "%d theorems" % len(re.findall(r"^theorem ", open(path).read(), re.M))


def key_of(v):
    k = v["fail"].get("key")
    return k[0] if isinstance(k, list) else k


def try_replay(f, n, x, exe, work):
    if exe is None or x.get("inputs") is None:
        return None
    text = trace_text(x["inputs"])
    tf = os.path.join(work, "replay-%s-%d.txt" % (n, os.getpid()))
    open(tf, "w").write(text)
    rc, out = native_run(exe, ["replay", n, tf], 60)
    if rc is None:
        return None
    c = fail_code(out)
    if c in CONFIRM:
        return x, out, text
    x["replay"] = out[:500]
    if os.environ.get("VC_DEBUG"):
        print("replay of %s %s: %s" % (n, x["key"], out[:800]))
    return None


def hang_replay(k, exe, work):
    if exe is None:
        return None
    f, n, text = k
    fd, tf = tempfile.mkstemp(dir=work)
    os.write(fd, text.encode())
    os.close(fd)
    rc, out = native_run(exe, ["replay", n, tf], 60)
    return out if rc is not None and re.search(r"^HANG", out, re.M) else None


def sample(exe, n, seed, secs):
    if exe is None:
        return None
    rc, out = native_run(exe, ["sample", n, seed, 200000, secs], secs + 60)
    if rc is None:
        return None
    m = re.search(r"(?:DONE|SLOW) runs=(\d+)", out)
    return fail_code(out), out, int(m.group(1)) if m else 0


def demangle(names):
    names = list(names)
    if not names:
        return {}
    r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return dict(zip(names, r.stdout.decode().split("\n")))


def evidence(pid, prop, tier, seed, jobs, res, bounded, samples, undec, viol, t0):
    fns = set()
    models, stubs = {}, {}
    tot = dis = triv = z3n = c5 = 0
    contracts = {}
    for (f, n), r in res.items():
        for d in r["obligations"] if not OPTS.get(n, {}).get("bounded") else ():
            tot += d["n"]
            triv += d["trivial"]
            z3n += d["z3"]
            c5 += d["cvc5"]
        fns.update(r.get("functions", ()))
        for k, v in r.get("models", {}).items():
            models[k] = models.get(k, 0) + v
        for k, v in r.get("stubs", {}).items():
            stubs[k] = stubs.get(k, 0) + v
        contracts[n] = dict(status=r["status"], reasons=r["reasons"], obligations=sum(d["n"] for d in r["obligations"]),
                            named=sorted(d["key"] for d in r["obligations"] if d["kind"] == "contract"),
                            paths=r.get("paths", 0), loop_invariants=r.get("invariants", 0),
                            loops_cut=r.get("loops_abstract", []), queries=r.get("queries"), solver_s=r.get("solver_s"),
                            cvc5_s=r.get("cvc5_s"), wall_s=r["time"])
    dis = triv + z3n + c5
    dm = demangle(sorted(fns | set(models) | set(stubs)))
    under = sorted({dm[x] for x in fns if dm[x].startswith("cppev::") or "cppev::" in dm[x].split("(")[0]})
    assum = list(TRUSTED["common"]) + list(prop.get("assumptions", ()))
    cov = dict(obligations=tot, discharged=dis, checker_cmd="python3-vt /verif/check.py %s --tier %s" % (pid, tier),
               trusted_base=assum + ["model of " + dm[m] for m in sorted(models)],
               discharged_by=dict(term_rewriting=triv, z3=z3n, cvc5=c5),
               solver_s=round(sum(r.get("solver_s") or 0 for r in res.values()), 2),
               cvc5_s=round(sum(r.get("cvc5_s") or 0 for r in res.values()), 2),
               contracts=len(jobs), contracts_proved=sum(1 for r in res.values() if r["status"] == "proved"),
               functions_under_contract=under, stubs=[dm[s] for s in sorted(stubs)], contract_results=contracts,
               not_proved=[n for n, c in contracts.items() if c["status"] != "proved"],
               bounded_standins=[dict(contract=r["name"], unroll=r.get("unroll"), status=r["status"], reasons=r["reasons"],
                                      obligations=sum(d["n"] for d in r["obligations"]), loops=r.get("bounded_loops", []))
                                 for r in bounded],
               native_samples=samples, uncompiled=sorted(undec))
    level = prop.get("level", "proof")
    if level == "other":
        cov["explanation"] = prop["note"]
    return dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
                assumptions=assum, violations=len(viol))


if __name__ == "__main__":
    sys.exit(main())
