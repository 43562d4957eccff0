"""Native models: verification intrinsics (vc_*), LLVM intrinsics, C++ runtime, parts of libstdc++/libc.

Everything here is part of the trusted base and is listed per run (eng.models_used)."""
from . import terms as T
from . import irparse as IR
from .irparse import size_of, wrap
from .exec import (Unsupported, Undecided, PathEnd, Fork, Ptr, NULL, WILD, NORET, Undef, Obj)
from .solver import QFact

I64 = IR.int_ty(64)
I32 = IR.int_ty(32)
I8 = IR.int_ty(8)
STR = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
STRK = "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"


def cstr(eng, st, p):
    """concrete C string"""
    out = []
    o = eng.obj(st, p.obj)
    off = p.off
    while True:
        b = eng.get_bytes(st, o, off, 1)[0]
        if not isinstance(b, int):
            raise Unsupported("symbolic name string")
        if b == 0:
            return bytes(out).decode("latin1")
        out.append(b)
        off += 1


def alts(eng, st, ins, choices):
    """finish the call in several alternative ways: choices = [(cond, fn(state)->value)]"""
    feas = [(c, f) for c, f in choices if c is True or (c is not False and eng.sat(st, c))]
    if not feas:
        raise PathEnd()
    states = [st]
    for _ in feas[1:]:
        states.append(st.fork())
    if len(feas) > 1:
        pass
    for s, (c, f) in zip(states, feas):
        s.assume(c)
        v = f(s)
        eng.finish_call(s, s.frames[-1], ins, v)
    raise Fork(states)


def add_input(st, kind, name, term, extra=None):
    st.inputs = st.inputs + ((kind, name, term, extra),)


# ---------------------------------------------------------------- intrinsics
def vc_int(eng, st, v, ins, rt, name):
    nm = cstr(eng, st, v[0])
    lo, hi = v[1], v[2]
    l = lo if isinstance(lo, int) else T.lo(lo)
    h = hi if isinstance(hi, int) else T.hi(hi)
    if isinstance(lo, int) and isinstance(hi, int) and lo == hi:
        add_input(st, "int", nm, lo)
        return lo
    x = T.var(nm, l, h)
    st.assume(T.le(lo, x))
    st.assume(T.le(x, hi))
    if not eng.sat(st):
        raise PathEnd()
    add_input(st, "int", nm, x)
    return x


def vc_bool(eng, st, v, ins, rt, name):
    nm = cstr(eng, st, v[0])
    b = T.bvar(nm)
    add_input(st, "bool", nm, b)
    if rt.k == "int" and rt.n > 1:
        return T.ite(b, 1, 0)
    return b


def _havoc(eng, st, nm, p, n):
    o = eng.check_access(st, p, n, "havoc", True)
    a = T.arr_base(nm)
    if isinstance(n, int) and isinstance(p.off, int) and o.stride is None and n <= 256:
        o = eng.wobj(st, p.obj)
        eng.kill_range(st, o, p.off, n)
        for i in range(n):
            o.cells[p.off + i] = (1, T.select(a, i))
    else:
        b = eng.as_bytes(st, o)
        o = eng.wobj(st, p.obj)
        if isinstance(p.off, int) and p.off == 0 and eng.same(o.size, n):
            o.fields[0] = (1, a)
        else:
            o.fields[0] = (1, T.arr_copy(b, p.off, a, 0, n))
    add_input(st, "bytes", nm, a, n)
    return a


def vc_bytes(eng, st, v, ins, rt, name):
    _havoc(eng, st, cstr(eng, st, v[0]), v[1], v[2])


def vc_alloc(eng, st, v, ins, rt, name):
    nm = cstr(eng, st, v[0])
    n = v[1]
    o = eng.new_obj(st, nm, n, "heap")
    p = Ptr(o.id, 0)
    if isinstance(n, int) and n == 0:
        add_input(st, "bytes", nm, T.arr_base(nm), 0)
        return p
    a = T.arr_base(nm)
    if isinstance(n, int) and n <= 256:
        for i in range(n):
            o.cells[i] = (1, T.select(a, i))
    else:
        o.stride = 1
        o.fields = {0: (1, a)}
    add_input(st, "bytes", nm, a, n)
    return p


def vc_cstr(eng, st, v, ins, rt, name):
    """vc_cstr(name, n): n arbitrary non-zero bytes followed by NUL"""
    nm = cstr(eng, st, v[0])
    n = v[1]
    o = eng.new_obj(st, nm, T.add(n, 1), "heap")
    a = T.arr_base(nm)
    if isinstance(n, int) and n <= 64:
        for i in range(n):
            x = T.select(a, i)
            st.assume(T.ne(x, 0))
            o.cells[i] = (1, x)
        o.cells[n] = (1, 0)
    else:
        o.stride = 1
        arr = T.arr_store(a, n, 0)
        o.fields = {0: (1, arr)}
        bv = T._mk_atom("var", (T.fresh_name("j"),), (T.fresh_name("jj"),), None, None)
        st.qfacts = st.qfacts + (QFact(0, n, bv, T.ne(T.select(a, T.atom_lin(bv)), 0)),)
        st.ghost[("cstr", o.id)] = (arr, n)
    add_input(st, "cbytes", nm, a, n)
    return Ptr(o.id, 0)


def vc_assume(eng, st, v, ins, rt, name):
    c = tobool(v[0])
    if c is False:
        raise PathEnd()
    st.assume(c)
    if not eng.sat(st):
        raise PathEnd()


def tobool(c):
    if isinstance(c, bool):
        return c
    if isinstance(c, int):
        return c != 0
    if isinstance(c, T.B):
        return c
    return T.ne(c, 0)


def vc_assert(eng, st, v, ins, rt, name):
    ident = cstr(eng, st, v[1])
    eng.oblige(st, tobool(v[0]), "contract", ident)


def vc_reach(eng, st, v, ins, rt, name):
    ident = cstr(eng, st, v[0])
    if eng.probe == 0:
        eng.reach[ident] = eng.reach.get(ident, 0) + 1


def vc_symbolic(eng, st, v, ins, rt, name):
    return True if rt.n == 1 else 1


def vc_bounded(eng, st, v, ins, rt, name):
    r = 1 if eng.opts.get("unroll") else 0
    return bool(r) if rt.n == 1 else r


def vc_stop(eng, st, v, ins, rt, name):
    raise PathEnd()


def byte_at(eng, st, o, off):
    if o.stride is None and isinstance(off, int):
        return eng.get_bytes(st, o, off, 1)[0]
    a = eng.as_bytes(st, o)
    return eng.ubyte(st, T.select(a, off))


def sel_signed(eng, st, objid, off):
    o = eng.obj(st, objid)
    if o.stride is None and isinstance(off, int):
        return eng.sbyte(eng.get_bytes(st, o, off, 1)[0])
    a = eng.as_bytes(st, o)
    return T.select(a, off)


def vc_origin(eng, st, v, ins, rt, name):
    """where the bytes at p were copied from: a witness only (index into the source array), nothing is assumed about it"""
    p = v[0]
    o = eng.obj(st, p.obj)
    f = (o.fields or {}).get(0)
    if f is None:
        c = o.cells.get(p.off) if isinstance(p.off, int) else None
        x = c[1] if c else None
        if isinstance(x, T.Lin):
            for a in T.atoms_of(x).values():
                if a.kind == "sel":
                    return a.args[1]
        return 0
    a = f[1]
    while a.kind in ("store", "copy", "fill"):
        if a.kind == "copy" and eng.same(a.args[1], p.off):
            return a.args[3]
        if a.kind == "store" and eng.same(a.args[1], p.off) and isinstance(a.args[2], T.Lin):
            for x in T.atoms_of(a.args[2]).values():
                if x.kind == "sel":
                    return x.args[1]
        a = a.args[0]
    return 0


def vc_assert_eq_bytes(eng, st, v, ins, rt, name):
    p, q, n = v[0], v[1], v[2]
    ident = cstr(eng, st, v[3])
    if isinstance(n, int) and n <= 0:
        eng.oblige(st, True, "contract", ident)
        return
    eng.check_access(st, p, n, "assert")
    eng.check_access(st, q, n, "assert")
    if isinstance(n, int) and n <= 64:
        cs = []
        for i in range(n):
            x = sel_signed(eng, st, p.obj, T.add(p.off, i))
            y = sel_signed(eng, st, q.obj, T.add(q.off, i))
            cs.append(T.eq(x, y))
        eng.oblige(st, T.band(*cs), "contract", ident)
        return
    k = T.var("k")
    x = sel_signed(eng, st, p.obj, T.add(p.off, k))
    y = sel_signed(eng, st, q.obj, T.add(q.off, k))
    eng.oblige(st, T.implies(T.band(T.le(0, k), T.lt(k, n)), T.eq(x, y)), "contract", ident)


def vc_assert_all(eng, st, v, ins, rt, name):
    p, n, b = v[0], v[1], v[2]
    ident = cstr(eng, st, v[3])
    if isinstance(n, int) and n <= 0:
        eng.oblige(st, True, "contract", ident)
        return
    eng.check_access(st, p, n, "assert")
    b = wrap(b, 8) if isinstance(b, int) else b
    if isinstance(n, int) and n <= 64:
        eng.oblige(st, T.band(*[T.eq(sel_signed(eng, st, p.obj, T.add(p.off, i)), b) for i in range(n)]), "contract", ident)
        return
    k = T.var("k")
    x = sel_signed(eng, st, p.obj, T.add(p.off, k))
    eng.oblige(st, T.implies(T.band(T.le(0, k), T.lt(k, n)), T.eq(x, b)), "contract", ident)


def vc_assume_all(eng, st, v, ins, rt, name):
    """assume that n bytes at p equal byte b"""
    p, n, b = v[0], v[1], wrap(v[2], 8)
    if isinstance(n, int) and n <= 0:
        return
    eng.check_access(st, p, n, "assume")
    if isinstance(n, int) and n <= 64:
        for i in range(n):
            st.assume(T.eq(sel_signed(eng, st, p.obj, T.add(p.off, i)), b))
        return
    bv = T._mk_atom("var", (T.fresh_name("j"),), (T.fresh_name("jj"),), None, None)
    x = sel_signed(eng, st, p.obj, T.add(p.off, T.atom_lin(bv)))
    st.qfacts = st.qfacts + (QFact(0, n, bv, T.eq(x, b)),)


def vc_ghost_array(eng, st, v, ins, rt, name):
    """vc_ghost_array(name, n, kind): specification-only array of longs (never an input)"""
    nm = cstr(eng, st, v[0])
    n, kind = v[1], v[2]
    o = eng.new_obj(st, nm, T.mulc(n, 8), "ghost")
    a = T.arr_base(nm, -(1 << 63), (1 << 63) - 1)
    o.stride = 8
    o.fields = {0: (8, a)}
    st.ghost[("garr", o.id)] = (a, kind)
    return Ptr(o.id, 0)


def vc_assume_forall(eng, st, v, ins, rt, name):
    """assume fn(ctx, j) for every lo <= j < hi"""
    lo, hi, fp, ctx = v
    fname = eng.gnames.get(fp.obj) or eng.obj(st, fp.obj).name
    bv = T._mk_atom("var", (T.fresh_name("j"),), (T.fresh_name("jj"),), None, None)
    j = T.atom_lin(bv)
    mark = bv.id
    s = st.fork()
    s.assume(T.le(lo, j))
    s.assume(T.lt(j, hi))
    stop = s.pc
    eng.probe += 1
    try:
        res = eng.call_sync(s, fname, [ctx, j])
    finally:
        eng.probe -= 1
    body = []
    for r, val in res:
        cs = []
        p = r.pc
        while p is not stop and p.parent is not None:
            cs.append(p.term)
            p = p.parent
        body.append(T.implies(T.band(*cs), tobool(val)))
    body = T.band(*body)
    if isinstance(body, bool):
        if body is False:
            st.assume(T.le(hi, lo))
        return
    for a in T.atoms_of(body).values():
        if a.kind == "var" and a.id > mark and not a.args[0].startswith("addr!"):
            raise Unsupported("quantified contract introduces a fresh value")
    st.qfacts = st.qfacts + (QFact(lo, hi, bv, body),)


def vc_lcm(eng, st, v, ins, rt, name):
    return T.app("lcm", [v[0], v[1]], 0, (1 << 63) - 1)


def vc_ints(eng, st, v, ins, rt, name):
    """vc_ints(name, p, n, lo, hi): arbitrary ints in the whole block p"""
    vc_longs(eng, st, v, ins, rt, name, 4)


def vc_longs(eng, st, v, ins, rt, name, W=8):
    """vc_longs(name, p, n, lo, hi): arbitrary longs in the whole block p"""
    nm = cstr(eng, st, v[0])
    p, n, lo, hi = v[1:5]
    o = eng.check_access(st, p, T.mulc(n, W), "havoc", True)
    if not (isinstance(p.off, int) and p.off == 0 and eng.same(o.size, T.mulc(n, W))):
        raise Unsupported("vc_longs over part of a block")
    o = eng.wobj(st, p.obj)
    a = T.arr_base(nm, lo, hi)
    o.cells, o.dflt = {}, None
    if isinstance(n, int):
        o.stride, o.fields = None, None
        for i in range(n):
            o.cells[W * i] = (W, T.select(a, i))
    else:
        o.stride, o.fields = W, {0: (W, a)}
    add_input(st, "longs", nm, a, n)


def vc_gcd(eng, st, v, ins, rt, name):
    return T.app("gcd", [v[0], v[1]], 0, (1 << 63) - 1)


def vc_fill(eng, st, v, ins, rt, name):
    eng.memset(st, v[0], v[1], v[2])


def vc_snapshot(eng, st, v, ins, rt, name):
    p, n = v
    o = eng.new_obj(st, "snap", n, "ghost")
    if isinstance(n, int) and n == 0:
        return Ptr(o.id, 0)
    eng.memcpy(st, Ptr(o.id, 0), p, n)
    return Ptr(o.id, 0)


def vc_invariant(eng, st, v, ins, rt, name):
    """a candidate invariant of the loops that follow"""
    k = sum(1 for x in st.ghost if x[0] == "inv")
    st.ghost[("inv", k)] = (eng.obj(st, v[0].obj).name, v[1])


def vc_phase(eng, st, v, ins, rt, name):
    """the loop iteration executing this ends a phase of the loop"""
    st.ghost[("phase",)] = st.ghost.get(("phase",), 0) + 1


def vc_co_new(eng, st, v, ins, rt, name):
    """a thread of control: runs fn(arg) when resumed"""
    fnp, arg = v
    k = st.ghost.get(("#co",), 0) + 1
    st.ghost[("#co",)] = k
    fname = eng.obj(st, fnp.obj).name
    st.cos[k] = ((fname, arg), ())
    return k


def vc_co_resume(eng, st, v, ins, rt, name):
    k = v[0]
    if not isinstance(k, int) or k not in st.cos:
        raise Unsupported("resume of a thread that is not suspended")
    fs, caught = st.cos.pop(k)
    st.costack = st.costack + ((k, len(st.frames), st.caught),)
    st.caught = caught
    if isinstance(fs, tuple):
        fname, arg = fs
        fn = eng.m.fn(fname) or (eng.pre.fn(fname) if eng.pre else None)
        eng.push_call(st, fn, [arg], "coroutine")
    else:
        st.frames.extend(fs)
        fr = st.frames[-1]
        eng.finish_call(st, fr, fr.ins[fr.idx], None)
    return NORET


def vc_co_yield(eng, st, v, ins, rt, name):
    if not st.costack:
        raise Unsupported("yield outside a thread")
    k, base, caught = st.costack[-1]
    st.costack = st.costack[:-1]
    fs = st.frames[base:]
    del st.frames[base:]
    for f in fs:
        if f.flat is None:
            f.flat = {}
    st.cos[k] = (fs, st.caught)
    st.caught = caught
    fr = st.frames[-1]
    eng.finish_call(st, fr, fr.ins[fr.idx], 0)
    return NORET


def vc_protect(eng, st, v, ins, rt, name):
    p, n, ok = v[0], v[1], v[2]
    what = cstr(eng, st, v[3])
    o = eng.wobj(st, p.obj)
    rng = (p.off, T.add(p.off, n), what)
    cur = [r for r in o.inacc if r != rng]
    if not tobool(ok):
        cur.append(rng)
    o.inacc = tuple(cur)


def vc_freed(eng, st, v, ins, rt, name):
    """has the object been freed/destroyed"""
    p = v[0]
    r = p.obj in (0, WILD) or not eng.obj(st, p.obj).alive
    return bool(r) if rt.n == 1 else int(r)


def vc_same_obj(eng, st, v, ins, rt, name):
    r = v[0].obj == v[1].obj and v[0].obj != 0
    return bool(r) if rt.n == 1 else int(r)


def vc_live_heap(eng, st, v, ins, rt, name):
    """number of live heap allocations made since the given mark (leak accounting)"""
    n = sum(1 for o in st.mem.values() if o.kind == "heap" and o.alive and o.tag != "str0")
    return n


def vc_note(eng, st, v, ins, rt, name):
    st.notes = st.notes + (cstr(eng, st, v[0]),)


def vc_inexact(eng, st, v, ins, rt, name):
    st.exact = False


# ---------------------------------------------------------------- llvm intrinsics
def ll_memcpy(eng, st, v, ins, rt, name):
    eng.memcpy(st, v[0], v[1], v[2])


def ll_memset(eng, st, v, ins, rt, name):
    eng.memset(st, v[0], v[1], v[2])


def c_memcpy(eng, st, v, ins, rt, name):
    eng.memcpy(st, v[0], v[1], v[2])
    return v[0]


def c_memset(eng, st, v, ins, rt, name):
    b = v[1]
    if not isinstance(b, int):
        b = eng.wrap_term(st, b, 8)
    eng.memset(st, v[0], b, v[2])
    return v[0]


def ll_bswap(eng, st, v, ins, rt, name):
    n = rt.n // 8
    bs = eng.cell_bytes(st, None, 0, n, v[0])
    return eng.signed(st, eng.from_bytes(st, list(reversed(bs))), rt.n)


def ll_overflow(eng, st, v, ins, rt, name):
    # llvm.{u,s}{add,sub,mul}.with.overflow.iN
    parts = name.split(".")
    op = parts[1]
    n = rt.elts[0].n
    a, b = v[0], v[1]
    if op[0] == "u":
        a, b = eng.unsigned(st, a, n), eng.unsigned(st, b, n)
        lo, hi = 0, (1 << n) - 1
    else:
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    r = {"add": T.add, "sub": T.sub, "mul": T.mul}[op[1:]](a, b)
    ok = T.band(T.le(lo, r), T.le(r, hi))
    if ok is True:
        return [eng.signed(st, r, n) if op[0] == "u" else r, False]
    if eng.split(st, ok):
        return [eng.signed(st, r, n) if op[0] == "u" else r, False]
    return [eng.wrap_term(st, r, n), True]


def ll_minmax(eng, st, v, ins, rt, name):
    op = name.split(".")[1]
    a, b = v[0], v[1]
    if op[0] == "u":
        c = eng.icmp(st, "ult", rt, a, b)
    else:
        c = eng.icmp(st, "slt", rt, a, b)
    return T.ite(c, a, b) if op.endswith("min") else T.ite(c, b, a)


def ll_abs(eng, st, v, ins, rt, name):
    a = v[0]
    return T.ite(T.lt(a, 0), T.neg(a), a)


# ---------------------------------------------------------------- allocation
def op_new(eng, st, v, ins, rt, name):
    n = v[0]
    eng.oblige(st, T.band(T.le(0, n), T.le(n, 1 << 47)), "allocation-size-in-range")
    o = eng.new_obj(st, "heap", n, "heap")
    return Ptr(o.id, 0)


def op_delete(eng, st, v, ins, rt, name):
    eng.free(st, v[0], name)


def c_malloc(eng, st, v, ins, rt, name):
    o = eng.new_obj(st, "malloc", v[0], "heap")
    return Ptr(o.id, 0)


# ---------------------------------------------------------------- exceptions
def cxa_alloc(eng, st, v, ins, rt, name):
    o = eng.new_obj(st, "exception", v[0], "exc")
    return Ptr(o.id, 0)


def do_throw(eng, st, exc, ti):
    eng.throw(st, exc, ti)
    return NORET


def cxa_throw(eng, st, v, ins, rt, name):
    ti = eng.gnames[v[1].obj]
    return do_throw(eng, st, v[0], ti)


def cxa_begin(eng, st, v, ins, rt, name):
    st.caught = st.caught + (v[0],)
    return v[0]


def cxa_end(eng, st, v, ins, rt, name):
    st.caught = st.caught[:-1]


def cxa_rethrow(eng, st, v, ins, rt, name):
    if not st.caught:
        eng.oblige(st, False, "no-terminate")
    e = st.caught[-1]
    return do_throw(eng, st, e, eng.exc_ti[e.obj])


def std_throw(ti, size=16):
    def f(eng, st, v, ins, rt, name):
        o = eng.new_obj(st, "exception", max(size, 32), "exc")
        o.dflt = 0
        vt = vtable_for(ti)
        if vt:
            eng.store(st, Ptr(o.id, 0), IR.PTR, Ptr(eng.global_ptr(st, vt).obj, 16))
        if name.startswith(("_ZSt20__throw_system_error",)):
            eng.store(st, Ptr(o.id, 16), I32, v[0])
            eng.store(st, Ptr(o.id, 24), IR.PTR, eng.global_ptr(st, "vc.generic_category"))
        return do_throw(eng, st, Ptr(o.id, 0), ti)
    return f


def vtable_for(ti):
    return "_ZTV" + ti[4:]


def crash(kind):
    def f(eng, st, v, ins, rt, name):
        eng.oblige(st, False, kind)
        raise PathEnd()
    return f


def assert_fail(eng, st, v, ins, rt, name):
    try:
        msg = cstr(eng, st, v[0])
    except Exception:
        msg = "?"
    eng.oblige(st, False, "assertion-of-the-code")
    raise PathEnd()


def exc_text_ctor(size):
    """logic_error/runtime_error(const string&) : keep a copy of the text"""
    def f(eng, st, v, ins, rt, name):
        this = v[0]
        if name.endswith("EPKc"):
            n = c_strlen(eng, st, [v[1]], ins, rt, name)
            src = v[1]
        else:
            src = eng.load(st, v[1], IR.PTR)
            n = eng.load(st, Ptr(v[1].obj, T.add(v[1].off, 8)), I64)
        put_text(eng, st, this, src, n)
        base = name[len("_ZNSt"):]
        i = 0
        while base[i].isdigit():
            i += 1
        cls = base[:i] + base[i:i + int(base[:i])]
        eng.store(st, this, IR.PTR, Ptr(eng.global_ptr(st, "_ZTVSt" + cls).obj, 16))
    return f


def put_text(eng, st, this, src, n):
    o = eng.new_obj(st, "exctext", T.add(n, 1), "ghost")
    if not (isinstance(n, int) and n == 0):
        eng.memcpy(st, Ptr(o.id, 0), src, n)
    eng.store(st, Ptr(o.id, n), I8, 0)
    eng.store(st, Ptr(this.obj, T.add(this.off, 8)), IR.PTR, Ptr(o.id, 0))


def exc_copy(eng, st, v, ins, rt, name):
    eng.memcpy(st, v[0], v[1], 16)


def exc_what(eng, st, v, ins, rt, name):
    return eng.load(st, Ptr(v[0].obj, T.add(v[0].off, 8)), IR.PTR)


def system_error_ctor(eng, st, v, ins, rt, name):
    this = v[0]
    # error_code by value: (i32|i64 value, ptr category), then what
    code, cat = v[1], v[2]
    if len(v) > 3 and isinstance(v[3], Ptr):
        if name.endswith("PKc"):
            src = v[3]
            n = c_strlen(eng, st, [src], ins, rt, name)
        else:
            src = eng.load(st, v[3], IR.PTR)
            n = eng.load(st, Ptr(v[3].obj, T.add(v[3].off, 8)), I64)
        put_text(eng, st, this, src, n)
    if not isinstance(code, int):
        code = eng.wrap_term(st, code, 32)
    else:
        code = wrap(code, 32)
    eng.store(st, Ptr(this.obj, T.add(this.off, 16)), I32, code)
    eng.store(st, Ptr(this.obj, T.add(this.off, 24)), IR.PTR, cat)
    eng.store(st, this, IR.PTR, Ptr(eng.global_ptr(st, "_ZTVSt12system_error").obj, 16))


def noop(eng, st, v, ins, rt, name):
    return None if rt.k == "void" else eng.zero(rt)


def ret0(eng, st, v, ins, rt, name):
    return eng.zero(rt)


def ret_arg0(eng, st, v, ins, rt, name):
    return v[0]


def glob(nm):
    def f(eng, st, v, ins, rt, name):
        return eng.global_ptr(st, nm)
    return f


def errno_loc(eng, st, v, ins, rt, name):
    return eng.global_ptr(st, "vc.errno")


def guard_acquire(eng, st, v, ins, rt, name):
    b = eng.load(st, v[0], I8)
    if isinstance(b, int):
        return 0 if b & 1 else 1
    raise Unsupported("symbolic guard")


def guard_release(eng, st, v, ins, rt, name):
    eng.store(st, v[0], I8, 1)


def typeid_for(eng, st, v, ins, rt, name):
    p = v[0]
    return eng.ti_id(eng.gnames[p.obj])


def ti_info(eng, nm):
    """(kind, [(base, offset, virtual)])"""
    mod, info = eng.find_global(nm)
    if info is None or info["init"] is None or info["init"][0] != "agg":
        return []
    elts = info["init"][2]
    # elts[0] = vtable gep into __class_type_info / __si / __vmi
    vt = repr(elts[0][1])
    if "__si_class_type_info" in vt:
        return [(elts[2][1][1], 0, False)]
    if "__vmi_class_type_info" in vt:
        n = elts[3][1][1]
        out = []
        for j in range(n):
            b = elts[4 + 2 * j][1][1]
            fl = elts[5 + 2 * j][1][1]
            out.append((b, fl >> 8, bool(fl & 1)))
        return out
    return []


def dynamic_cast(eng, st, v, ins, rt, name):
    p, src, dst = v[0], v[1], v[2]
    if p.obj == 0:
        return NULL
    vp = eng.load(st, p, IR.PTR)
    top = eng.load(st, Ptr(vp.obj, T.sub(vp.off, 16)), I64)
    ti = eng.load(st, Ptr(vp.obj, T.sub(vp.off, 8)), IR.PTR)
    full = Ptr(p.obj, T.add(p.off, top))
    want = eng.gnames[dst.obj]
    # search bases
    found = set()

    def walk(t, q):
        if t == want:
            found.add((q.obj, q.off))
            return
        for b, off, virt in ti_info(eng, t):
            if virt:
                vpt = eng.load(st, q, IR.PTR)
                o2 = eng.load(st, Ptr(vpt.obj, T.add(vpt.off, off)), I64)
                walk(b, Ptr(q.obj, T.add(q.off, o2)))
            else:
                walk(b, Ptr(q.obj, T.add(q.off, off)))
    walk(eng.gnames[ti.obj], full)
    if len(found) != 1:
        return NULL
    o, off = found.pop()
    return Ptr(o, off)


# ---------------------------------------------------------------- libc strings
def c_strlen(eng, st, v, ins, rt, name):
    p = v[0]
    o = eng.check_access(st, p, 1, "strlen")
    g = st.ghost.get(("cstr", p.obj))
    if g is not None and o.stride == 1 and o.fields.get(0) and o.fields[0][1] is g[0]:
        n = T.sub(g[1], p.off)
        if eng.must(st, T.le(0, n)):
            return n
    if o.stride is None and isinstance(p.off, int):
        off = p.off
        end = o.size if isinstance(o.size, int) else None
        while end is None or off < end:
            b = eng.sbyte(eng.get_bytes(st, o, off, 1)[0])
            o = eng.obj(st, p.obj)
            if isinstance(b, int):
                z = b == 0
            else:
                z = eng.split(st, T.eq(b, 0))
            if z:
                return off - p.off
            off += 1
        eng.oblige(st, False, "in-bounds-read")
        raise PathEnd()
    a = eng.as_bytes(st, o)
    n = T.var("strlen", 0, None)
    last = T.sub(o.size, 1)
    if not eng.must(st, T.eq(T.select(a, last), 0)):
        st.exact = False
    st.assume(T.le(T.add(p.off, n), last))
    st.assume(T.eq(T.select(a, T.add(p.off, n)), 0))
    if not eng.sat(st):
        raise PathEnd()
    bv = T._mk_atom("var", (T.fresh_name("j"),), (T.fresh_name("jj"),), None, None)
    seeds = []
    for k, g in st.ghost.items():
        if k[0] == "cstr":
            seeds += [g[1], T.sub(g[1], p.off)]
    for q in st.qfacts[-8:]:
        seeds += [q.hi, T.sub(q.hi, p.off)]
    st.qfacts = st.qfacts + (QFact(0, n, bv, T.ne(T.select(a, T.add(p.off, T.atom_lin(bv))), 0), seeds),)
    return n


def c_strncpy(eng, st, v, ins, rt, name):
    d, s, n = v
    if not isinstance(n, int):
        raise Unsupported("strncpy with symbolic bound")
    ln = c_strlen(eng, st, [s], ins, rt, name)
    if isinstance(ln, int):
        m = min(ln, n)
        eng.memcpy(st, d, s, m)
        if m < n:
            eng.memset(st, Ptr(d.obj, T.add(d.off, m)), 0, n - m)
        return d
    if eng.split(st, T.lt(ln, n)):
        eng.memcpy(st, d, s, ln)
        eng.memset(st, Ptr(d.obj, T.add(d.off, ln)), 0, T.sub(n, ln))
    else:
        eng.memcpy(st, d, s, n)
    return d


def c_strcmp(eng, st, v, ins, rt, name):
    a, b = v
    i = 0
    oa, ob = eng.obj(st, a.obj), eng.obj(st, b.obj)
    while True:
        x = eng.get_bytes(st, oa, a.off + i, 1)[0]
        y = eng.get_bytes(st, ob, b.off + i, 1)[0]
        if not isinstance(x, int) or not isinstance(y, int):
            raise Unsupported("symbolic strcmp")
        if x != y:
            return -1 if x < y else 1
        if x == 0:
            return 0
        i += 1


def c_memcmp(eng, st, v, ins, rt, name):
    p, q, n = v
    if isinstance(n, int) and n == 0:
        return 0
    eng.check_access(st, p, n, "memcmp")
    eng.check_access(st, q, n, "memcmp")
    if p.obj == q.obj and eng.same(p.off, q.off):
        return 0
    if isinstance(n, int) and n <= 64:
        xs = [sel_signed(eng, st, p.obj, T.add(p.off, i)) for i in range(n)]
        ys = [sel_signed(eng, st, q.obj, T.add(q.off, i)) for i in range(n)]
        r = 0
        for x, y in reversed(list(zip(xs, ys))):
            ux, uy = eng.ubyte(st, x), eng.ubyte(st, y)
            r = T.ite(T.eq(x, y), r, T.ite(T.lt(ux, uy), -1, 1))
        return r
    x = lambda i: sel_signed(eng, st, p.obj, T.add(p.off, i))
    y = lambda i: sel_signed(eng, st, q.obj, T.add(q.off, i))
    x(0), y(0)
    bv = T._mk_atom("var", (T.fresh_name("j"),), (T.fresh_name("jj"),), None, None)
    body = T.eq(x(T.atom_lin(bv)), y(T.atom_lin(bv)))
    k = T.var("diff")

    def eqcase(s):
        s.qfacts = s.qfacts + (QFact(0, n, bv, body),)
        return 0

    def necase(s):
        s.qfacts = s.qfacts + (QFact(0, k, bv, body),)
        r = T.var("memcmp", -1, 1)
        s.assume(T.ne(r, 0))
        return r
    alts(eng, st, ins, [(True, eqcase), (T.band(T.le(0, k), T.lt(k, n), T.ne(x(k), y(k))), necase)])


def c_memchr(eng, st, v, ins, rt, name):
    p, c, n = v
    if not isinstance(n, int) and T.lo(n) is not None and T.lo(n) == T.hi(n):
        n = T.lo(n)
    if isinstance(n, int) and n <= 0:
        return NULL
    eng.check_access(st, p, n, "memchr")
    c = wrap(c, 8) if isinstance(c, int) else eng.wrap_term(st, c, 8)
    x = lambda i: sel_signed(eng, st, p.obj, T.add(p.off, i))
    x(0)
    if isinstance(n, int) and n <= 16:
        ch = []
        pre = []
        for i in range(n):
            e = T.eq(x(i), c)
            ch.append((T.band(*(pre + [e])), (lambda i: (lambda s: Ptr(p.obj, T.add(p.off, i))))(i)))
            pre.append(T.bnot(e))
        ch.append((T.band(*pre), lambda s: NULL))
        alts(eng, st, ins, ch)
    bv = T._mk_atom("var", (T.fresh_name("j"),), (T.fresh_name("jj"),), None, None)
    body = T.ne(x(T.atom_lin(bv)), c)
    k = T.var("chr")

    def found(s):
        s.qfacts = s.qfacts + (QFact(0, k, bv, body),)
        return Ptr(p.obj, T.add(p.off, k))

    def none(s):
        s.qfacts = s.qfacts + (QFact(0, n, bv, body),)
        return NULL
    alts(eng, st, ins, [(T.band(T.le(0, k), T.lt(k, n), T.eq(x(k), c)), found), (True, none)])


# ---------------------------------------------------------------- std::string
def s_ptr(eng, st, t):
    return eng.load(st, t, IR.PTR)


def s_len(eng, st, t):
    return eng.load(st, Ptr(t.obj, T.add(t.off, 8)), I64)


def s_set(eng, st, t, p, n):
    eng.store(st, t, IR.PTR, p)
    eng.store(st, Ptr(t.obj, T.add(t.off, 8)), I64, n)


def s_local(t):
    return Ptr(t.obj, T.add(t.off, 16))


def s_is_local(t, p):
    return p.obj == t.obj and p.obj != 0


def s_new(eng, st, t, n):
    """fresh heap storage of n chars + NUL (NUL not written)"""
    if isinstance(n, int) and n == 0:
        p = s_local(t)
        s_set(eng, st, t, p, 0)
        return p
    eng.oblige(st, T.band(T.le(0, n), T.le(n, 0x3fffffffffffffff)), "string-length-in-range")
    o = eng.new_obj(st, "string", T.add(n, 1), "heap")
    p = Ptr(o.id, 0)
    s_set(eng, st, t, p, n)
    eng.store(st, Ptr(t.obj, T.add(t.off, 16)), I64, n)
    return p


def s_nul(eng, st, p, n):
    eng.store(st, Ptr(p.obj, T.add(p.off, n)), I8, 0)


def s_construct(eng, st, t, src, n):
    p = s_new(eng, st, t, n)
    eng.memcpy(st, p, src, n)
    s_nul(eng, st, p, n)


def str_construct_range(eng, st, v, ins, rt, name):
    t, b, e = v[0], v[1], v[2]
    if isinstance(b, Ptr) and isinstance(e, Ptr):
        if b.obj != e.obj:
            if b.obj == WILD or e.obj == WILD:
                raise Unsupported("string range")
            eng.oblige(st, False, "valid-range")
        n = T.sub(e.off, b.off)
        s_construct(eng, st, t, b, n)
        return
    raise Unsupported("string construct")


def str_construct_fill(eng, st, v, ins, rt, name):
    t, n, c = v
    p = s_new(eng, st, t, n)
    eng.memset(st, p, c, n)
    s_nul(eng, st, p, n)


def s_dispose(eng, st, t, p):
    if not s_is_local(t, p):
        eng.free(st, p, "string")


def s_grow(eng, st, t, newlen):
    """make storage hold newlen chars, keeping the first min(len,newlen)"""
    p, n = s_ptr(eng, st, t), s_len(eng, st, t)
    eng.oblige(st, T.band(T.le(0, newlen), T.le(newlen, 0x3fffffffffffffff)), "string-length-in-range")
    if s_is_local(t, p):
        if isinstance(newlen, int) and newlen == 0:
            return p
        o = eng.new_obj(st, "string", T.add(newlen, 1), "heap")
        q = Ptr(o.id, 0)
        eng.memcpy(st, q, p, n)
        eng.store(st, t, IR.PTR, q)
        eng.store(st, Ptr(t.obj, T.add(t.off, 16)), I64, newlen)
        return q
    o = eng.wobj(st, p.obj)
    if not o.alive or o.kind != "heap":
        eng.oblige(st, False, "use-after-free")
    o.size = T.add(newlen, 1)
    return p


def s_setlen(eng, st, t, p, n):
    eng.store(st, Ptr(t.obj, T.add(t.off, 8)), I64, n)
    s_nul(eng, st, p, n)


def str_append(eng, st, v, ins, rt, name):
    t, s, m = v
    if isinstance(m, int) and m == 0:
        return t
    n = s_len(eng, st, t)
    same = s_ptr(eng, st, t).obj == s.obj
    nl = T.add(n, m)
    p = s_grow(eng, st, t, nl)
    eng.memcpy(st, Ptr(p.obj, T.add(p.off, n)), s, m)
    s_setlen(eng, st, t, p, nl)
    return t


def str_push_back(eng, st, v, ins, rt, name):
    t, c = v
    n = s_len(eng, st, t)
    p = s_grow(eng, st, t, T.add(n, 1))
    eng.store(st, Ptr(p.obj, T.add(p.off, n)), I8, c)
    s_setlen(eng, st, t, p, T.add(n, 1))


def str_assign(eng, st, v, ins, rt, name):
    t, o = v
    if t.obj == o.obj and eng.same(t.off, o.off):
        return t if rt.k != "void" else None
    old = s_ptr(eng, st, t)
    src, n = s_ptr(eng, st, o), s_len(eng, st, o)
    s_construct(eng, st, t, src, n)
    s_dispose(eng, st, t, old)
    return t if rt.k != "void" else None


def str_replace(eng, st, v, ins, rt, name):
    t, pos, n1, s, n2 = v
    old, n = s_ptr(eng, st, t), s_len(eng, st, t)
    nl = T.add(T.sub(n, n1), n2)
    tmp = None
    if isinstance(nl, int) and nl == 0 and s_is_local(t, old):
        return t
    o = eng.new_obj(st, "string", T.add(nl, 1), "heap")
    q = Ptr(o.id, 0)
    eng.memcpy(st, q, old, pos)
    eng.memcpy(st, Ptr(q.obj, pos), s, n2)
    rest = T.sub(T.sub(n, pos), n1)
    eng.memcpy(st, Ptr(q.obj, T.add(pos, n2)), Ptr(old.obj, T.add(old.off, T.add(pos, n1))), rest)
    s_nul(eng, st, q, nl)
    s_set(eng, st, t, q, nl)
    eng.store(st, Ptr(t.obj, T.add(t.off, 16)), I64, nl)
    s_dispose(eng, st, t, old)
    return t


def str_erase(eng, st, v, ins, rt, name):
    t, pos, n1 = v
    p, n = s_ptr(eng, st, t), s_len(eng, st, t)
    rest = T.sub(T.sub(n, pos), n1)
    eng.memcpy(st, Ptr(p.obj, T.add(p.off, pos)), Ptr(p.obj, T.add(p.off, T.add(pos, n1))), rest)
    s_setlen(eng, st, t, p, T.sub(n, n1))


def str_resize(eng, st, v, ins, rt, name):
    t, m, c = v
    n = s_len(eng, st, t)
    if eng.split(st, T.le(m, n)):
        p = s_ptr(eng, st, t)
        s_setlen(eng, st, t, p, m)
        return
    p = s_grow(eng, st, t, m)
    eng.memset(st, Ptr(p.obj, T.add(p.off, n)), c, T.sub(m, n))
    s_setlen(eng, st, t, p, m)


def str_reserve(eng, st, v, ins, rt, name):
    m = v[1] if len(v) > 1 else 0
    ok = T.band(T.le(0, m), T.le(m, 0x3fffffffffffffff))
    if ok is True or (ok is not False and eng.split(st, ok)):
        return None
    return std_throw("_ZTISt12length_error")(eng, st, [], ins, rt, name)


def str_capacity(eng, st, v, ins, rt, name):
    n = s_len(eng, st, v[0])
    x = T.var("capacity", 0, None)
    st.assume(T.le(n, x))
    return x


def str_compare_cstr(eng, st, v, ins, rt, name):
    t, s = v
    n = s_len(eng, st, t)
    m = c_strlen(eng, st, [s], ins, rt, name)
    raise Unsupported("string compare")


def to_string(eng, st, v, ins, rt, name):
    t, x = v
    if isinstance(x, int):
        if name.endswith(("Em", "Ej", "Ey")):
            x &= (1 << 64) - 1 if not name.endswith("Ej") else (1 << 32) - 1
        s = str(x).encode()
        o = eng.new_obj(st, "num", len(s), "ghost")
        for i, b in enumerate(s):
            o.cells[i] = (1, b)
        s_construct(eng, st, t, Ptr(o.id, 0), len(s))
        return None
    # decimal text: an uninterpreted but functional image of x
    key = ("tostr", T.tid(x))
    g = st.ghost.get(key)
    if g is None:
        a = T.arr_base("dec")
        n = T.var("declen", 1, 20)
        g = st.ghost[key] = (a, n)
    a, n = g
    p = s_new(eng, st, t, n)
    o = eng.wobj(st, p.obj)
    o.stride = 1
    o.fields = {0: (1, T.arr_store(a, n, 0))}
    return None


# ---------------------------------------------------------------- misc library
def rehash_need(eng, st, v, ins, rt, name):
    return [False, 0]


def next_bkt(eng, st, v, ins, rt, name):
    return 1


def hash_bytes(eng, st, v, ins, rt, name):
    return 0


def unsupported(eng, st, v, ins, rt, name):
    raise Unsupported(name)


def mutex_ok(eng, st, v, ins, rt, name):
    key = ("held", v[0].obj, v[0].off if isinstance(v[0].off, int) else T.tid(v[0].off))
    if st.ghost.get(key):
        eng.oblige(st, False, "no-self-deadlock")
    st.ghost[key] = 1
    return 0


def mutex_try(eng, st, v, ins, rt, name):
    key = ("held", v[0].obj, v[0].off if isinstance(v[0].off, int) else T.tid(v[0].off))
    if st.ghost.get(key):
        return 16
    st.ghost[key] = 1
    return 0


def mutex_unlock(eng, st, v, ins, rt, name):
    key = ("held", v[0].obj, v[0].off if isinstance(v[0].off, int) else T.tid(v[0].off))
    eng.oblige(st, bool(st.ghost.get(key)), "unlock-only-when-held")
    st.ghost[key] = 0
    return 0


def vc_held(eng, st, v, ins, rt, name):
    key = ("held", v[0].obj, v[0].off if isinstance(v[0].off, int) else T.tid(v[0].off))
    r = bool(st.ghost.get(key))
    return r if rt.n == 1 else int(r)


# red-black tree primitives: an unbalanced binary search tree satisfies every client-visible guarantee
def _lp(eng, st, n, off):
    return eng.load(st, Ptr(n.obj, T.add(n.off, off)), IR.PTR)


def _sp(eng, st, n, off, x):
    eng.store(st, Ptr(n.obj, T.add(n.off, off)), IR.PTR, x)


def _eqp(a, b):
    if a.obj != b.obj:
        return False
    d = T.sub(a.off, b.off)
    if not isinstance(d, int):
        raise Unsupported("tree pointers")
    return d == 0


def rb_insert(eng, st, v, ins, rt, name):
    left, x, p, h = v
    left = tobool(left)
    _sp(eng, st, x, 8, p)
    _sp(eng, st, x, 16, NULL)
    _sp(eng, st, x, 24, NULL)
    eng.store(st, x, I32, 1)
    if left:
        _sp(eng, st, p, 16, x)
        if _eqp(p, h):
            _sp(eng, st, h, 8, x)
            _sp(eng, st, h, 24, x)
        elif _eqp(p, _lp(eng, st, h, 16)):
            _sp(eng, st, h, 16, x)
    else:
        _sp(eng, st, p, 24, x)
        if _eqp(p, _lp(eng, st, h, 24)):
            _sp(eng, st, h, 24, x)
    # header is distinguished by colour red(0) with parent's parent == header; keep root black
    return None


def rb_inc(eng, st, v, ins, rt, name):
    x = v[0]
    r = _lp(eng, st, x, 24)
    if r.obj:
        x = r
        while _lp(eng, st, x, 16).obj:
            x = _lp(eng, st, x, 16)
        return x
    y = _lp(eng, st, x, 8)
    while _eqp(x, _lp(eng, st, y, 24)):
        x = y
        y = _lp(eng, st, y, 8)
    if not _eqp(_lp(eng, st, x, 24), y):
        x = y
    return x


def rb_dec(eng, st, v, ins, rt, name):
    x = v[0]
    col = eng.load(st, x, I32)
    par = _lp(eng, st, x, 8)
    if col == 0 and par.obj and _eqp(_lp(eng, st, par, 8), x):
        return _lp(eng, st, x, 24)
    l = _lp(eng, st, x, 16)
    if l.obj:
        y = l
        while _lp(eng, st, y, 24).obj:
            y = _lp(eng, st, y, 24)
        return y
    y = par
    while _eqp(x, _lp(eng, st, y, 16)):
        x = y
        y = _lp(eng, st, y, 8)
    return y


def rb_erase(eng, st, v, ins, rt, name):
    z, h = v
    L, R, P = 16, 24, 8
    g = lambda n, o: _lp(eng, st, n, o)
    s = lambda n, o, x: _sp(eng, st, n, o, x)
    # maintain leftmost / rightmost
    if _eqp(g(h, 16), z):
        n = rb_inc(eng, st, [z], ins, rt, name)
        s(h, 16, n)
    if _eqp(g(h, 24), z):
        if _eqp(g(h, 16), h):
            s(h, 24, h)
        else:
            l = g(z, L)
            if l.obj:
                y = l
                while g(y, R).obj:
                    y = g(y, R)
                s(h, 24, y)
            else:
                s(h, 24, g(z, P))

    def replace(u, w):
        p = g(u, P)
        if _eqp(g(h, P), u):
            s(h, P, w)
        elif _eqp(g(p, L), u):
            s(p, L, w)
        else:
            s(p, R, w)
        if w.obj:
            s(w, P, p)
    if not g(z, L).obj:
        replace(z, g(z, R))
    elif not g(z, R).obj:
        replace(z, g(z, L))
    else:
        y = g(z, R)
        while g(y, L).obj:
            y = g(y, L)
        if not _eqp(g(y, P), z):
            replace(y, g(y, R))
            s(y, R, g(z, R))
            s(g(y, R), P, y)
        replace(z, y)
        s(y, L, g(z, L))
        s(g(y, L), P, y)
    return z


def list_hook(eng, st, v, ins, rt, name):
    n, pos = v  # _List_node_base{next,prev}
    prev = _lp(eng, st, pos, 8)
    _sp(eng, st, n, 0, pos)
    _sp(eng, st, n, 8, prev)
    _sp(eng, st, prev, 0, n)
    _sp(eng, st, pos, 8, n)


def list_unhook(eng, st, v, ins, rt, name):
    n = v[0]
    nx, pv = _lp(eng, st, n, 0), _lp(eng, st, n, 8)
    _sp(eng, st, pv, 0, nx)
    _sp(eng, st, nx, 8, pv)


def result_base(eng, st, v, ins, rt, name):
    # std::__future_base::_Result_base(): vtable pointer (set again by the derived constructor) and no exception
    ll_memset(eng, st, [v[0], 0, 16], ins, rt, name)


def lifetime(eng, st, v, ins, rt, name):
    return None


def install(eng):
    N = eng.natives
    N.update({
        "vc_int": vc_int, "vc_len": vc_int, "vc_bool": vc_bool, "vc_bytes": vc_bytes, "vc_alloc": vc_alloc, "vc_cstr": vc_cstr,
        "vc_assume": vc_assume, "vc_assert": vc_assert, "vc_reach": vc_reach, "vc_symbolic": vc_symbolic,
        "vc_bounded": vc_bounded, "vc_stop": vc_stop, "vc_assert_eq_bytes": vc_assert_eq_bytes,
        "vc_assert_all": vc_assert_all, "vc_assume_all": vc_assume_all, "vc_fill": vc_fill,
        "vc_snapshot": vc_snapshot, "vc_origin": vc_origin, "vc_protect": vc_protect, "vc_phase": vc_phase, "vc_co_new": vc_co_new, "vc_invariant": vc_invariant, "vc_co_resume": vc_co_resume, "vc_co_yield": vc_co_yield, "vc_freed": vc_freed, "vc_same_obj": vc_same_obj,
        "vc_live_heap": vc_live_heap, "vc_note": vc_note, "vc_inexact": vc_inexact, "vc_ghost_array": vc_ghost_array,
        "vc_assume_forall": vc_assume_forall, "vc_gcd": vc_gcd, "vc_lcm": vc_lcm, "vc_longs": vc_longs, "vc_ints": vc_ints, "vc_held": vc_held,
        # llvm
        "llvm.memcpy": ll_memcpy, "llvm.memmove": ll_memcpy, "llvm.memset": ll_memset, "llvm.bswap": ll_bswap,
        "llvm.umul": ll_overflow, "llvm.uadd": ll_overflow, "llvm.usub": ll_overflow,
        "llvm.smul": ll_overflow, "llvm.sadd": ll_overflow, "llvm.ssub": ll_overflow,
        "llvm.umin": ll_minmax, "llvm.umax": ll_minmax, "llvm.smin": ll_minmax, "llvm.smax": ll_minmax,
        "llvm.abs": ll_abs, "llvm.threadlocal": ret_arg0, "llvm.stacksave": ret0, "llvm.stackrestore": noop,
        "llvm.eh": typeid_for, "llvm.expect": ret_arg0, "llvm.is": ret0, "llvm.trap": crash("trap"),
        # libc
        "memcpy": c_memcpy, "memmove": c_memcpy, "memset": c_memset, "strlen": c_strlen, "strncpy": c_strncpy,
        "strcmp": c_strcmp, "memcmp": c_memcmp, "bcmp": c_memcmp, "memchr": c_memchr,
        "malloc": c_malloc, "free": op_delete, "__errno_location": errno_loc,
        # allocation
        "_Znwm": op_new, "_Znam": op_new, "_ZdlPv": op_delete, "_ZdaPv": op_delete, "_ZdlPvm": op_delete,
        "_ZdaPvm": op_delete, "_ZnwmSt11align_val_t": op_new, "_ZdlPvSt11align_val_t": op_delete,
        "_ZdlPvmSt11align_val_t": op_delete, "_ZnwmRKSt9nothrow_t": op_new, "_ZdlPvRKSt9nothrow_t": op_delete,
        # exceptions
        "__cxa_allocate_exception": cxa_alloc, "__cxa_free_exception": noop, "__cxa_throw": cxa_throw,
        "__cxa_begin_catch": cxa_begin, "__cxa_end_catch": cxa_end, "__cxa_rethrow": cxa_rethrow,
        "__cxa_get_exception_ptr": ret_arg0, "_ZSt9terminatev": crash("no-terminate"), "abort": crash("no-abort"),
        "__clang_call_terminate": crash("no-terminate"), "_ZSt21__glibcxx_assert_failPKciS0_S0_": crash("library-precondition"), "__assert_fail": assert_fail, "__cxa_pure_virtual": crash("no-pure-virtual-call"),
        "__cxa_atexit": ret0, "__cxa_guard_acquire": guard_acquire, "__cxa_guard_release": guard_release,
        "__cxa_guard_abort": noop, "__dynamic_cast": dynamic_cast, "__cxa_bad_cast": std_throw("_ZTISt8bad_cast"),
        "_ZSt19__throw_logic_errorPKc": std_throw("_ZTISt11logic_error"),
        "_ZSt20__throw_length_errorPKc": std_throw("_ZTISt12length_error"),
        "_ZSt20__throw_out_of_rangePKc": std_throw("_ZTISt12out_of_range"),
        "_ZSt24__throw_out_of_range_fmtPKcz": std_throw("_ZTISt12out_of_range"),
        "_ZSt24__throw_invalid_argumentPKc": std_throw("_ZTISt16invalid_argument"),
        "_ZSt17__throw_bad_allocv": std_throw("_ZTISt9bad_alloc"),
        "_ZSt28__throw_bad_array_new_lengthv": std_throw("_ZTISt20bad_array_new_length"),
        "__cxa_throw_bad_array_new_length": std_throw("_ZTISt20bad_array_new_length"),
        "_ZSt25__throw_bad_function_callv": std_throw("_ZTISt17bad_function_call"),
        "_ZSt20__throw_system_errori": std_throw("_ZTISt12system_error", 32),
        "_ZSt20__throw_future_errori": std_throw("_ZTISt12future_error", 32),
        "_ZSt20__throw_bad_weak_ptrv": std_throw("_ZTISt12bad_weak_ptr"),
        "_ZNSt3_V215system_categoryEv": glob("vc.system_category"),
        "_ZNSt3_V216generic_categoryEv": glob("vc.generic_category"),
        "_ZSt15future_categoryv": glob("vc.future_category"),
        # std::string primitives
        STR + "9_M_assignERKS4_": str_assign, STR + "9_M_appendEPKcm": str_append,
        STR + "10_M_replaceEmmPKcm": str_replace, STR + "8_M_eraseEmm": str_erase, STR + "6resizeEmc": str_resize,
        STR + "7reserveEm": str_reserve, STR + "7reserveEv": noop, STR + "9push_backEc": str_push_back,
        STR + "12_M_constructEmc": str_construct_fill, STRK + "8capacityEv": str_capacity,
        # containers
        "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm": rehash_need,
        "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm": next_bkt,
        "_ZSt11_Hash_bytesPKvmm": hash_bytes,
        "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_": rb_insert,
        "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base": rb_inc,
        "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base": rb_inc,
        "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base": rb_dec,
        "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base": rb_dec,
        "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_": rb_erase,
        "_ZNSt8__detail15_List_node_base7_M_hookEPS0_": list_hook,
        "_ZNSt8__detail15_List_node_base9_M_unhookEv": list_unhook,
        "_ZNSt8ios_base4InitC1Ev": noop, "_ZNSt8ios_base4InitD1Ev": noop,
        # mutexes (only when the contract file does not model them)
        "pthread_mutex_lock": mutex_ok, "pthread_mutex_unlock": mutex_unlock, "pthread_mutex_trylock": mutex_try,
        "_ZNSt13__future_base12_Result_baseC1Ev": result_base, "_ZNSt13__future_base12_Result_baseC2Ev": result_base,
        "_ZNSt6thread6_StateD1Ev": noop, "_ZNSt6thread6_StateD2Ev": noop,
        "_ZNSt13__future_base12_Result_baseD1Ev": noop, "_ZNSt13__future_base12_Result_baseD2Ev": noop,
        "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE": noop,
        "_ZNSt13random_device7_M_finiEv": noop,
        "_ZNSt18condition_variableC1Ev": noop, "_ZNSt18condition_variableD1Ev": noop,
        "vcnat.exdtor": noop, "vcnat.what": exc_what,
    })
    # rb insert mangled variants
    for k in list(N):
        pass
    for c in ("1", "2"):
        for cls in ("11logic_error", "13runtime_error", "12out_of_range", "12length_error", "16invalid_argument"):
            N["_ZNSt%sC%sERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" % (cls, c)] = exc_text_ctor(16)
            N["_ZNSt%sC%sEPKc" % (cls, c)] = exc_text_ctor(16)
            N["_ZNSt%sC%sERKS_" % (cls, c)] = exc_copy
        N["_ZNSt12system_errorC%sESt10error_codeRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" % c] = system_error_ctor
        N["_ZNSt12system_errorC%sESt10error_codePKc" % c] = system_error_ctor
        N["_ZNSt12system_errorC%sESt10error_code" % c] = system_error_ctor
    for cls in ("11logic_error", "13runtime_error", "12out_of_range", "12length_error", "16invalid_argument", "12system_error",
                "9exception", "9bad_alloc", "12future_error"):
        for d in ("0", "1", "2"):
            N["_ZNSt%sD%sEv" % (cls, d)] = noop
        N["_ZNKSt%s4whatEv" % cls] = exc_what
    for ty in "ijlmxy":
        N["_ZNSt7__cxx119to_stringE" + ty] = to_string
    eng.native_prefixes = [
        (STR + "12_M_constructI", str_construct_range),
        ("llvm.lifetime.", lifetime), ("llvm.va_start", lifetime), ("llvm.va_end", lifetime),
    ]


def extern_init(eng, st, o, name):
    """contents of well-known external globals; returns True when handled"""
    if name == "vc.errno":
        o.size, o.kind, o.dflt = 4, "global", 0
        return True
    if name.startswith("vc."):
        o.kind, o.size, o.dflt = "global", 64, 0
        return True
    if name.startswith("_ZTVSt"):
        o.kind, o.size, o.const, o.dflt = "global", 64, True, 0
        o.cells[8] = (8, eng.global_ptr(st, "_ZTI" + name[4:]))
        d = eng.global_ptr(st, "vcnat.exdtor")
        o.cells[16] = (8, d)
        o.cells[24] = (8, d)
        o.cells[32] = (8, eng.global_ptr(st, "vcnat.what"))
        return True
    if name.startswith("vcnat."):
        o.kind, o.const, o.size = "func", True, 1
        return True
    if name in ("in6addr_any", "in6addr_loopback"):
        o.kind, o.size, o.const, o.dflt = "global", 16, True, 0
        if name == "in6addr_loopback":
            o.cells[15] = (1, 1)
        return True
    if name == "__libc_single_threaded":           # reference counts are updated atomically
        o.kind, o.size, o.const, o.dflt = "global", 1, True, 0
        return True
    if name in ("_ZSt7nothrow",):
        o.kind = "global"
        o.dflt = 0
        return True
    return False
