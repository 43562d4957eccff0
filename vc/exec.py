"""Symbolic execution of LLVM IR into proof obligations (memory model, control flow, exceptions)."""
import re, struct, time
from . import terms as T
from . import irparse as IR
from .irparse import size_of, align_of, offsets, wrap
from .solver import Solver, PC, ROOT, QFact, model_int, model_bool, pc_list


class Unsupported(Exception):
    pass


class Undecided(Exception):
    """loop/engine limitation: this contract cannot be decided by proof"""


class PathEnd(Exception):
    """current path is finished (infeasible, assumed away or ended)"""


class Fork(Exception):
    def __init__(self, states):
        self.states = states


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "ptr(%s,%r)" % (self.obj, self.off)


NULL = Ptr(0, 0)
WILD = -1


class FUnk:
    def __repr__(self):
        return "fp?"


FUNK = FUnk()


class _NoRet:
    pass


NORET = _NoRet()


class Undef:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class Obj:
    __slots__ = ("id", "name", "size", "kind", "alive", "stride", "cells", "dflt", "fields", "owner", "const", "tag",
                 "inacc")

    def __init__(self, id, name, size, kind):
        self.id, self.name, self.size, self.kind = id, name, size, kind
        self.alive = True
        self.stride = None
        self.cells = {}
        self.dflt = None
        self.fields = None
        self.owner = None
        self.const = False
        self.tag = None
        self.inacc = ()

    def copy(self, owner):
        o = Obj(self.id, self.name, self.size, self.kind)
        o.alive, o.stride, o.dflt, o.const, o.tag, o.inacc = self.alive, self.stride, self.dflt, self.const, self.tag, self.inacc
        o.cells = dict(self.cells)
        o.fields = dict(self.fields) if self.fields is not None else None
        o.owner = owner
        return o


class Frame:
    __slots__ = ("fn", "block", "idx", "regs", "prev", "allocas", "call", "sync", "loopctx", "ins", "va", "flat")

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.entry
        self.ins = fn.blocks[fn.entry].get()
        self.idx = 0
        self.regs = {}
        self.prev = None
        self.allocas = []
        self.call = None
        self.sync = False
        self.va = ()
        self.flat = None          # in a resumed coroutine: number of passes per loop head

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.idx, f.prev, f.call, f.sync, f.ins, f.va = self.fn, self.block, self.idx, self.prev, self.call, self.sync, self.ins, self.va
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.flat = None if self.flat is None else dict(self.flat)
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "qfacts", "inputs", "sid", "exact", "caught", "ret", "uncaught", "notes", "ghost",
                 "steps", "loopv", "trace", "cos", "costack")
    _n = 0

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = ROOT
        self.qfacts = ()
        self.inputs = ()
        State._n += 1
        self.sid = State._n
        self.exact = True
        self.caught = ()
        self.ret = None
        self.uncaught = None
        self.notes = ()
        self.ghost = {}
        self.steps = 0
        self.loopv = {}
        self.trace = ()
        self.cos = {}             # suspended coroutines: id -> (frames, caught)
        self.costack = ()         # running ones: (id, frames below, caught of the resumer)

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc, s.qfacts, s.inputs, s.exact, s.caught = self.pc, self.qfacts, self.inputs, self.exact, self.caught
        s.ret, s.uncaught, s.notes, s.steps = self.ret, self.uncaught, self.notes, self.steps
        s.ghost = dict(self.ghost)
        s.loopv = dict(self.loopv)
        s.trace = self.trace
        s.cos = {k: ([f.copy() for f in fs] if isinstance(fs, list) else fs, c) for k, (fs, c) in self.cos.items()} if self.cos else {}
        s.costack = self.costack
        State._n += 1
        s.sid = State._n
        State._n += 1
        self.sid = State._n
        return s

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise PathEnd()
        if b.kind == "and":
            for x in b.args:
                self.pc = PC(self.pc, x)
        else:
            self.pc = PC(self.pc, b)


class Obligation:
    __slots__ = ("key", "kind", "where", "n", "trivial", "z3", "cvc5", "fail", "unknown", "models")

    def __init__(self, key, kind, where):
        self.key, self.kind, self.where = key, kind, where
        self.n = self.trivial = self.z3 = self.cvc5 = 0
        self.fail = []
        self.unknown = 0


STD_BASES = {
    "_ZTISt9exception": [],
    "_ZTISt11logic_error": ["_ZTISt9exception"], "_ZTISt13runtime_error": ["_ZTISt9exception"],
    "_ZTISt12system_error": ["_ZTISt13runtime_error"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
    "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt17bad_function_call": ["_ZTISt9exception"],
    "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"], "_ZTISt12future_error": ["_ZTISt11logic_error"],
    "_ZTISt12bad_weak_ptr": ["_ZTISt9exception"],
}


class Engine:
    def __init__(self, module, prelude=None, opts=None):
        self.m = module
        self.pre = prelude
        self.sol = Solver()
        self.sol.gcd_step = bool((opts or {}).get("gcd"))
        self.obls = {}
        self.reach = {}
        self.next_id = 1
        self.gids = {}
        self.gnames = {}
        self.natives = {}
        self.exc_ti = {}
        self.opts = dict(unroll=None, spec=4, maxsteps=4000000, maxconc=3000, maxpaths=20000, deadline=None)
        if opts:
            self.opts.update(opts)
        self.atomic_now = False  # the current access is atomic
        self.probe = 0           # >0: obligations are not recorded
        self.log_stack = None
        self.fns_executed = {}
        self.stubs_used = {}
        self.models_used = {}
        self.loops_abstract = {}
        self.loops_unrolled = {}
        self.cuts, self.ncuts = [], 0
        self.bounded = []
        self.loop_mode = {}
        self.paths = 0
        self.assumed = {}
        self.errno_id = None
        self.nofail = False
        self.first_fail_stop = False
        self.fun_ids = {}
        from . import loops
        models.install(self)
        self.loops = loops.Loops(self)

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size, kind):
        i = self.next_id
        self.next_id += 1
        o = Obj(i, name, size, kind)
        o.owner = st.sid
        st.mem[i] = o
        return o

    def wobj(self, st, i):
        o = st.mem[i]
        if o.owner != st.sid:
            o = o.copy(st.sid)
            st.mem[i] = o
        return o

    def obj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            nm = self.gnames.get(i)
            if nm is None:
                raise Unsupported("unknown object %r" % i)
            o = self._make_global(st, nm, i)
        return o

    def global_ptr(self, st, name):
        i = self.gids.get(name)
        if i is None:
            i = self.next_id
            self.next_id += 1
            self.gids[name] = i
            self.gnames[i] = name
        if i not in st.mem:
            self._make_global(st, name, i)
        return Ptr(i, 0)

    def find_global(self, name):
        if name in self.m.globals:
            return self.m, self.m.global_info(name)
        if self.pre and name in self.pre.globals:
            return self.pre, self.pre.global_info(name)
        return None, None

    def _make_global(self, st, name, i):
        mod, info = self.find_global(name)
        if info is None:
            if name in self.m.fns or name in self.m.decls or (self.pre and name in self.pre.fns):
                o = Obj(i, name, 1, "func")
                o.const = True
                o.owner = st.sid
                st.mem[i] = o
                return o
            o = Obj(i, name, 64, "extern")
            o.owner = st.sid
            st.mem[i] = o
            models.extern_init(self, st, o, name)
            return o
        o = Obj(i, name, size_of(info["ty"]), "global")
        o.owner = st.sid
        o.const = info["const"]
        st.mem[i] = o
        if info["init"] is not None:
            o.dflt = 0
            self._init_const(st, o, 0, info["ty"], info["init"])
        elif info["ext"]:
            o.dflt = None
            models.extern_init(self, st, o, name)
        return o

    def _init_const(self, st, o, off, ty, v):
        k = v[0]
        if k in ("zero", "undef"):
            return
        if k == "bytes":
            for j, b in enumerate(v[1]):
                if b:
                    o.cells[off + j] = (1, b - 256 if b > 127 else b)
            return
        if k == "agg":
            if ty.k == "struct":
                for (et, ev), eo in zip(v[2], offsets(ty)):
                    self._init_const(st, o, off + eo, et, ev)
            else:
                es = size_of(ty.el)
                for j, (et, ev) in enumerate(v[2]):
                    self._init_const(st, o, off + j * es, et, ev)
            return
        val = self.const(st, v, ty)
        if isinstance(val, (bool,)):
            val = int(val)
        if isinstance(val, Undef):
            return
        o.cells[off] = (size_of(ty), val)

    # ------------------------------------------------------------ values
    def const(self, st, v, ty=None):
        k = v[0]
        if k == "c":
            return v[1]
        if k == "g":
            name = v[1].lstrip("\x01")
            mod, info = self.find_global(name)
            if info is not None and info["alias"] is not None:
                return self.const(st, info["alias"])
            return self.global_ptr(st, name)
        if k == "null":
            return NULL
        if k == "undef":
            return Undef(v[1])
        if k == "f":
            return v[1]
        if k == "zero":
            return self.zero(v[1])
        if k == "cgep":
            base = self.const(st, v[2])
            idx = [(t, self.const(st, x)) for t, x in v[3]]
            return self.gep(st, v[1], base, idx)
        if k == "ccast":
            x = self.const(st, v[3], v[2])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == "cbin":
            return self.binop(st, v[1], v[2], self.const(st, v[3]), self.const(st, v[4]), ())
        if k == "cicmp":
            return self.icmp(st, v[1], v[2], self.const(st, v[3]), self.const(st, v[4]))
        if k == "agg":
            return [self.const(st, x, t) for t, x in v[2]]
        if k == "bytes":
            return [b - 256 if b > 127 else b for b in v[1]]
        raise Unsupported("const %r" % (v,))

    def zero(self, ty):
        k = ty.k
        if k == "int":
            return False if ty.n == 1 else 0
        if k == "ptr":
            return NULL
        if k == "fp":
            return 0.0
        if k == "struct":
            return [self.zero(e) for e in ty.elts]
        if k in ("array", "vector"):
            return [self.zero(ty.el) for _ in range(ty.n)]
        raise Unsupported("zero %r" % ty)

    def val(self, st, v, ty=None):
        if v[0] == "r":
            return st.frames[-1].regs[v[1]]
        return self.const(st, v, ty)

    def fresh_of(self, name, ty):
        if ty.k == "int":
            if ty.n == 1:
                return T.bvar(name)
            return T.var(name, -(1 << (ty.n - 1)), (1 << (ty.n - 1)) - 1)
        if ty.k == "ptr":
            return Ptr(WILD, T.var(name, 0, 2 ** 47))
        if ty.k == "fp":
            return FUNK
        if ty.k == "struct":
            return [self.fresh_of(name, e) for e in ty.elts]
        raise Unsupported("fresh %r" % ty)

    def defd(self, st, v, ty):
        """resolve undef to an arbitrary value"""
        if isinstance(v, Undef):
            return self.fresh_of("undef", ty if ty is not None else v.ty)
        return v

    # integer view of a pointer
    def ptr_to_int(self, st, p):
        if p.obj == 0:
            return p.off
        if p.obj == WILD:
            return p.off
        a = self.addr_var(p.obj)
        return T.add(a, p.off)

    _addr = {}

    def addr_var(self, i):
        a = Engine._addr.get(i)
        if a is None:
            at = T._mk_atom("var", ("addr!%d" % i,), ("addr!%d" % i,), 256, 2 ** 43)
            a = Engine._addr[i] = T.mulc(T.atom_lin(at), 16)
        return a

    def int_to_ptr(self, st, x):
        if isinstance(x, Ptr):
            return x
        if isinstance(x, int):
            return Ptr(0, x)
        for a, k in x.items:
            if a.kind == "var" and a.args[0].startswith("addr!") and k == 16:
                i = int(a.args[0][5:])
                return Ptr(i, T.sub(x, self.addr_var(i)))
        return Ptr(WILD, x)

    # ------------------------------------------------------------ solver access
    def sat(self, st, *b):
        r, _ = self.sol.check(st.pc, list(b), st.qfacts)
        return r != "unsat"

    def must(self, st, b):
        if isinstance(b, bool):
            return b
        r, _ = self.sol.check(st.pc, [T.bnot(b)], st.qfacts)
        return r == "unsat"

    def branch(self, st, c):
        """which of (true,false) are feasible"""
        if isinstance(c, bool):
            return c, not c
        if not self.sat(st, c):
            return False, True
        if not self.sat(st, T.bnot(c)):
            return True, False
        return True, True

    def split(self, st, c):
        """decide c on this path, forking if needed: returns bool after assuming it.  Re-executes the instruction in the
        forked state (caller must be free of side effects before calling)."""
        t, f = self.branch(st, c)
        if t and not f:
            return True
        if f and not t:
            return False
        if not t and not f:
            raise PathEnd()
        s2 = st.fork()
        st.assume(c)
        s2.assume(T.bnot(c))
        raise Fork([st, s2])

    # ------------------------------------------------------------ obligations
    def where(self, st):
        for f in reversed(st.frames):
            return f.fn.name
        return "?"

    def line(self, st):
        for f in reversed(st.frames):
            if f.idx > 0 or True:
                try:
                    i = f.ins[min(f.idx, len(f.ins) - 1)]
                    if i.line:
                        return i.line
                except Exception:
                    pass
        return 0

    def oblige(self, st, cond, kind, name=None, loc=None):
        """record proof obligation cond; afterwards assume it"""
        if self.probe:
            if cond is False:
                raise PathEnd()
            st.assume(cond)
            return
        where = self.where(st)
        key = name if name else "%s@%s" % (kind, where)
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = Obligation(key, kind, where)
        o.n += 1
        if cond is True:
            o.trivial += 1
            return
        neg = T.bnot(cond)
        c5 = self.sol.ncvc5
        r, _ = self.sol.check(st.pc, [neg], st.qfacts)
        if r == "unsat":
            if self.sol.ncvc5 > c5:
                o.cvc5 += 1
            else:
                o.z3 += 1
            return
        if r == "unknown":
            o.unknown += 1
        else:
            self.fail(st, o, neg)
        if cond is False:
            raise PathEnd()
        if not self.sat(st, cond):
            raise PathEnd()
        st.assume(cond)

    def fail(self, st, o, neg):
        if len(o.fail) < 6:
            f = dict(exact=st.exact, line=self.line(st), where=self.where(st), notes=list(st.notes),
                     stack=[fr.fn.name for fr in st.frames])
            f["inputs"] = self.concretize(st, neg)
            if f["inputs"] is not None and any(x.get("ghost") == "unsat" for x in f["inputs"]):
                return
            o.fail.append(f)
        else:
            o.fail.append(None)

    def cut_at(self, states):
        """remember inputs of paths that were given up in a loop: run on the real code they show whether it terminates"""
        for s in states:
            self.ncuts += 1
            # the first ones, then ever rarer ones
            if len(self.cuts) < 12 and self.ncuts & (self.ncuts - 1) == 0:
                x = self.concretize(s, True)
                if x is not None and s.exact:
                    self.cuts.append(x)

    def concretize(self, st, neg):
        """model for the inputs of this path; prefers small values"""
        smalls = []
        for kind, name, term, extra in st.inputs:
            if kind == "int" and not isinstance(term, (int, bool)):
                smalls.append(term)
            elif kind in ("bytes", "cbytes", "longs") and not isinstance(extra, int):
                smalls.append(extra)
        model = None
        base = [neg] if neg is not True else []
        for b in (8, 40, 300, 5000, None):
            ex = list(base)
            if b is not None:
                for s in smalls:
                    l = T.lo(s)
                    bb = b if l is None else max(b, l + b if l > 0 else b)
                    c = T.le(s, bb)
                    if c is not False:
                        ex.append(c)
                    c = T.le(-bb, s)
                    if c is not False:
                        ex.append(c)
            r, model = self.sol.check(st.pc, ex, st.qfacts, want_model=True, timeout=4000 if b is not None else None)
            if r == "sat" and model is not None:
                break
            model = None
        if model is None:
            return None
        out = []
        for kind, name, term, extra in st.inputs:
            if kind == "int":
                v = int(model_int(model, term))
                if not isinstance(term, (int, bool)):      # not constrained by this path: any value of its range
                    l, h = T.lo(term), T.hi(term)
                    v = l if l is not None and v < l else h if h is not None and v > h else v
                out.append(dict(k="i", n=name, v=v))
            elif kind == "bool":
                out.append(dict(k="i", n=name, v=int(model_bool(model, term))))
            elif kind == "longs":
                n = max(0, min(model_int(model, extra), 1 << 13))
                out.append(dict(k="l", n=name, v=[model_int(model, T.select(term, i)) for i in range(n)]))
            elif kind in ("bytes", "cbytes"):
                n = model_int(model, extra)
                n = max(0, min(n, 1 << 16))
                bs = [model_int(model, T.select(term, i)) & 255 for i in range(n)]
                if kind == "cbytes":
                    bs = [b or 97 for b in bs]
                out.append(dict(k="b", n=name, v=bs))
        return out

    # ------------------------------------------------------------ memory
    def check_access(self, st, p, n, kind, write=False):
        if p.obj == 0 or p.obj == WILD:
            self.oblige(st, False, "null-or-wild-pointer-access")
        o = self.obj(st, p.obj)
        if not o.alive:
            self.oblige(st, False, "use-after-free")
        if o.kind == "func":
            self.oblige(st, False, "data-access-to-function")
        if o.kind == "extern":
            raise Unsupported("access to external object " + o.name)
        if write and o.const:
            self.oblige(st, False, "write-to-constant")
        c = T.band(T.le(0, p.off), T.le(T.add(p.off, n), o.size))
        if isinstance(n, int) and n == 0:
            return o
        if c is not True and not isinstance(n, int):
            c = T.bor(T.le(n, 0), c)
        self.oblige(st, c, "in-bounds-" + ("write" if write else "read"))
        if o.inacc and not self.atomic_now:
            for (lo_, hi_, what) in o.inacc:
                inside = T.band(T.lt(p.off, hi_), T.lt(lo_, T.add(p.off, n)))
                if inside is not False:
                    self.oblige(st, T.bnot(inside), "protected-access", "access-only-with-lock-held:" + what)
        return o

    def ubyte(self, st, v):
        if isinstance(v, int):
            return v & 255
        if T.lo(v) is not None and T.lo(v) >= 0:
            return v
        return T.ite(T.lt(v, 0), T.add(v, 256), v)

    def unsigned(self, st, v, n):
        if isinstance(v, int):
            return v & ((1 << n) - 1)
        if T.lo(v) is not None and T.lo(v) >= 0:
            return v
        if self.must(st, T.le(0, v)):
            return v
        return T.ite(T.lt(v, 0), T.add(v, 1 << n), v)

    def signed(self, st, v, n):
        """canonicalise integer term known in [0,2^n) to signed"""
        if isinstance(v, int):
            return wrap(v, n)
        h = 1 << (n - 1)
        if T.hi(v) is not None and T.hi(v) < h:
            return v
        if self.must(st, T.lt(v, h)):
            return v
        return T.ite(T.le(h, v), T.sub(v, 1 << n), v)

    def wrap_term(self, st, r, n):
        """wrap arbitrary integer term into signed n-bit range"""
        if isinstance(r, int):
            return wrap(r, n)
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if T.lo(r) is not None and T.hi(r) is not None and T.lo(r) >= lo and T.hi(r) <= hi:
            return r
        if self.must(st, T.band(T.le(lo, r), T.le(r, hi))):
            return r
        for k in (-1, 1):
            r2 = T.add(r, k << n)
            if self.must(st, T.band(T.le(lo, r2), T.le(r2, hi))):
                return r2
        q = T.fdiv(T.add(r, 1 << (n - 1)), 1 << n)
        w = T.sub(r, T.mulc(q, 1 << n))
        # give it its range
        v = T.var("wrap", lo, hi)
        st.assume(T.eq(v, w))
        return v

    def cell_bytes(self, st, o, off, size, val):
        """little-endian unsigned byte list of a cell"""
        if isinstance(val, Ptr):
            val = self.ptr_to_int(st, val)
        if isinstance(val, float):
            val = struct.unpack("<q", struct.pack("<d", val))[0] if size == 8 else struct.unpack("<i", struct.pack("<f", val))[0]
        if isinstance(val, FUnk):
            return [self.ubyte(st, T.var("fpb", -128, 127)) for _ in range(size)]
        if size == 1:
            return [self.ubyte(st, val)]
        if isinstance(val, int):
            u = val & ((1 << (8 * size)) - 1)
            return [(u >> (8 * i)) & 255 for i in range(size)]
        u = val if (T.lo(val) is not None and T.lo(val) >= 0) else T.ite(T.lt(val, 0), T.add(val, 1 << (8 * size)), val)
        return [T.fmod(T.fdiv(u, 1 << (8 * i)), 256) for i in range(size)]

    def sbyte(self, b):
        if isinstance(b, int):
            return b - 256 if b > 127 else b
        if T.hi(b) is not None and T.hi(b) <= 127:
            return b
        # b = ite(v<0, v+256, v): recognise and return v
        if len(b.items) == 1 and b.c == 0 and b.items[0][1] == 1 and b.items[0][0].kind == "ite":
            c, x, y = b.items[0][0].args
            if isinstance(T.sub(x, y), int) and T.sub(x, y) == 256 and c is T.lt(y, 0):
                return y
        return T.ite(T.le(128, b), T.sub(b, 256), b)

    def get_bytes(self, st, o, off, n):
        """unsigned byte terms of object o at concrete offset (cells mode)"""
        out = []
        i = off
        while i < off + n:
            c = self._cell_at(o, i)
            if c is None:
                if o.dflt is not None:
                    out.append(o.dflt & 255)
                else:
                    w = self.wobj(st, o.id)
                    v = T.var("uninit_%s" % o.name, -128, 127)
                    w.cells[i] = (1, v)
                    o = w
                    out.append(self.ubyte(st, v))
                i += 1
            else:
                co, (cs, cv) = c
                bs = self.cell_bytes(st, o, co, cs, cv)
                k = min(co + cs, off + n) - i
                out.extend(bs[i - co:i - co + k])
                i += k
        return out

    def _cell_at(self, o, i):
        c = o.cells.get(i)
        if c is not None:
            return i, c
        for d in range(1, 16):
            c = o.cells.get(i - d)
            if c is not None:
                if c[0] > d:
                    return i - d, c
                return None
        return None

    def from_bytes(self, st, bs):
        v = 0
        for i, b in enumerate(bs):
            v = T.add(v, T.mulc(b, 1 << (8 * i)))
        return v

    def to_stride(self, st, o, S):
        """convert object from cells to strided (struct-of-arrays) representation"""
        o = self.wobj(st, o.id)
        o.stride = S
        o.fields = {}
        cells = o.cells
        o.cells = {}
        for off in sorted(cells):
            sz, v = cells[off]
            if S == 1:
                for j, b in enumerate(self.cell_bytes(st, o, off, sz, v)):
                    a = self.field(o, 0, 1)
                    o.fields[0] = (1, T.arr_store(a, off + j, self.sbyte(b)))
            else:
                fo = off % S
                if fo + sz > S:
                    raise Unsupported("cell crosses stride")
                if isinstance(v, Ptr):
                    v = self.ptr_to_int(st, v)
                if not isinstance(v, (int, T.Lin)):
                    raise Unsupported("non-integer in strided object")
                a = self.field(o, fo, sz)
                o.fields[fo] = (sz, T.arr_store(a, off // S, v))
        return o

    def field(self, o, fo, sz):
        f = o.fields.get(fo)
        if f is None:
            for g, (gs, ga) in o.fields.items():
                if g < fo + sz and fo < g + gs:
                    raise Unsupported("overlapping field widths in strided object")
            h = 1 << (8 * sz - 1)
            if o.dflt is not None:
                v = o.dflt
                if sz > 1 and v != 0:
                    raise Unsupported("default fill in wide field")
                a = T.arr_const(v, -h, h - 1)
            else:
                a = T.arr_base("%s.%d" % (o.name, fo), -h, h - 1)
            o.fields[fo] = (sz, a)
            return a
        if f[0] != sz:
            raise Unsupported("field width mismatch in strided object")
        return f[1]

    def locate(self, st, o, off, sz):
        """(field offset, element index) of an access in a strided object"""
        S = o.stride
        if isinstance(off, int):
            return off % S, off // S
        for a, k in off.items:
            if k % S:
                raise Unsupported("offset not a multiple of the stride (%r, %d)" % (off, S))
        fo = off.c % S
        return fo, T.fdiv(T.sub(off, fo), S)

    def pick_stride(self, st, o, off, sz):
        if sz == 1:
            return 1
        from math import gcd
        g = 0
        for a, k in off.items:
            g = gcd(g, k)
        if g < sz:
            return 1
        return g

    def enum_off(self, st, off, limit=24):
        """fork on the concrete values of a symbolic offset"""
        if T.lo(off) is None or T.hi(off) is None or T.hi(off) - T.lo(off) > 4096:
            raise Unsupported("symbolic offset too wide")
        vals = []
        pc = st.pc
        while len(vals) <= limit:
            ex = [T.ne(off, v) for v in vals]
            r, m = self.sol.check(pc, ex, st.qfacts, want_model=True)
            if r == "unsat":
                break
            if r != "sat" or m is None:
                raise Unsupported("cannot enumerate offset")
            vals.append(model_int(m, off))
        if len(vals) > limit:
            raise Unsupported("too many offsets")
        if not vals:
            raise PathEnd()
        return sorted(vals)

    def fork_values(self, st, term):
        key = ("value", T.tid(term))
        if key in st.ghost:
            return st.ghost[key]
        vals = self.enum_off(st, term)
        if len(vals) == 1:
            st.assume(T.eq(term, vals[0]))
            st.ghost[key] = vals[0]
            return vals[0]
        out = []
        for v in vals[1:]:
            s2 = st.fork()
            s2.assume(T.eq(term, v))
            s2.ghost[key] = v
            out.append(s2)
        st.assume(T.eq(term, vals[0]))
        st.ghost[key] = vals[0]
        raise Fork([st] + out)

    def load(self, st, p, ty, check=True):
        k = ty.k
        if k == "struct":
            return [self.load(st, Ptr(p.obj, T.add(p.off, eo)), e, check) for e, eo in zip(ty.elts, offsets(ty))]
        if k == "array":
            es = size_of(ty.el)
            return [self.load(st, Ptr(p.obj, T.add(p.off, i * es)), ty.el, check) for i in range(ty.n)]
        sz = size_of(ty)
        o = self.check_access(st, p, sz, "load") if check else self.obj(st, p.obj)
        off = p.off
        if not isinstance(off, int) and o.stride is None:
            off = self.resolve_off(st, off)
        if o.stride is None and not isinstance(off, int):
            o = self.sym_mode(st, o, off, sz)
        if o.stride is not None:
            if o.stride == 1 and sz > 1:
                bs = [self.ubyte(st, T.select(self.field(self.wobj(st, o.id), 0, 1), T.add(off, i))) for i in range(sz)]
                v = self.signed(st, self.from_bytes(st, bs), 8 * sz)
            else:
                fo, ix = self.locate(st, o, off, sz)
                f = o.fields.get(fo)
                if f is None:
                    o = self.wobj(st, o.id)
                v = T.select(self.field(o, fo, sz), ix)
            return self.from_int(st, v, ty)
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return self.from_int(st, c[1], ty)
        # slow path
        if c is None and not self._overlaps(o, off, sz):
            if o.dflt is not None:
                if o.dflt == 0:
                    return self.zero(ty)
            else:
                v = self.fresh_of("uninit_%s" % o.name, ty)
                if isinstance(v, T.B):
                    v = T.ite(v, 1, 0)
                w = self.wobj(st, o.id)
                w.cells[off] = (sz, v)
                return self.from_int(st, v, ty)
        bs = self.get_bytes(st, o, off, sz)
        return self.from_int(st, self.signed(st, self.from_bytes(st, bs), 8 * sz), ty)

    def resolve_off(self, st, off):
        if T.lo(off) is not None and T.lo(off) == T.hi(off):
            return T.lo(off)
        return st.ghost.get(("value", T.tid(off)), off)

    def _overlaps(self, o, off, sz):
        for i in range(off - 15, off + sz):
            c = o.cells.get(i)
            if c is not None and i + c[0] > off:
                return True
        return False

    def sym_mode(self, st, o, off, sz):
        """object in cells mode accessed at symbolic offset: switch representation or fork"""
        S = self.pick_stride(st, o, off, sz)
        try:
            if S > 1 or sz == 1:
                # pointers or mixed contents: try enumerating first when small
                if any(isinstance(v, Ptr) for _, v in o.cells.values()):
                    raise Unsupported("pointers")
                st2mem = dict(st.mem)
                try:
                    return self.to_stride(st, o, S)
                except Unsupported:
                    st.mem = st2mem
                    raise
        except Unsupported:
            pass
        self.fork_values(st, off)
        # single value left: retry the instruction
        raise Fork([st])

    def from_int(self, st, v, ty):
        k = ty.k
        if k == "int":
            if ty.n == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                if isinstance(v, T.B):
                    return v
                return T.ne(v, 0)
            if isinstance(v, Ptr):
                return self.ptr_to_int(st, v)
            if isinstance(v, float):
                return struct.unpack("<q", struct.pack("<d", v))[0] if ty.n == 64 else struct.unpack("<i", struct.pack("<f", v))[0]
            if isinstance(v, FUnk):
                return self.fresh_of("fpi", ty)
            if isinstance(v, Undef):
                return self.fresh_of("undef", ty)
            return v
        if k == "ptr":
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Undef):
                return self.fresh_of("undef", ty)
            return self.int_to_ptr(st, v)
        if k == "fp":
            if isinstance(v, (float, FUnk)):
                return v
            if isinstance(v, int):
                if ty.name == "double":
                    return struct.unpack("<d", struct.pack("<q", v))[0]
                if ty.name == "float":
                    return struct.unpack("<f", struct.pack("<i", v))[0]
            return FUNK
        return v

    def store(self, st, p, ty, v, check=True):
        k = ty.k
        if k == "struct":
            if isinstance(v, Undef):
                return
            for e, eo, x in zip(ty.elts, offsets(ty), v):
                self.store(st, Ptr(p.obj, T.add(p.off, eo)), e, x, check)
            return
        if k == "array":
            if isinstance(v, Undef):
                return
            es = size_of(ty.el)
            for i, x in enumerate(v):
                self.store(st, Ptr(p.obj, T.add(p.off, i * es)), ty.el, x, check)
            return
        sz = size_of(ty)
        o = self.check_access(st, p, sz, "store", True) if check else self.obj(st, p.obj)
        if isinstance(v, Undef):
            v = self.fresh_of("undef", ty)
        if isinstance(v, bool):
            v = int(v)
        elif isinstance(v, T.B):
            v = T.ite(v, 1, 0)
        off = p.off
        if not isinstance(off, int) and o.stride is None:
            off = self.resolve_off(st, off)
            if not isinstance(off, int):
                o = self.sym_mode(st, o, off, sz)
        o = self.wobj(st, o.id)
        if o.stride is not None:
            if isinstance(v, Ptr):
                v = self.ptr_to_int(st, v)
            if isinstance(v, (float, FUnk)):
                v = self.from_int(st, v, IR.int_ty(8 * sz))
            if o.stride == 1 and sz > 1:
                a = self.field(o, 0, 1)
                for j, b in enumerate(self.cell_bytes(st, o, 0, sz, v)):
                    a = T.arr_store(a, T.add(off, j), self.sbyte(b))
                o.fields[0] = (1, a)
                return
            fo, ix = self.locate(st, o, off, sz)
            a = self.field(o, fo, sz)
            o.fields[fo] = (sz, T.arr_store(a, ix, v))
            return
        self.put_cell(st, o, off, sz, v)

    def put_cell(self, st, o, off, sz, v):
        c = o.cells.get(off)
        if c is None or c[0] != sz:
            self.kill_range(st, o, off, sz)
        o.cells[off] = (sz, v)

    def kill_range(self, st, o, off, n):
        if n > 64:
            keys = [i for i in o.cells if i < off + n and i + o.cells[i][0] > off]
        else:
            keys = [i for i in range(off - 15, off + n) if i in o.cells and i + o.cells[i][0] > off]
        for i in keys:
            sz, v = o.cells.pop(i)
            if i < off or i + sz > off + n:
                bs = self.cell_bytes(st, o, i, sz, v)
                for j in range(sz):
                    if i + j < off or i + j >= off + n:
                        o.cells[i + j] = (1, self.sbyte(bs[j]))

    # bulk operations
    def as_bytes(self, st, o):
        """byte-array view (Arr) of the object; converts representation"""
        if o.stride is None:
            o = self.to_stride(st, o, 1)
        if o.stride != 1:
            raise Unsupported("byte view of strided object")
        if 0 not in o.fields:
            o = self.wobj(st, o.id)
        return self.field(o, 0, 1)

    def memcpy(self, st, d, s, n, check=True):
        if isinstance(n, int) and n == 0:
            return
        so = self.check_access(st, s, n, "memcpy-src") if check else self.obj(st, s.obj)
        do = self.check_access(st, d, n, "memcpy-dst", True) if check else self.obj(st, d.obj)
        so = self.obj(st, s.obj)
        do = self.obj(st, d.obj)
        if isinstance(n, int) and isinstance(s.off, int) and isinstance(d.off, int) and so.stride is None and do.stride is None:
            do = self.wobj(st, do.id)
            so = self.obj(st, s.obj)
            src = {i: c for i, c in so.cells.items() if i < s.off + n and i + c[0] > s.off}
            self.kill_range(st, do, d.off, n)
            full = isinstance(do.size, int) and n == do.size
            covered = 0
            for i in sorted(src):
                sz, v = src[i]
                if i < s.off or i + sz > s.off + n:
                    bs = self.cell_bytes(st, so, i, sz, v)
                    for j in range(sz):
                        if s.off <= i + j < s.off + n:
                            do.cells[i + j - s.off + d.off] = (1, self.sbyte(bs[j]))
                else:
                    do.cells[i - s.off + d.off] = (sz, v)
            if so.dflt is not None or do.dflt is not None:
                # gaps
                if full and d.off == 0 and s.off >= 0:
                    do.dflt = so.dflt
                elif so.dflt != do.dflt:
                    i = d.off
                    if so.dflt is not None:
                        while i < d.off + n:
                            c = do.cells.get(i)
                            if c:
                                i += c[0]
                                continue
                            do.cells[i] = (1, so.dflt)
                            i += 1
                    else:
                        while i < d.off + n:
                            c = do.cells.get(i)
                            if c:
                                i += c[0]
                                continue
                            do.cells[i] = (1, T.var("uninit", -128, 127))
                            i += 1
            return
        if do.stride is not None and do.stride > 1 or so.stride is not None and so.stride > 1:
            S = (so.stride if so.stride and so.stride > 1 else do.stride)
            try:
                return self._memcpy_strided(st, d, s, n, S)
            except Unsupported:
                if not (isinstance(n, int) and n <= 64):
                    raise
        if isinstance(n, int) and n <= 16 and (so.stride or do.stride):
            # small copies keep their word structure (pointers inside unions etc.)
            if so.stride is None and isinstance(s.off, int) and do.stride not in (None, 1):
                pass
        a = self.as_bytes(st, self.obj(st, s.obj))
        b = self.as_bytes(st, self.obj(st, d.obj))
        do = self.wobj(st, d.obj)
        do.fields[0] = (1, T.arr_copy(b, d.off, a, s.off, n))

    def _memcpy_strided(self, st, d, s, n, S):
        if isinstance(n, int):
            if n % S:
                raise Unsupported("strided memcpy size")
            cnt = n // S
        else:
            if any(k % S for _, k in n.items) or n.c % S:
                raise Unsupported("strided memcpy size")
            cnt = T.fdiv(n, S)
        so = self.obj(st, s.obj)
        if so.stride is None:
            so = self.to_stride(st, so, S)
        do = self.obj(st, d.obj)
        if do.stride is None:
            do = self.to_stride(st, do, S)
        if so.stride != S or do.stride != S:
            raise Unsupported("stride mismatch in memcpy")
        fo, si = self.locate(st, so, s.off, S)
        fo2, di = self.locate(st, do, d.off, S)
        if fo or fo2:
            raise Unsupported("unaligned strided memcpy")
        do = self.wobj(st, do.id)
        for f, (sz, a) in list(so.fields.items()):
            do.fields[f] = (sz, T.arr_copy(self.field(do, f, sz), di, a, si, cnt))
        for f, (sz, a) in list(do.fields.items()):
            if f not in so.fields:
                so = self.wobj(st, so.id)
                do.fields[f] = (sz, T.arr_copy(a, di, self.field(so, f, sz), si, cnt))

    def memset(self, st, d, v, n, check=True):
        if isinstance(n, int) and n == 0:
            return
        o = self.check_access(st, d, n, "memset", True) if check else self.obj(st, d.obj)
        o = self.wobj(st, d.obj)
        if isinstance(v, int):
            v = wrap(v, 8)
        if isinstance(n, int) and isinstance(d.off, int) and o.stride is None:
            if d.off == 0 and isinstance(o.size, int) and n == o.size and isinstance(v, int):
                o.cells = {}
                o.dflt = v if v == 0 else None
                if v == 0:
                    return
            if n <= 4096:
                self.kill_range(st, o, d.off, n)
                if o.dflt == 0 and isinstance(v, int) and v == 0:
                    return
                i = d.off
                while i < d.off + n:
                    if isinstance(v, int) and v == 0 and i % 8 == 0 and i + 8 <= d.off + n:
                        o.cells[i] = (8, 0)
                        i += 8
                    elif isinstance(v, int) and v == 0 and i % 4 == 0 and i + 4 <= d.off + n:
                        o.cells[i] = (4, 0)
                        i += 4
                    else:
                        o.cells[i] = (1, v)
                        i += 1
                return
        if isinstance(d.off, int) and d.off == 0 and isinstance(v, int) and v == 0 and self.same(o.size, n) and not o.cells and not o.fields:
            o.dflt = 0
            o.stride = None
            return
        if isinstance(d.off, int) and d.off == 0 and isinstance(v, int) and self.same(o.size, n) and (o.stride in (None, 1)):
            o.cells = {}
            o.stride = 1
            o.fields = {0: (1, T.arr_const(v))}
            return
        b = self.as_bytes(st, o)
        o = self.wobj(st, d.obj)
        o.fields[0] = (1, T.arr_fill(b, d.off, n, v))

    def same(self, a, b):
        d = T.sub(a, b)
        return isinstance(d, int) and d == 0

    def free(self, st, p, what):
        if p.obj == 0:
            if isinstance(p.off, int) and p.off == 0:
                return
        if p.obj in (0, WILD):
            self.oblige(st, False, "free-of-invalid-pointer")
        o = self.obj(st, p.obj)
        self.oblige(st, T.band(o.alive, o.kind == "heap", T.eq(p.off, 0)), "valid-free")
        o = self.wobj(st, p.obj)
        o.alive = False

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, ty, a, b, fl):
        if ty.k == "fp":
            return self.fbin(op, a, b)
        if ty.k == "vector":
            if isinstance(a, Undef):
                raise Unsupported("undef vector")
            return [self.binop(st, op, ty.el, x, y, fl) for x, y in zip(a, b)]
        a = self.defd(st, a, ty)
        b = self.defd(st, b, ty)
        n = ty.n
        if n == 1:
            return self.bool_op(op, a, b)
        if isinstance(a, Ptr):
            a = self.ptr_to_int(st, a)
        if isinstance(b, Ptr):
            b = self.ptr_to_int(st, b)
        if op in ("add", "sub", "mul"):
            r = T.add(a, b) if op == "add" else T.sub(a, b) if op == "sub" else T.mul(a, b)
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            if isinstance(r, int) and lo <= r <= hi:
                return r
            if "nsw" in fl:
                self.oblige(st, T.band(T.le(lo, r), T.le(r, hi)), "no-signed-overflow")
                return r
            return self.wrap_term(st, r, n)
        if op in ("sdiv", "srem"):
            self.oblige(st, T.ne(b, 0), "no-division-by-zero")
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                self.oblige(st, not (a == -(1 << (n - 1)) and b == -1), "no-division-overflow")
                return q if op == "sdiv" else a - q * b
            if not isinstance(b, int):
                bneg = self.split(st, T.lt(b, 0))
            else:
                bneg = b < 0
            aneg = (a < 0) if isinstance(a, int) else self.split(st, T.lt(a, 0))
            if bneg and aneg:
                self.oblige(st, T.bnot(T.band(T.eq(a, -(1 << (n - 1))), T.eq(b, -1))), "no-division-overflow")
            ua = T.neg(a) if aneg else a
            ub = T.neg(b) if bneg else b
            if op == "sdiv":
                q = T.fdiv(ua, ub)
                return T.neg(q) if aneg != bneg else q
            r = T.fmod(ua, ub)
            return T.neg(r) if aneg else r
        if op in ("udiv", "urem"):
            self.oblige(st, T.ne(b, 0), "no-division-by-zero")
            ua, ub = self.unsigned(st, a, n), self.unsigned(st, b, n)
            if op == "udiv":
                return self.signed(st, T.fdiv(ua, ub), n)
            return self.signed(st, T.fmod(ua, ub), n)
        if op == "shl":
            if isinstance(b, int):
                if isinstance(a, int):
                    return wrap(a << b, n)
                r = T.mulc(a, 1 << b)
                if "nsw" in fl:
                    self.oblige(st, T.band(T.le(-(1 << (n - 1)), r), T.le(r, (1 << (n - 1)) - 1)), "no-signed-overflow")
                    return r
                return self.wrap_term(st, r, n)
            if isinstance(a, int):
                v = self.fork_values(st, b)
                return wrap(a << v, n)
            raise Unsupported("symbolic shl")
        if op == "lshr":
            if isinstance(b, int):
                return self.signed(st, T.fdiv(self.unsigned(st, a, n), 1 << b), n)
            v = self.fork_values(st, b)
            return self.signed(st, T.fdiv(self.unsigned(st, a, n), 1 << v), n)
        if op == "ashr":
            if isinstance(b, int):
                return T.fdiv(a, 1 << b)
            v = self.fork_values(st, b)
            return T.fdiv(a, 1 << v)
        if op in ("and", "or", "xor"):
            return self.bitop(st, op, a, b, n)
        raise Unsupported(op)

    def bool_op(self, op, a, b):
        if op == "and":
            return T.band(a, b)
        if op == "or":
            return T.bor(a, b)
        if op in ("xor", "add", "sub"):
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                return T.bnot(a) if b else a
            return T.bor(T.band(a, T.bnot(b)), T.band(T.bnot(a), b))
        raise Unsupported("bool " + op)

    def bitop(self, st, op, a, b, n):
        if isinstance(a, int) and isinstance(b, int):
            r = a & b if op == "and" else a | b if op == "or" else a ^ b
            return wrap(r, n)
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            m = b & ((1 << n) - 1)
            full = (1 << n) - 1
            if op == "xor" and m == full:
                return T.sub(-1, a)
            if m == 0:
                return 0 if op == "and" else a
            if m == full:
                return a if op == "and" else -1
            x = self.and_mask(st, a, m, n)
            if op == "and":
                return x
            sm = wrap(m, n)
            if op == "or":
                return T.sub(T.add(a, sm), x)
            return T.sub(T.add(a, sm), T.mulc(x, 2))
        # symbolic-symbolic: disjoint bits?
        za, zb = self.trail(a), self.trail(b)
        ha, hb = self.width(st, a), self.width(st, b)
        if ha is not None and hb is not None and (ha <= zb or hb <= za):
            return 0 if op == "and" else T.add(a, b)
        wa, wb = ha, hb
        if wa is not None and wb is not None and max(wa, wb) <= 16:
            r = 0
            for i in range(max(wa, wb)):
                x = T.fmod(T.fdiv(a, 1 << i), 2)
                y = T.fmod(T.fdiv(b, 1 << i), 2)
                bx, by = T.eq(x, 1), T.eq(y, 1)
                c = self.bool_op(op, bx, by)
                r = T.add(r, T.mulc(T.ite(c, 1, 0), 1 << i))
            return r
        st.exact = False
        return T.var("bitop", -(1 << (n - 1)), (1 << (n - 1)) - 1)

    def trail(self, a):
        """number of known trailing zero bits"""
        if isinstance(a, int):
            return 64 if a == 0 else (a & -a).bit_length() - 1
        z = 64 if a.c == 0 else (a.c & -a.c).bit_length() - 1
        for _, k in a.items:
            z = min(z, (k & -k).bit_length() - 1)
        return z

    def width(self, st, a):
        """a is known to be in [0,2^w)"""
        if isinstance(a, int):
            return a.bit_length() if a >= 0 else None
        if T.lo(a) is None or T.lo(a) < 0 or T.hi(a) is None:
            for w in (1, 8, 16, 32):
                if self.must(st, T.band(T.le(0, a), T.lt(a, 1 << w))):
                    return w
            return None
        return T.hi(a).bit_length()

    def and_mask(self, st, a, m, n):
        runs = []
        i = 0
        while i < n:
            if (m >> i) & 1:
                j = i
                while j < n and (m >> j) & 1:
                    j += 1
                runs.append((i, j))
                i = j
            else:
                i += 1
        r = 0
        for i, j in runs:
            if j == n:
                # includes sign bit: floor(a / 2^i) * 2^i  keeps sign
                r = T.add(r, T.mulc(T.fdiv(a, 1 << i), 1 << i))
            else:
                x = a if i == 0 else T.fdiv(a, 1 << i)
                if T.lo(x) is not None and T.lo(x) >= 0 and T.hi(x) is not None and T.hi(x) < (1 << (j - i)):
                    pass
                else:
                    x = T.fmod(x, 1 << (j - i))
                r = T.add(r, T.mulc(x, 1 << i))
        return r

    def fbin(self, op, a, b):
        if not (isinstance(a, float) and isinstance(b, float)):
            return FUNK
        try:
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            if op == "fdiv":
                return a / b if b != 0 else FUNK
        except OverflowError:
            pass
        return FUNK

    def icmp(self, st, pred, ty, a, b):
        if ty.k == "ptr" or isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Undef):
                a = self.fresh_of("undef", ty)
            if isinstance(b, Undef):
                b = self.fresh_of("undef", ty)
            if not isinstance(a, Ptr):
                a = self.int_to_ptr(st, a)
            if not isinstance(b, Ptr):
                b = self.int_to_ptr(st, b)
            if pred in ("eq", "ne"):
                if a.obj == b.obj:
                    r = T.eq(a.off, b.off)
                elif (a.obj == WILD or b.obj == WILD) and not (a.obj == 0 or b.obj == 0):
                    r = T.bvar("wildcmp")
                elif a.obj == WILD or b.obj == WILD:
                    r = T.eq(a.off, b.off)
                else:
                    r = False
                return r if pred == "eq" else T.bnot(r)
            if a.obj == b.obj:
                x, y = a.off, b.off
            elif a.obj == 0 or b.obj == 0:
                x, y = (0 if a.obj == 0 else 1), (0 if b.obj == 0 else 1)
            else:
                x, y = self.ptr_to_int(st, a), self.ptr_to_int(st, b)
            pred = "s" + pred[1:] if pred[0] == "u" else pred
            return self.cmp(pred, x, y)
        a = self.defd(st, a, ty)
        b = self.defd(st, b, ty)
        if ty.k == "int" and ty.n == 1:
            if pred == "eq":
                return self.bool_op("xor", self.bool_op("xor", a, b), True)
            if pred == "ne":
                return self.bool_op("xor", a, b)
            raise Unsupported("i1 cmp " + pred)
        if pred in ("eq", "ne") or pred[0] == "s":
            return self.cmp(pred, a, b)
        n = ty.n
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << n) - 1
            return self.cmp("s" + pred[1:], a & m, b & m)
        an = self.sign(st, a)
        bn = self.sign(st, b)
        p = "s" + pred[1:]
        if an is not None and bn is not None:
            if an == bn:
                return self.cmp(p, a, b)
            return (pred in ("ugt", "uge")) if an else (pred in ("ult", "ule"))
        ua = T.add(T.ite(T.lt(a, 0), 1 << n, 0), a)
        ub = T.add(T.ite(T.lt(b, 0), 1 << n, 0), b)
        return self.cmp(p, ua, ub)

    def sign(self, st, a):
        """True: negative, False: >=0, None: unknown"""
        if T.lo(a) is not None and T.lo(a) >= 0:
            return False
        if T.hi(a) is not None and T.hi(a) < 0:
            return True
        if self.must(st, T.le(0, a)):
            return False
        if self.must(st, T.lt(a, 0)):
            return True
        return None

    def cmp(self, pred, a, b):
        if pred == "eq":
            return T.eq(a, b)
        if pred == "ne":
            return T.ne(a, b)
        if pred == "slt":
            return T.lt(a, b)
        if pred == "sle":
            return T.le(a, b)
        if pred == "sgt":
            return T.lt(b, a)
        if pred == "sge":
            return T.le(b, a)
        raise Unsupported(pred)

    def cast(self, st, op, sty, x, dty):
        if sty.k == "vector" or dty.k == "vector":
            raise Unsupported("vector cast")
        if op in ("bitcast", "addrspacecast"):
            return x
        if op == "ptrtoint":
            if isinstance(x, Undef):
                return self.fresh_of("undef", dty)
            return self.cast(st, "trunc", IR.int_ty(64), self.ptr_to_int(st, x), dty) if dty.n < 64 else self.ptr_to_int(st, x)
        if op == "inttoptr":
            if isinstance(x, Undef):
                return self.fresh_of("undef", dty)
            return self.int_to_ptr(st, x)
        if op in ("trunc", "zext", "sext"):
            x = self.defd(st, x, sty)
            if isinstance(x, Ptr):
                x = self.ptr_to_int(st, x)
            if op == "trunc":
                if dty.n == 1:
                    if isinstance(x, int):
                        return bool(x & 1)
                    if T.lo(x) is not None and T.lo(x) >= 0 and T.hi(x) is not None and T.hi(x) <= 1:
                        return T.eq(x, 1)
                    return T.eq(T.fmod(x, 2), 1)
                return self.wrap_term(st, x, dty.n)
            if op == "zext":
                if sty.n == 1:
                    if isinstance(x, bool):
                        return int(x)
                    return T.ite(x, 1, 0)
                return self.unsigned(st, x, sty.n)
            if sty.n == 1:
                if isinstance(x, bool):
                    return -1 if x else 0
                return T.ite(x, -1, 0)
            return x
        if op in ("sitofp", "uitofp"):
            if isinstance(x, bool):
                return float(int(x))
            if isinstance(x, int):
                if op == "uitofp":
                    x &= (1 << sty.n) - 1
                return float(x)
            return FUNK
        if op in ("fptosi", "fptoui"):
            if isinstance(x, float):
                return wrap(int(x), dty.n)
            st.exact = False
            return self.fresh_of("fptoi", dty)
        if op in ("fpext", "fptrunc"):
            if isinstance(x, float) and op == "fptrunc" and dty.name == "float":
                return struct.unpack("<f", struct.pack("<f", x))[0]
            return x
        raise Unsupported(op)

    def gep(self, st, bt, base, idx):
        off = base.off
        t = bt
        first = True
        for it, i in idx:
            if isinstance(i, Undef):
                i = self.fresh_of("undef", it)
            if first:
                off = T.add(off, T.mulc(i, size_of(t)) if not (isinstance(i, int) and i == 0) else 0)
                first = False
                continue
            if t.k == "struct":
                off = T.add(off, offsets(t)[i])
                t = t.elts[i]
            elif t.k in ("array", "vector"):
                t = t.el
                off = T.add(off, T.mulc(i, size_of(t)))
            else:
                raise Unsupported("gep into %r" % t)
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ calls and control flow
    def push_call(self, st, fn, args, call=None, sync=False):
        if len(st.frames) > 120:
            raise Undecided("call depth (unbounded recursion?) in " + fn.name)
        f = Frame(fn)
        self.fns_executed[fn.name] = self.fns_executed.get(fn.name, 0) + 1
        for (nm, t, at), v in zip(fn.params, args):
            if "byval" in at:
                o = self.new_obj(st, "byval", size_of(at["byval"]), "stack")
                f.allocas.append(o.id)
                self.memcpy(st, Ptr(o.id, 0), v, size_of(at["byval"]))
                v = Ptr(o.id, 0)
            f.regs[nm] = v
        for (nm, t, at) in fn.params[len(args):]:
            f.regs[nm] = Undef(t)
        f.va = tuple(args[len(fn.params):])
        f.call = call
        f.sync = sync
        st.frames.append(f)

    def do_return(self, st, v):
        f = st.frames.pop()
        for i in f.allocas:
            o = self.wobj(st, i)
            o.alive = False
        if f.sync or not st.frames:
            st.ret = v
            return "done"
        c = f.call
        fr = st.frames[-1]
        if c == "coroutine":
            _, base, caught = st.costack[-1]
            if base != len(st.frames):
                raise Unsupported("coroutine nesting")
            st.costack = st.costack[:-1]
            st.caught = caught
            self.finish_call(st, fr, fr.ins[fr.idx], 1)
            return None
        self.finish_call(st, fr, c, v)
        return None

    def finish_call(self, st, fr, ins, v):
        if ins.dst:
            fr.regs[ins.dst] = v
        if ins.op == "invoke":
            self.jump(st, fr, ins.a[3])
        else:
            fr.idx += 1

    def jump(self, st, fr, label):
        """transfer control inside a frame; phi nodes evaluated simultaneously"""
        fr.prev = fr.block
        fr.block = label
        fr.ins = fr.fn.blocks[label].get()
        fr.idx = 0
        ins = fr.ins
        if ins and ins[0].op == "phi":
            vals = []
            i = 0
            while ins[i].op == "phi":
                t, inc = ins[i].a
                vals.append((ins[i].dst, self.val(st, inc[fr.prev], t)))
                i += 1
            for d, v in vals:
                fr.regs[d] = v
            fr.idx = i
        # pending loop event is detected by the driver
        st.loopv["__jump"] = True

    def throw(self, st, exc, ti):
        """unwind with exception pointer exc of typeinfo name ti"""
        self.exc_ti[exc.obj] = ti
        self.unwind(st, exc)

    def unwind(self, st, exc):
        ti = self.exc_ti.get(exc.obj)
        while st.frames:
            fr = st.frames[-1]
            # the top frame is executing a call/invoke (fr.idx at that instruction)
            ins = fr.ins[fr.idx]
            if ins.op == "invoke":
                pad = fr.fn.blocks[ins.a[4]].get()
                k = 0
                while pad[k].op == "phi":
                    k += 1
                lp = pad[k]
                if lp.op != "landingpad":
                    raise Unsupported("no landingpad")
                t, cleanup, clauses = lp.a
                sel = None
                for kind, v in clauses:
                    if kind == "catch":
                        p = self.const(st, v)
                        if p.obj == 0:
                            sel = 1
                            break
                        nm = self.gnames[p.obj]
                        if self.ti_match(ti, nm):
                            sel = self.ti_id(nm)
                            break
                    else:
                        # filter: empty filter = nothing allowed -> matches (terminate/unexpected)
                        sel = -1
                        break
                if sel is None and not cleanup:
                    pass
                else:
                    self.jump(st, fr, ins.a[4])
                    fr.idx = k
                    fr.regs[lp.dst] = [exc, sel if sel is not None else 0]
                    fr.idx = k + 1
                    return
            f = st.frames.pop()
            for i in f.allocas:
                o = self.wobj(st, i)
                o.alive = False
            if f.call == "coroutine":
                self.oblige(st, False, "uncaught-exception-in-thread")
                raise PathEnd()
            if f.sync:
                st.uncaught = (exc, ti)
                st.loopv["__uncaught"] = True
                return
        st.uncaught = (exc, ti)

    def ti_id(self, nm):
        return self.fun_ids.setdefault("ti:" + nm, 2 + len(self.fun_ids))

    def ti_bases(self, nm):
        if nm in STD_BASES:
            return STD_BASES[nm]
        mod, info = self.find_global(nm)
        if info is None or info["init"] is None or info["init"][0] != "agg":
            return []
        out = []
        for et, ev in info["init"][2][2:]:
            if ev[0] == "g":
                out.append(ev[1])
        return out

    def ti_match(self, ti, nm):
        if ti == nm:
            return True
        return any(self.ti_match(b, nm) for b in self.ti_bases(ti))

    # ------------------------------------------------------------ main driver
    def explore(self, states, depth=0, loop=None, fn=None):
        """run states until they leave: returns (exits, backs).
        depth: number of frames that must remain; loop=(header, blocks) restricts to a loop body of frame depth."""
        work = list(states)
        exits, backs = [], []
        while work:
            st = work.pop()
            if self.opts["deadline"] and time.time() > self.opts["deadline"]:
                raise Undecided("time budget exhausted")
            try:
                ev = self.run(st, depth, loop)
            except PathEnd:
                self.paths += 1
                continue
            except Fork as f:
                if len(work) > self.opts["maxpaths"]:
                    raise Undecided("too many paths")
                work.extend(reversed(f.states))
                continue
            if ev == "exit":
                exits.append(st)
            elif ev == "back":
                backs.append(st)
            elif ev == "loop":
                work.extend(reversed(self.loops.handle(st)))
            else:
                raise AssertionError(ev)
        return exits, backs

    def run(self, st, depth, loop):
        """execute until an event"""
        maxsteps = self.opts["maxsteps"]
        while True:
            if st.loopv.pop("__uncaught", None):
                return "exit"
            n = len(st.frames)
            if n < depth or n == 0:
                return "exit"
            fr = st.frames[-1]
            if st.loopv.get("__jump"):
                del st.loopv["__jump"]
                if loop is not None and n == depth:
                    if fr.block == loop[0]:
                        return "back"
                    if fr.block not in loop[1]:
                        st.loopv["__jump"] = True
                        return "exit"
                lps = IR.find_loops(fr.fn)
                if fr.flat is not None:
                    if fr.block in lps and fr.prev in lps[fr.block]:
                        k = fr.flat[fr.block] = fr.flat.get(fr.block, 0) + 1
                        lim = self.opts.get("unroll")
                        if k > (lim * 8 if lim is not None else self.opts["maxconc"]):
                            if lim is None:
                                raise Undecided("loop across a thread switch too long in " + fr.fn.name)
                            self.cut_at([st])
                            if (fr.fn.name, fr.block) not in self.bounded:
                                self.bounded.append((fr.fn.name, fr.block))
                            raise PathEnd()
                elif fr.block in lps:
                    if fr.prev not in lps[fr.block]:
                        return "loop"
                    if not (loop is not None and n == depth and loop[0] == fr.block):
                        raise Unsupported("back edge outside loop context in " + fr.fn.name)
            ins = fr.ins[fr.idx]
            st.steps += 1
            if st.steps > maxsteps:
                raise Undecided("step limit")
            if st.steps % 2000 == 0 and self.opts["deadline"] and time.time() > self.opts["deadline"]:
                raise Undecided("time budget exhausted")
            self.step(st, fr, ins)

    def step(self, st, fr, ins):
        op = ins.op
        regs = fr.regs
        a = ins.a
        if op == "load":
            p = self.val(st, a[1])
            if isinstance(p, Undef):
                self.oblige(st, False, "null-or-wild-pointer-access")
            self.atomic_now = a[2]
            regs[ins.dst] = self.load(st, p, a[0])
            fr.idx += 1
        elif op == "store":
            v = self.val(st, a[1], a[0])
            p = self.val(st, a[2])
            self.atomic_now = a[3]
            self.store(st, p, a[0], v)
            fr.idx += 1
        elif op == "call" or op == "invoke":
            self.atomic_now = False
            self.do_call(st, fr, ins)
        elif op == "getelementptr":
            base = self.val(st, a[1])
            idx = [(t, self.val(st, v, t)) for t, v in a[2]]
            if isinstance(base, Undef):
                raise Unsupported("gep on undef")
            regs[ins.dst] = self.gep(st, a[0], base, idx)
            fr.idx += 1
        elif op == "br":
            if a[0] is None:
                self.jump(st, fr, a[1])
                return
            c = self.val(st, a[0])
            if isinstance(c, Undef):
                c = T.bvar("undef")
            t, f = self.branch(st, c)
            if t and f:
                s2 = st.fork()
                st.assume(c)
                s2.assume(T.bnot(c))
                self.jump(st, st.frames[-1], a[1])
                self.jump(s2, s2.frames[-1], a[2])
                raise Fork([st, s2])
            if t:
                self.jump(st, fr, a[1])
            elif f:
                self.jump(st, fr, a[2])
            else:
                raise PathEnd()
        elif op == "alloca":
            t, n = a
            size = size_of(t)
            if n is not None:
                cnt = self.val(st, n[1], n[0])
                size = T.mulc(cnt, size)
            o = self.new_obj(st, (ins.dst or "a")[1:], size, "stack")
            fr.allocas.append(o.id)
            regs[ins.dst] = Ptr(o.id, 0)
            fr.idx += 1
        elif op == "ret":
            v = None
            if a is not None:
                v = self.val(st, a[1], a[0])
            self.do_return(st, v)
        elif op in IR.BIN:
            regs[ins.dst] = self.binop(st, op, a[0], self.val(st, a[1], a[0]), self.val(st, a[2], a[0]), a[3])
            fr.idx += 1
        elif op == "icmp":
            regs[ins.dst] = self.icmp(st, a[0], a[1], self.val(st, a[2], a[1]), self.val(st, a[3], a[1]))
            fr.idx += 1
        elif op in IR.CAST:
            regs[ins.dst] = self.cast(st, op, a[0], self.val(st, a[1], a[0]), a[2])
            fr.idx += 1
        elif op == "select":
            c = self.val(st, a[1])
            x, y = self.val(st, a[2], a[0]), self.val(st, a[3], a[0])
            if isinstance(c, Undef):
                c = T.bvar("undef")
            if isinstance(c, bool):
                r = x if c else y
            elif a[0].k == "int":
                x, y = self.defd(st, x, a[0]), self.defd(st, y, a[0])
                r = T.ite(c, x, y) if not isinstance(x, Ptr) and not isinstance(y, Ptr) else (x if self.split(st, c) else y)
            else:
                r = x if self.split(st, c) else y
            regs[ins.dst] = r
            fr.idx += 1
        elif op == "switch":
            t, v, d, cases = a
            x = self.defd(st, self.val(st, v, t), t)
            if isinstance(x, int):
                for cv, lab in cases:
                    if cv[1] == x:
                        return self.jump(st, fr, lab)
                return self.jump(st, fr, d)
            out = []
            rest = []
            for cv, lab in cases:
                c = T.eq(x, cv[1])
                rest.append(T.bnot(c))
                if self.sat(st, c):
                    out.append((c, lab))
            c = T.band(*rest)
            if c is not False and self.sat(st, c):
                out.append((c, d))
            if not out:
                raise PathEnd()
            states = []
            for c, lab in out[1:]:
                s2 = st.fork()
                s2.assume(c)
                self.jump(s2, s2.frames[-1], lab)
                states.append(s2)
            c, lab = out[0]
            st.assume(c)
            self.jump(st, st.frames[-1], lab)
            if states:
                raise Fork([st] + states)
        elif op == "extractvalue":
            v = self.val(st, a[1], a[0])
            for i in a[2]:
                if isinstance(v, Undef):
                    t = v.ty
                    v = Undef(t.elts[i] if t.k == "struct" else t.el)
                else:
                    v = v[i]
            regs[ins.dst] = v
            fr.idx += 1
        elif op == "insertvalue":
            v = self.val(st, a[1], a[0])
            x = self.val(st, a[3], a[2])
            regs[ins.dst] = self.insert(a[0], v, x, a[4])
            fr.idx += 1
        elif op == "resume":
            v = self.val(st, a[1], a[0])
            # unwind from caller of this frame
            f = st.frames.pop()
            for i in f.allocas:
                self.wobj(st, i).alive = False
            if f.sync or not st.frames:
                st.uncaught = (v[0], self.exc_ti.get(v[0].obj))
                st.loopv["__uncaught"] = True
                return
            self.unwind(st, v[0])
        elif op == "unreachable":
            self.oblige(st, False, "unreachable-executed")
        elif op == "fcmp":
            x, y = self.val(st, a[2], a[1]), self.val(st, a[3], a[1])
            if isinstance(x, float) and isinstance(y, float):
                r = {"oeq": x == y, "ogt": x > y, "oge": x >= y, "olt": x < y, "ole": x <= y, "one": x != y, "une": x != y,
                     "ueq": x == y, "ugt": x > y, "uge": x >= y, "ult": x < y, "ule": x <= y, "ord": True, "uno": False}[a[0]]
            else:
                st.exact = False
                r = T.bvar("fcmp")
            regs[ins.dst] = r
            fr.idx += 1
        elif op == "atomicrmw":
            self.atomic_now = True
            o, p, t, v = a
            p = self.val(st, p)
            old = self.load(st, p, t)
            v = self.val(st, v, t)
            if o == "xchg":
                new = v
            elif o in ("add", "sub", "and", "or", "xor"):
                new = self.binop(st, o, t, old, v, ())
            else:
                raise Unsupported("atomicrmw " + o)
            self.store(st, p, t, new)
            regs[ins.dst] = old
            fr.idx += 1
        elif op == "cmpxchg":
            self.atomic_now = True
            p, t, c, nw = a
            p = self.val(st, p)
            old = self.load(st, p, t)
            c = self.val(st, c, t)
            eq = self.icmp(st, "eq", t, old, c)
            eq = self.split(st, eq) if not isinstance(eq, bool) else eq
            if eq:
                self.store(st, p, t, self.val(st, nw, t))
            regs[ins.dst] = [old, eq]
            fr.idx += 1
        elif op == "fence":
            fr.idx += 1
        elif op == "freeze":
            regs[ins.dst] = self.defd(st, self.val(st, a[1], a[0]), a[0])
            fr.idx += 1
        elif op == "fneg":
            v = self.val(st, a[1], a[0])
            regs[ins.dst] = -v if isinstance(v, float) else FUNK
            fr.idx += 1
        elif op == "landingpad":
            raise Unsupported("landingpad reached directly")
        else:
            raise Unsupported("instruction " + op)

    def insert(self, ty, v, x, idx):
        if isinstance(v, Undef):
            n = len(ty.elts) if ty.k == "struct" else ty.n
            v = [Undef(ty.elts[i] if ty.k == "struct" else ty.el) for i in range(n)]
        else:
            v = list(v)
        i = idx[0]
        if len(idx) == 1:
            v[i] = x
        else:
            v[i] = self.insert(ty.elts[i] if ty.k == "struct" else ty.el, v[i], x, idx[1:])
        return v

    def do_call(self, st, fr, ins):
        rt, callee, args, norm, unw = ins.a
        if callee[0] == "g":
            name = callee[1].lstrip("\x01")
        elif callee[0] == "asm":
            # empty asm barriers only
            if rt.k == "void":
                self.finish_call(st, fr, ins, None)
                return
            raise Unsupported("inline asm")
        else:
            p = self.val(st, callee)
            if not isinstance(p, Ptr) or p.obj in (0, WILD):
                self.oblige(st, False, "call-through-valid-pointer")
            o = self.obj(st, p.obj)
            if o.kind != "func":
                raise Unsupported("indirect call to %s" % o.name)
            name = o.name
        if name.startswith("llvm.lifetime"):
            p = self.val(st, args[1][1], args[1][0])
            if isinstance(p, Ptr) and p.obj in st.mem and p.off == 0:
                o = st.mem[p.obj]
                if o.kind == "stack" and (o.cells or o.fields or o.dflt is not None):
                    o = self.wobj(st, p.obj)
                    o.cells, o.fields, o.stride, o.dflt = {}, None, None, None
            self.finish_call(st, fr, ins, None)
            return
        if name.startswith("llvm.dbg") or name.startswith("llvm.experimental.noalias") \
                or name == "llvm.assume":
            self.finish_call(st, fr, ins, None)
            return
        vals = []
        for t, v, at in args:
            if v is None:
                vals.append(None)
                continue
            x = self.val(st, v, t)
            vals.append(x)
        # byval at call site
        self.invoke_name(st, fr, ins, name, vals, rt)

    def invoke_name(self, st, fr, ins, name, vals, rt):
        mod, info = (None, None)
        if name not in self.m.fns:
            mod, info = self.find_global(name)
            if info is not None and info["alias"] is not None:
                a = info["alias"]
                if a[0] == "g":
                    name = a[1]
        stub = "vc_stub." + name
        cur = fr.fn.name
        if stub in self.m.fns and (self.opts.get("unroll") is None or self.opts.get("bounded")) and cur != stub and not self.in_stub(st, stub) \
                and any(re.search(x, name) for x in self.opts.get("stubs", ())):
            self.stubs_used[name] = self.stubs_used.get(name, 0) + 1
            fn = self.m.fn(stub)
            self.push_call(st, fn, vals, ins)
            return
        w = "__wrap_" + name
        if w in self.m.fns and cur != w:
            self.models_used[name] = self.models_used.get(name, 0) + 1
            self.push_call(st, self.m.fn(w), vals, ins)
            return
        if name.startswith("__real_"):
            name = name[7:]
        nat = self.natives.get(name)
        if nat is None and name.startswith("llvm."):
            nat = self.natives.get(".".join(name.split(".")[:2]))
        if nat is None:
            for pref, fnn in self.native_prefixes:
                if name.startswith(pref):
                    nat = fnn
                    break
        if nat is not None:
            if not name.startswith(("vc_", "llvm.", "__cxa", "_Znw", "_Zna", "_Zd")):
                self.models_used[name] = self.models_used.get(name, 0) + 1
            depth = len(st.frames)
            r = nat(self, st, vals, ins, rt, name)
            if r is NORET:
                return
            # the native may have replaced frames by forking; only continue in this state
            self.finish_call(st, st.frames[-1], ins, r)
            return
        fn = self.m.fn(name)
        if fn is None and self.pre is None and self.opts.get("prelude"):
            self.pre = self.opts["prelude"]()
        if fn is None and self.pre is not None:
            fn = self.pre.fn(name)
            if fn is not None:
                self.models_used[name] = self.models_used.get(name, 0) + 1
        if fn is None:
            raise Unsupported("external function " + name)
        self.push_call(st, fn, vals, ins)

    def in_stub(self, st, stub):
        return any(f.fn.name == stub for f in st.frames)

    def call_sync(self, st, fname, args):
        """run function to completion from st; returns list of (state, retval)"""
        fn = self.m.fn(fname) or (self.pre.fn(fname) if self.pre else None)
        if fn is None:
            raise Unsupported("no function " + fname)
        depth = len(st.frames)
        self.push_call(st, fn, args, None, True)
        exits, _ = self.explore([st], depth + 1)
        return [(s, s.ret) for s in exits]

    def run_global_ctors(self, st):
        """execute dynamic initialisers of the module"""
        for mod in (self.m,):
            if "llvm.global_ctors" not in mod.globals:
                continue
            info = mod.global_info("llvm.global_ctors")
            for et, ev in info["init"][2]:
                fnn = ev[2][1][1][1]
                res = self.call_sync(st, fnn, [])
                if len(res) != 1:
                    raise Unsupported("global initialiser forks")
                st = res[0][0]
        return st





from . import models  # noqa: E402
