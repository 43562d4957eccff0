"""Loops: concrete unrolling where the control flow is concrete, otherwise an inductive invariant.

The invariant is found automatically (ghost iteration counter, linear cells, proportional cells, array summaries,
Houdini-filtered inequalities, per-iteration path facts) and then *verified*: the body is executed once from the
abstract state with all obligations recorded, and every back edge must land inside the abstract state again."""
import os
import sys
from . import terms as T
from . import irparse as IR
from .exec import Unsupported, Undecided, PathEnd, Fork, Ptr, WILD, Undef, FUnk
from .solver import QFact, pc_list, PC, model_int


class Loc:
    """a location modified by the loop"""
    def __init__(self, key, kind, entry):
        self.key = key
        self.kind = kind          # int, ptr, bool(reg), arr, size, fp
        self.entry = entry
        self.mode = "fresh"       # fresh | lin | rel | sum | havoc
        self.c = None             # lin: increment
        self.rel = None           # rel: (other key, k)
        self.var = None           # current fresh atom (Lin)
        self.nolin = False
        self.guess = False
        self.norel = set()
        self.summ = None
        self.nosum = 0
        self.width = 64
        self.unsafe = False

    def __repr__(self):
        return "%s:%s" % (self.key, self.mode)


class Plan:
    pass


def new_bv():
    n = T.fresh_name("j")
    return T._mk_atom("var", (n + "!q",), (n + "!q",), None, None)


class Loops:
    def __init__(self, eng):
        self.eng = eng
        self.abstracted = {}
        self.facts = []

    # ------------------------------------------------------------------ entry
    def handle(self, st):
        eng = self.eng
        fr = st.frames[-1]
        header = fr.block
        blocks = IR.find_loops(fr.fn)[header]
        depth = len(st.frames)
        key = (fr.fn.name, header)
        K = eng.opts.get("unroll")
        orig = st.fork()
        states = [st]
        exits = []
        sym = 0
        conc = 0
        spec = eng.opts["spec"] if key not in self.abstracted else 0
        if key[0] in eng.opts.get("spec_fn", {}):
            spec = eng.opts["spec_fn"][key[0]]
        lim = K if K is not None else spec
        cut = False
        while states:
            ex, bk = eng.explore(states, depth, (header, blocks))
            exits.extend(ex)
            if not bk:
                break
            if ex or len(bk) > 1:
                sym += 1
                if sym > lim or (K is None and sym > 1 and len(exits) + len(bk) > eng.opts.get("specpaths", 40)):
                    cut = True
                    if K is not None:
                        eng.cut_at(bk)
                    break
            else:
                conc += 1
                if conc > eng.opts["maxconc"]:
                    eng.cut_at(bk)
                    raise Undecided("concrete loop too long in %s" % key[0])
            if len(exits) + len(bk) > eng.opts["maxpaths"]:
                raise Undecided("too many paths in loop of %s" % key[0])
            states = bk
        if not cut:
            eng.loops_unrolled[key] = max(eng.loops_unrolled.get(key, 0), sym + conc + 1)
            return exits
        if K is not None:
            if key not in eng.bounded:
                eng.bounded.append(key)
            return exits
        self.abstracted[key] = 1
        return self.abstract(orig, key, header, blocks, depth)

    # ------------------------------------------------------------------ state differences
    def diff(self, G, b, depth):
        """locations whose value differs between G and back state b"""
        eng = self.eng
        out = {}
        if len(b.frames) != len(G.frames):
            raise Undecided("frame depth")
        for i, o in b.mem.items():
            g = G.mem.get(i)
            if g is None:
                if i in eng.gnames:
                    # global touched for the first time inside the loop
                    g = self.fresh_global(G, i)
                else:
                    continue
            if g is o:
                continue
            if g.alive != o.alive:
                if g.kind == "stack":
                    continue
                raise Undecided("object %s freed in loop" % o.name)
            if not o.alive:
                continue
            if g.inacc != o.inacc:
                raise Undecided("access rights change in loop %r %r" % (g.inacc, o.inacc))
            if g.size is not o.size and not eng.same(g.size, o.size):
                out[("s", i)] = (g.size, o.size)
            if g.stride != o.stride:
                if o.stride is not None and g.stride is None:
                    out[("conv", i)] = (None, o.stride)
                    continue
                if o.stride is None and not o.cells and o.fields is None:
                    # lifetime ended
                    out[("conv", i)] = (None, g.stride)
                    continue
                raise Undecided("representation change in loop")
            if g.stride is None:
                if g.dflt != o.dflt:
                    if not g.cells and g.kind == "stack":
                        pass
                    else:
                        raise Undecided("bulk change of %s in loop" % o.name)
                for off, c in o.cells.items():
                    gc = g.cells.get(off)
                    if gc is None:
                        gc = self.cell_of(G, g, off, c)
                    if gc[0] != c[0]:
                        if isinstance(gc[1], int) and not isinstance(gc[1], bool) and gc[0] in (2, 4, 8) and c[0] < gc[0]:
                            out[("split", i, off, gc[0], c[0])] = (None, None)
                            continue
                        raise Undecided("cell width change in loop (%s+%d)" % (o.name, off))
                    if not self.same_val(gc[1], c[1]):
                        out[("c", i, off, c[0])] = (gc[1], c[1])
                for off, gc in g.cells.items():
                    if off not in o.cells:
                        if g.kind == "stack" and not o.cells:
                            # lifetime ended: forget in entry as well
                            out[("dead", i)] = (None, None)
                            break
                        cc = self.cell_of(b, o, off, gc)
                        if not self.same_val(gc[1], cc[1]):
                            out[("c", i, off, gc[0])] = (gc[1], cc[1])
            else:
                fields = set(o.fields) | set(g.fields)
                for fo in fields:
                    of, gf = o.fields.get(fo), g.fields.get(fo)
                    if gf is None:
                        G.mem[i] = g = g.copy(G.sid)
                        eng.field(g, fo, of[0])
                        gf = g.fields[fo]
                    if of is None:
                        continue
                    if of[1] is not gf[1]:
                        out[("f", i, fo, of[0])] = (gf[1], of[1])
        gr, br = G.frames[-1].regs, b.frames[-1].regs
        for ins in G.frames[-1].fn.blocks[G.frames[-1].block].get():
            if ins.op != "phi":
                break
            if not self.same_val(gr[ins.dst], br[ins.dst]):
                out[("r", ins.dst, ins.a[0])] = (gr[ins.dst], br[ins.dst])
        for k, v in b.ghost.items():
            if k in G.ghost:
                if G.ghost[k] != v and k[0] != "cstr":
                    raise Undecided("ghost state %r changes in loop" % (k,))
            elif k[0] == "held" and v:
                raise Undecided("lock taken in loop and kept")
        if len(b.caught) != len(G.caught):
            raise Undecided("exception state in loop")
        return out

    def fresh_global(self, G, i):
        eng = self.eng
        return eng._make_global(G, eng.gnames[i], i)

    def cell_of(self, st, o, off, like):
        """value of a cell absent in o"""
        eng = self.eng
        sz, v = like
        if o.dflt == 0 and not eng._overlaps(o, off, sz):
            from .exec import NULL
            return (sz, NULL if isinstance(v, Ptr) else 0)
        if not eng._overlaps(o, off, sz):
            if isinstance(v, Ptr):
                return (sz, Undef(IR.PTR))
            return (sz, Undef(IR.int_ty(8 * sz)))
        if isinstance(v, Ptr):
            raise Undecided("cell structure changes in loop")
        # compose
        bs = eng.get_bytes(st, o, off, sz)
        return (sz, eng.signed(st, eng.from_bytes(st, bs), 8 * sz))

    def same_val(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.obj == b.obj and self.eng.same(a.off, b.off)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return False
        if isinstance(a, (bool, T.B)) or isinstance(b, (bool, T.B)):
            return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
        if isinstance(a, (int, T.Lin)) and isinstance(b, (int, T.Lin)):
            return self.eng.same(a, b)
        if isinstance(a, float) and isinstance(b, float):
            return a == b
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return all(self.same_val(x, y) for x, y in zip(a, b))
        return False

    # ------------------------------------------------------------------ reading/writing locations
    def get(self, st, key):
        k = key[0]
        if k == "c":
            o = st.mem[key[1]]
            c = o.cells.get(key[2])
            if c is None or c[0] != key[3]:
                if o.dflt == 0 and not self.eng._overlaps(o, key[2], key[3]):
                    return 0
                if not self.eng._overlaps(o, key[2], key[3]):
                    return Undef(IR.int_ty(8 * key[3]))
                bs = self.eng.get_bytes(st, o, key[2], key[3])
                return self.eng.signed(st, self.eng.from_bytes(st, bs), 8 * key[3])
            return c[1]
        if k == "s":
            return st.mem[key[1]].size
        if k == "f":
            o = st.mem[key[1]]
            if key[2] not in o.fields:
                o = self.eng.wobj(st, key[1])
            return self.eng.field(o, key[2], key[3])
        if k == "r":
            return st.frames[-1].regs[key[1]]
        raise AssertionError(key)

    def put(self, st, key, v):
        k = key[0]
        if k == "c":
            o = self.eng.wobj(st, key[1])
            self.eng.put_cell(st, o, key[2], key[3], v)
        elif k == "s":
            self.eng.wobj(st, key[1]).size = v
        elif k == "f":
            self.eng.wobj(st, key[1]).fields[key[2]] = (key[3], v)
        elif k == "r":
            st.frames[-1].regs[key[1]] = v

    # ------------------------------------------------------------------ inference
    def abstract(self, S0, key, header, blocks, depth):
        eng = self.eng
        if eng.opts.get("noabstract"):
            raise Undecided("loop in %s" % key[0])
        eng.probe += 1
        try:
            plan = self.infer(S0, key, header, blocks, depth)
        finally:
            eng.probe -= 1
        G = self.build(plan, True)
        exits, backs = eng.explore([G.fork()], depth, (header, blocks))
        backs, leaves = self.phases(G, backs)
        self.verify(plan, G, backs, depth, final=True)
        for e in exits:
            e.exact = False
        for b in leaves:
            # an iteration that changes the shape of the state ends this phase; the loop goes on from there
            if b.ghost.get(("phase",), 0) > eng.opts.get("phases", 4):
                raise Undecided("too many phases of the loop in %s" % key[0])
            b.exact = False
            exits.extend(self.handle(b))
        eng.loops_abstract[key] = eng.loops_abstract.get(key, 0) + 1
        return exits

    def phases(self, G, backs):
        """back edges of this phase, and those marked by the contract as the beginning of another one"""
        p = G.ghost.get(("phase",), 0)
        return ([b for b in backs if b.ghost.get(("phase",), 0) == p], [b for b in backs if b.ghost.get(("phase",), 0) != p])

    def infer(self, S0, key, header, blocks, depth):
        eng = self.eng
        plan = Plan()
        plan.S0 = S0
        plan.locs = {}
        plan.cands = []
        plan.key = key
        plan.qf = None
        plan.opt = {}
        plan.optbad = set()
        rounds = 0
        while True:
            rounds += 1
            if rounds > (60 if eng.opts.get("optimistic") else 25):
                raise Undecided("loop invariant search does not stabilise in %s" % key[0])
            G = self.build(plan, False)
            exits, backs = eng.explore([G.fork()], depth, (header, blocks))
            backs, _ = self.phases(G, backs)
            again = False
            for b in backs:
                d = self.diff(G, b, depth)
                for lk in d:
                    if lk[0] == "conv":
                        o = plan.S0.mem[lk[1]]
                        S = d[lk][1]
                        if o.stride is not None and o.stride == S:
                            again = True             # converted for another path of this round
                            continue
                        if o.stride is None:
                            if o.kind == "stack" and b.mem[lk[1]].stride is None:
                                # local buffer whose lifetime ended
                                w = eng.wobj(plan.S0, lk[1])
                                w.cells, w.fields, w.stride, w.dflt = {}, None, None, None
                            else:
                                eng.to_stride(plan.S0, o, S)
                        else:
                            w = eng.wobj(plan.S0, lk[1])
                            w.cells, w.fields, w.stride, w.dflt = {}, None, None, None
                        plan.locs = {k: v for k, v in plan.locs.items() if k[1] != lk[1]}
                        again = True
                        continue
                    if lk[0] == "split":
                        # a constant written in one piece and later changed in part
                        _, oi, off, w0, w1 = lk
                        o = eng.wobj(plan.S0, oi)
                        c = o.cells.get(off)
                        if c is None or c[0] != w0 or not isinstance(c[1], int):
                            raise Undecided("cell width change in loop (%s+%d)" % (o.name, off))
                        del o.cells[off]
                        u = c[1] & ((1 << (8 * w0)) - 1)
                        for k in range(0, w0, w1):
                            x = (u >> (8 * k)) & ((1 << (8 * w1)) - 1)
                            eng.put_cell(plan.S0, o, off + k, w1, x - (1 << (8 * w1)) if x >> (8 * w1 - 1) else x)
                        plan.locs = {k: v for k, v in plan.locs.items() if not (k[0] == "c" and k[1] == oi and off <= k[2] < off + w0)}
                        again = True
                        continue
                    if lk[0] == "dead":
                        w = eng.wobj(plan.S0, lk[1])
                        w.cells, w.fields, w.stride, w.dflt = {}, None, None, None
                        plan.locs = {k: v for k, v in plan.locs.items() if not (k[0] == "c" and k[1] == lk[1])}
                        again = True
                        continue
                    if lk not in plan.locs:
                        self.add_loc(plan, lk, d[lk])
                        again = True
            if again:
                continue
            if eng.opts.get("optimistic") and self.drop_optimistic(plan, backs):
                continue
            if not backs:
                plan.G, plan.exits, plan.backs = G, exits, backs
                plan.cands = []
                return plan
            if self.promote(plan, G, backs):
                continue
            if self.check_arrays(plan, G, backs):
                continue
            break
        self.houdini(plan, G, exits, backs)
        self.path_facts(plan, G, backs)
        # a second pass with the invariant assumed may remove paths and allow more (array summaries)
        return plan

    def add_loc(self, plan, lk, vals):
        S0 = plan.S0
        if lk[0] == "f":
            entry = self.get(S0, lk)
            plan.locs[lk] = Loc(lk, "arr", entry)
            return
        if lk[0] in ("c", "s", "r"):
            if lk[0] == "c" and lk[1] not in S0.mem:
                self.fresh_global(S0, lk[1])
            entry = self.get(S0, lk)
            back = vals[1]
            junk = isinstance(entry, Undef) and isinstance(back, Ptr)
            if isinstance(entry, Undef):
                entry = back if False else self.undef_like(back)
            L = Loc(lk, "int", entry)
            if isinstance(entry, Ptr) or isinstance(back, Ptr):
                if isinstance(entry, Ptr) and isinstance(back, Ptr) and entry.obj == back.obj and entry.obj != 0:
                    L.kind = "ptr"
                    if isinstance(vals[0], Ptr) and vals[0].obj == entry.obj:
                        d = T.sub(back.off, vals[0].off)
                        if isinstance(d, int) and d:
                            L.mode, L.c = "lin", d       # first guess; promote() verifies it
                elif junk or vals[0] is not None and isinstance(entry, T.Lin) or isinstance(entry, Ptr) and isinstance(back, Ptr):
                    # another object every time: an unknown pointer between iterations (nothing may be accessed through it)
                    L.kind = "junkptr"
                else:
                    raise Undecided("pointer changes object in loop of %s (%s)" % (plan.key[0], self.locname(S0, lk)))
            elif isinstance(entry, (bool, T.B)):
                L.kind = "bool"
            elif isinstance(entry, (int, T.Lin)) and isinstance(vals[0], (int, T.Lin)) and isinstance(back, (int, T.Lin)) \
                    and lk[0] == "c":
                d = T.sub(back, vals[0])
                if isinstance(d, int) and d and abs(d) < 1 << 32:
                    L.mode, L.c, L.guess = "lin", d, True
            elif isinstance(entry, (float, FUnk)) or isinstance(back, (float, FUnk)):
                L.kind = "fp"
            elif isinstance(entry, list):
                raise Undecided("aggregate phi")
            if os.environ.get("VC_DEBUG_INV"): print("ADD", self.locname(S0, lk), vals, file=sys.stderr)
            if lk[0] == "c":
                L.width = 8 * lk[3]
            elif lk[0] == "r":
                L.width = lk[2].n if lk[2].k == "int" else 64
            plan.locs[lk] = L
            return
        raise Undecided("location %r" % (lk,))

    def locname(self, st, lk):
        try:
            return "%s+%s" % (st.mem[lk[1]].name, lk[2])
        except Exception:
            return str(lk)

    def undef_like(self, v):
        if isinstance(v, Ptr):
            return Ptr(WILD, T.var("undef", 0, 2 ** 47))
        return T.var("undef", None, None)

    def build(self, plan, final):
        """generic state of an arbitrary iteration"""
        eng = self.eng
        G = plan.S0.fork()
        plan.t = T.var("it", 0, None)
        plan.tatom = plan.t.items[0][0]
        for L in plan.locs.values():
            if L.kind == "junkptr":
                L.var = None
                self.put(G, L.key, Ptr(WILD, T.var("junk", 0, 2 ** 47)))
                continue
            if L.kind == "fp":
                from .exec import FUNK
                self.put(G, L.key, FUNK)
                continue
            if L.kind == "bool":
                L.var = T.bvar("b")
                self.put(G, L.key, L.var)
                continue
            if L.kind == "arr":
                continue
            base = L.entry.off if L.kind == "ptr" else L.entry
            if L.mode == "fresh":
                h = 1 << (L.width - 1)
                if L.kind == "ptr" or L.key[0] == "s":
                    L.var = T.var("x", None, None)
                else:
                    L.var = T.var("x", -h, h - 1)
                L.cur = L.var
            elif L.mode == "lin":
                L.var = None
                L.cur = T.add(base, T.mulc(plan.t, L.c))
        for L in plan.locs.values():
            if L.kind in ("int", "ptr") and L.mode == "rel":
                R = plan.locs[L.rel[0]]
                rb = R.entry.off if R.kind == "ptr" else R.entry
                base = L.entry.off if L.kind == "ptr" else L.entry
                L.var = None
                L.cur = T.add(base, T.mulc(T.sub(R.cur, rb), L.rel[1]))
        for L in plan.locs.values():
            if L.kind == "int":
                self.put(G, L.key, L.cur)
            elif L.kind == "ptr":
                self.put(G, L.key, Ptr(L.entry.obj, L.cur))
        for L in plan.locs.values():
            if L.kind == "arr":
                if L.mode == "sum":
                    L.cur = L.summ(plan, L)
                else:
                    L.cur = T.arr_base("h", L.entry.elo, L.entry.ehi)
                L.var = L.cur
                self.put(G, L.key, L.cur)
        G.assume(T.le(0, plan.t))
        for L in plan.locs.values():
            if L.kind in ("int", "ptr") and L.mode in ("lin", "rel") and L.key[0] == "c" and L.kind == "int":
                h = 1 << (L.width - 1)
                # machine integers stay in range (each step's arithmetic is checked or wrapped explicitly)
                if not (T.lo(L.cur) is not None and T.lo(L.cur) >= -h and T.hi(L.cur) is not None and T.hi(L.cur) < h):
                    G.assume(T.band(T.le(-h, L.cur), T.le(L.cur, h - 1)))
        for c in plan.cands:
            v = c(plan)
            G.assume(v)
        if eng.opts.get("optimistic") and not final:
            self.optimistic(plan, G)
            for k, c in plan.opt.items():
                if k not in plan.optbad:
                    G.assume(c)
        if plan.qf is not None:
            q = plan.qf(plan)
            if q is not None:
                G.qfacts = G.qfacts + (q,)
        G.exact = False
        if not eng.sat(G):
            # should not happen: the entry state satisfies the invariant
            raise Undecided("abstract state unsatisfiable")
        return G

    def invariant_term(self, x, mark):
        return all(a.id < mark for a in T.atoms_of(x).values())

    def delta(self, L, b):
        v = self.get(b, L.key)
        if L.kind == "ptr":
            if not isinstance(v, Ptr) or v.obj != L.entry.obj:
                raise Undecided("pointer changes object in loop")
            v = v.off
        if isinstance(v, Undef):
            return None
        if not isinstance(v, (int, T.Lin)):
            raise Undecided("kind of value changes in loop")
        return T.sub(v, L.cur)

    def promote(self, plan, G, backs):
        """try linear / proportional representation; verify existing ones"""
        eng = self.eng
        changed = False
        ints = [L for L in plan.locs.values() if L.kind in ("int", "ptr")]
        dl = {}
        for L in ints:
            dl[L.key] = [self.delta(L, b) for b in backs]
        for L in ints:
            ds = dl[L.key]
            if L.mode == "lin":
                for b, d in zip(backs, ds):
                    if d is None or not eng.must(b, T.eq(d, L.c)):
                        L.mode, L.nolin = "fresh", not L.guess
                        L.guess = False
                        changed = True
                        break
            elif L.mode == "rel":
                rd = dl[L.rel[0]]
                for b, d, r in zip(backs, ds, rd):
                    if d is None or r is None or not eng.must(b, T.eq(d, T.mulc(r, L.rel[1]))):
                        L.mode = "fresh"
                        L.norel.add(L.rel)
                        changed = True
                        break
        if changed:
            # anything related to a demoted location is re-derived
            for L in ints:
                if L.mode == "rel" and plan.locs[L.rel[0]].mode == "rel":
                    L.mode = "fresh"
            return True
        for L in ints:
            if L.mode == "fresh" and not L.nolin:
                ds = dl[L.key]
                if all(isinstance(d, int) for d in ds) and len(set(ds)) == 1 and not isinstance(L.entry, Undef):
                    L.mode, L.c = "lin", ds[0]
                    changed = True
                else:
                    # equal under the path conditions to one constant?
                    c = ds[0] if isinstance(ds[0], int) else None
                    if c is not None and all(d is not None and eng.must(b, T.eq(d, c)) for b, d in zip(backs, ds)):
                        L.mode, L.c = "lin", c
                        changed = True
                    else:
                        L.nolin = True
        if changed:
            return True
        fresh = [L for L in ints if L.mode == "fresh" and self.cur_is_plain(L)]
        fresh.sort(key=lambda L: any(isinstance(d, int) and abs(d) > 1 for d in dl[L.key]))
        for i, L in enumerate(fresh):
            if L.mode != "fresh":
                continue
            for R in fresh[:i]:
                if R.mode != "fresh" or R is L:
                    continue
                ratio = {d // r for d, r in zip(dl[L.key], dl[R.key])
                         if isinstance(d, int) and isinstance(r, int) and r and d % r == 0}
                for k in [1, -1] + [k for k in ratio if abs(k) > 1 and len(ratio) == 1]:
                    if (R.key, k) in L.norel:
                        continue
                    ok = all(d is not None and r is not None and
                             (eng.same(d, T.mulc(r, k)) or eng.must(b, T.eq(d, T.mulc(r, k))))
                             for b, d, r in zip(backs, dl[L.key], dl[R.key]))
                    if ok:
                        L.mode, L.rel = "rel", (R.key, k)
                        changed = True
                        break
                    L.norel.add((R.key, k))
                if L.mode == "rel":
                    break
        return changed

    def cur_is_plain(self, L):
        return True

    # -------------------------------------------------------------- arrays
    def check_arrays(self, plan, G, backs):
        eng = self.eng
        changed = False
        for L in plan.locs.values():
            if L.kind != "arr":
                continue
            if L.mode == "sum":
                if not self.array_ok(plan, G, L, backs):
                    L.mode = "havoc" if L.nosum >= 3 else "fresh"
                    if L.mode == "fresh":
                        L.tried = getattr(L, "tried", 0) + 1
                    changed = True
            elif L.mode == "fresh":
                s = self.guess_array(plan, G, L, backs)
                L.nosum += 1
                if s is None:
                    L.mode = "havoc"
                else:
                    L.mode, L.summ = "sum", s
                changed = True
        return changed

    def next_subst(self, plan, b):
        m = {plan.tatom.id: T.add(plan.t, 1)}
        for L in plan.locs.values():
            if L.kind in ("int", "ptr") and L.mode == "fresh":
                v = self.get(b, L.key)
                if L.kind == "ptr":
                    v = v.off
                if isinstance(v, Undef):
                    v = T.var("undef")
                m[L.var.items[0][0].id] = v
        return m

    def array_ok(self, plan, G, L, backs):
        eng = self.eng
        for b in backs:
            m = self.next_subst(plan, b)
            want = T.subst(L.cur, m)
            have = self.get(b, L.key)
            if want is have:
                continue
            k = T.var("k")
            if not eng.must(b, T.eq(T.select(want, k), T.select(have, k))):
                return False
        return True

    def guess_array(self, plan, G, L, backs):
        """candidate closed form of the array after t iterations; returns function(plan, L)->Arr or None"""
        eng = self.eng
        H = L.cur
        A0 = L.entry
        arrmap = {H.id: A0}
        forms = []
        mod = {l.cur.id for l in plan.locs.values() if l.kind == "arr"}
        for b in backs:
            a = self.get(b, L.key)
            if a is H:
                forms.append(None)
                continue
            chain = []
            while a is not H:
                if a.kind not in ("store", "copy", "fill"):
                    return None
                chain.append(a)
                a = a.args[0]
                if a.kind == "base" and a is not H:
                    return None
            chain.reverse()
            forms.append(chain)
        real = [f for f in forms if f]
        if not real:
            return None
        if any(len(f) != len(real[0]) for f in real):
            return None
        t = plan.tatom
        freshatoms = {l.var.items[0][0].id: l for l in plan.locs.values()
                      if l.kind in ("int", "ptr") and l.mode == "fresh"}
        steps = []
        for pos in range(len(real[0])):
            nodes = [f[pos] for f in real]
            nd = nodes[0]
            if any(n.kind != nd.kind for n in nodes):
                return None
            if nd.kind == "store" and all(f is not None for f in forms):
                i = T.subst(nd.args[1], {}, None, arrmap)
                v = T.subst(nd.args[2], {}, None, arrmap)
                if any(T.subst(n.args[1], {}, None, arrmap) is not i and not eng.same(T.subst(n.args[1], {}, None, arrmap), i)
                       for n in nodes):
                    return None
                vs = [T.subst(n.args[2], {}, None, arrmap) for n in nodes]
                if any(T.tid(x) != T.tid(v) for x in vs):
                    return None
                if isinstance(i, int):
                    # same cell every iteration
                    return None
                ct = sum(k for a, k in i.items if a.id == t.id)
                bad = [a for a in T.atoms_of(i).values() if a.id in freshatoms]
                if ct in (1, -1) and not bad and sum(1 for a, k in i.items if t.id in T.atoms_of(T.atom_lin(a))) == 1:
                    if any(a.id in freshatoms for a in T.atoms_of(v).values()):
                        return None
                    if not self.only_known(plan, v):
                        return None
                    steps.append(("lam", i, v, ct))
                    continue
                return None
            if nd.kind in ("copy", "store", "fill"):
                # append pattern: position advances by the amount written
                one = None
                for bidx, f in enumerate(forms):
                    if f is None:
                        continue
                    n = f[pos]
                    if n.kind == "copy":
                        d, src, s, cnt = n.args[1:]
                        if mod & set(T.bases_of(src)) or src.id in mod:
                            return None
                    elif n.kind == "fill":
                        d, cnt, val = n.args[1:]
                        src, s = ("fill", val), 0
                    else:
                        d, val = n.args[1:]
                        cnt = 1
                        if isinstance(val, T.Lin) and len(val.items) == 1 and val.c == 0 and val.items[0][1] == 1 \
                                and val.items[0][0].kind == "sel":
                            src, s = val.items[0][0].args
                            if mod & set(T.bases_of(src)):
                                return None
                        else:
                            src, s = ("fill", val), 0
                    if isinstance(d, int):
                        return None
                    da = [a for a, k in d.items if a.id in freshatoms and k == 1]
                    if len(da) != 1:
                        return None
                    Lx = freshatoms[da[0].id]
                    dx = self.delta(Lx, backs[bidx])
                    if dx is None or not eng.must(backs[bidx], T.eq(dx, cnt)):
                        return None
                    if not isinstance(src, tuple):
                        # source position must move along
                        e = T.sub(s, Lx.cur)
                        if any(a.id in freshatoms or a.id == t.id for a in T.atoms_of(e).values()):
                            return None
                    else:
                        if not self.invariant_val(plan, src[1]):
                            return None
                    cur = (Lx, T.sub(d, Lx.cur), src, T.sub(s, Lx.cur) if not isinstance(src, tuple) else None)
                    if one is None:
                        one = cur
                    else:
                        if one[0] is not cur[0] or not eng.same(one[1], cur[1]):
                            return None
                        if isinstance(src, tuple) != isinstance(one[2], tuple):
                            return None
                        if isinstance(src, tuple):
                            if T.tid(one[2][1]) != T.tid(src[1]):
                                return None
                        elif one[2] is not src or not eng.same(one[3], cur[3]):
                            return None
                if not self.only_known(plan, one[1]):
                    return None
                steps.append(("app",) + one)
                continue
            return None

        def summ(plan2, L2, steps=steps, t=t):
            a = L2.entry
            T0 = plan2.t
            for s in steps:
                if s[0] == "lam":
                    _, i, v, ct = s
                    bv = new_bv()
                    i0 = T.subst(i, {t.id: 0})
                    if ct == 1:
                        body = T.subst(v, {t.id: T.atom_lin(bv)})
                        a = T.arr_lam(a, i0, T.add(i0, T0), bv, body)
                    else:
                        l = T.add(T.sub(i0, T0), 1)
                        body = T.subst(v, {t.id: T.sub(T.sub(T0, 1), T.atom_lin(bv))})
                        a = T.arr_lam(a, l, T.add(i0, 1), bv, body)
                else:
                    _, Lx, dofs, src, sofs = s
                    x0 = Lx.entry.off if Lx.kind == "ptr" else Lx.entry
                    n = T.sub(Lx.cur, x0)
                    if isinstance(src, tuple):
                        a = T.arr_fill(a, T.add(x0, dofs), n, src[1])
                    else:
                        a = T.arr_copy(a, T.add(x0, dofs), src, T.add(x0, sofs), n)
            return a
        return summ

    def only_known(self, plan, x):
        """no atoms created inside the iteration (nondeterministic values)"""
        mark = plan.tatom.id
        for a in T.atoms_of(x).values():
            if a.kind == "var" and a.id > mark and not self.is_loc_atom(plan, a):
                if a.args[0].startswith("addr!"):
                    continue
                return False
        for bse in T.bases_of(x).values():
            if bse.id > mark:
                return False
        okb = {L.var.id for L in plan.locs.values() if L.kind == "bool" and isinstance(L.var, T.B)}
        for i in bvars_of(x):
            if i > mark and i not in okb:
                return False
        return True

    def is_loc_atom(self, plan, a):
        return any(L.var is not None and isinstance(L.var, T.Lin) and L.var.items[0][0].id == a.id
                   for L in plan.locs.values())

    def invariant_val(self, plan, x):
        ids = {L.var.items[0][0].id for L in plan.locs.values() if isinstance(L.var, T.Lin)}
        ids.add(plan.tatom.id)
        mark = plan.tatom.id
        for a in T.atoms_of(x).values():
            if a.id in ids or (a.kind == "var" and a.id > mark):
                return False
        return True

    # -------------------------------------------------------------- candidates
    def new_conjuncts(self, G, s):
        base = set()
        p = G.pc
        stop = p
        out = []
        p = s.pc
        while p is not stop and p.parent is not None:
            out.append(p.term)
            p = p.parent
        out.reverse()
        return out

    # -------------------------------------------------------------- optimistic bounds
    def optimistic(self, plan, G):
        """bounds assumed from the start of the search and dropped as soon as an iteration does not keep them; what is
        left are candidates like all others (the final invariant is verified as a whole)"""
        eng = self.eng
        plan.opt = {}
        mod = set(plan.locs)
        lim = []
        for i, o in G.mem.items():
            if o.kind == "stack" and o.stride is None and o.alive:
                for off, c in o.cells.items():
                    if c[0] == 8 and isinstance(c[1], T.Lin) and ("c", i, off, 8) not in mod:
                        lim.append((i, off, c[1]))
        lim = lim[-12:]
        for L in plan.locs.values():
            if L.kind != "int" or L.key[0] != "c" or L.key[3] != 8 or L.mode == "rel" or isinstance(L.entry, Undef):
                continue
            cs = [(("lo", L.key), T.le(L.entry, L.cur)), (("0", L.key), T.le(0, L.cur))]
            for i, off, v in lim:
                cs.append((("le", L.key, i, off), T.le(L.cur, v)))
                cs.append((("ge", L.key, i, off), T.le(v, L.cur)))
            for gk, gv in G.ghost.items():
                if gk[0] == "garr" and gv[1] == 0:
                    cs.append((("garr", L.key, gk), T.eq(T.select(gv[0], L.cur), 1)))
            for k, c in cs:
                if k in plan.optbad or isinstance(c, bool):
                    continue
                c0 = self.subst_b(c, self.entry_subst(plan), {})
                if c0 is True or (c0 is not False and eng.must(plan.S0, c0)):
                    plan.opt[k] = c
                else:
                    plan.optbad.add(k)

    def entry_subst(self, plan):
        m0 = {plan.tatom.id: 0}
        for L in plan.locs.values():
            if L.kind in ("int", "ptr") and L.mode == "fresh":
                m0[L.var.items[0][0].id] = L.entry.off if L.kind == "ptr" else L.entry
        return m0

    def drop_optimistic(self, plan, backs):
        eng = self.eng
        bad = False
        for b in backs:
            m = self.next_subst(plan, b)
            for k, c in plan.opt.items():
                if k in plan.optbad:
                    continue
                cc = T.subst(c, m)
                if cc is True:
                    continue
                if cc is False or not eng.must(b, cc):
                    plan.optbad.add(k)
                    bad = True
        return bad

    def houdini(self, plan, G, exits, backs):
        eng = self.eng
        cands = {}

        def addc(c):
            if isinstance(c, bool):
                return
            if not self.only_known(plan, c):
                return
            cands[c.id] = c
        for k, c in plan.opt.items():
            if k not in plan.optbad:
                addc(c)
        ints = [L for L in plan.locs.values() if L.kind in ("int", "ptr")]
        for L in ints:
            x0 = L.entry.off if L.kind == "ptr" else L.entry
            addc(T.le(x0, L.cur))
            addc(T.le(L.cur, x0))
            addc(T.le(0, L.cur))
            addc(T.le(L.cur, 1))
            addc(T.le(1, L.cur))
        for s in list(backs) + list(exits):
            for c in self.new_conjuncts(G, s):
                for x in (c.args if c.kind in ("and", "or") else (c,)):
                    if not isinstance(x, T.B):
                        continue
                    y = x
                    if x.kind == "not":
                        y = x.args
                    if y.kind == "le":
                        addc(y)
                        addc(T.le0(T.add(y.args, -1)))
                        n = T.bnot(y)
                        if isinstance(n, T.B) and n.kind == "le":
                            addc(n)
                            addc(T.le0(T.add(n.args, -1)))
                    elif y.kind == "eq":
                        addc(T.le0(y.args))
                        addc(T.le0(T.neg(y.args)))
                        addc(y)
                        if x.kind == "not":
                            addc(x)
        # small value sets (flags, enumerations)
        for L in ints:
            if L.mode != "fresh" or L.kind != "int":
                continue
            vals, ok = set(), True
            for v, s in [(L.entry, plan.S0)] + [(self.get(b, L.key), b) for b in backs]:
                if v is L.cur or (isinstance(v, T.Lin) and isinstance(L.cur, T.Lin) and eng.same(v, L.cur)):
                    continue
                if isinstance(v, T.Lin):
                    v = self.const_value(s, v)
                if not isinstance(v, int):
                    ok = False
                    break
                vals.add(v)
            if ok and 0 < len(vals) <= 8:
                addc(T.bor(*[T.eq(L.cur, v) for v in sorted(vals)]))
        for i, L in enumerate(ints):
            for R in ints[:i]:
                if len(ints) <= 8:
                    addc(T.le(L.cur, R.cur))
                    addc(T.le(R.cur, L.cur))
        for bl in [L for L in plan.locs.values() if L.kind == "bool"]:
            addc(bl.var)
            addc(T.bnot(bl.var))
        # invariants stated by the contract: candidates like all others, proved by the solver or dropped
        from .models import tobool
        for gk, gv in G.ghost.items():
            if gk[0] != "inv":
                continue
            try:
                res = eng.call_sync(G.fork(), gv[0], [gv[1]])
            except (Unsupported, Undecided):
                continue
            if len(res) == 1:
                c = tobool(res[0][1])
                if isinstance(c, T.B) and c.kind == "and":
                    for x in c.args:
                        addc(x)
                else:
                    addc(c)
        for gk, gv in G.ghost.items():
            if gk[0] != "garr":
                continue
            arr, kind = gv
            pos = [(L, L.cur) for L in ints] + [(L, T.sub(L.cur, L.entry.off)) for L in ints if L.kind == "ptr"
                                                 and not (isinstance(L.entry.off, int) and L.entry.off == 0)]
            if len(pos) > 12:
                pos = pos[:12]
            if kind == 0:
                for L, x in pos:
                    addc(T.eq(T.select(arr, x), 1))
            else:
                for L in ints:
                    for R, x in pos + [(None, plan.t)]:
                        if R is L:
                            continue
                        for c in (0, -1, 1):
                            addc(T.eq(L.cur, T.select(arr, T.add(x, c))))
        for c in self.app_candidates(plan, G, ints):
            addc(c)
        for fnc in eng.opts.get("candidates", ()):
            for c in fnc(eng, plan, G, ints) or ():
                addc(c)
        # initially true?
        m0 = {plan.tatom.id: 0}
        mb = {}
        for L in ints:
            if L.mode == "fresh":
                m0[L.var.items[0][0].id] = L.entry.off if L.kind == "ptr" else L.entry
        bools = {L.var.id: L for L in plan.locs.values() if L.kind == "bool"}
        keep = []
        for c in cands.values():
            c0 = self.subst_b(c, m0, {i: L.entry for i, L in bools.items()})
            if c0 is True or (c0 is not False and eng.must(plan.S0, c0)):
                keep.append(c)
        # inductive?
        nxt = []
        for b in backs:
            m = self.next_subst(plan, b)
            bm = {i: self.get(b, L.key) for i, L in bools.items()}
            nxt.append((b, m, bm))
        changed = True
        tmo = 1500 if eng.sol.gcd_step else None       # non-linear: a candidate not proved quickly is dropped
        while changed and keep:
            changed = False
            for b, m, bm in nxt:
                bad = []
                # all at once first
                goals = []
                for c in keep:
                    g = self.subst_b(c, m, bm)
                    goals.append(g)
                while True:
                    rem = [g for g, c in zip(goals, keep) if c not in bad]
                    conj = T.band(*rem)
                    if conj is True:
                        break
                    if conj is not False:
                        r, _ = eng.sol.check(b.pc, list(keep) + [T.bnot(conj)], b.qfacts, timeout=tmo)
                        if r == "unsat":
                            break
                    # find failing ones individually
                    found = False
                    for g, c in zip(goals, keep):
                        if c in bad or g is True:
                            continue
                        r = "sat" if g is False else eng.sol.check(b.pc, list(keep) + [T.bnot(g)], b.qfacts, timeout=tmo)[0]
                        if r != "unsat":
                            bad.append(c)
                            found = True
                    if not found:
                        break
                    break
                if bad:
                    ids = {c.id for c in bad}
                    keep = [c for c in keep if c.id not in ids]
                    changed = True
        # store as functions of the plan's current symbols
        tm = plan.t
        cur = {L.key: L.var for L in plan.locs.values() if L.kind in ("int", "ptr") and L.mode == "fresh"}
        cb = {L.key: L.var for L in plan.locs.values() if L.kind == "bool"}

        def mk(c):
            def f(p2):
                m = {tm.items[0][0].id: p2.t}
                for k, v in cur.items():
                    m[v.items[0][0].id] = p2.locs[k].var
                return self.subst_b(c, m, {v.id: p2.locs[k].var for k, v in cb.items()})
            return f
        if os.environ.get("VC_DEBUG_INV"):
            print("LOOP", plan.key, [(k, L.kind, L.mode) for k, L in plan.locs.items()], file=sys.stderr)
            for c in keep:
                print("   keep", c, file=sys.stderr)
            for c in cands.values():
                if c not in keep:
                    print("   drop", c, file=sys.stderr)
        plan.cands = [mk(c) for c in keep]
        plan.ncands = len(keep)

    def app_candidates(self, plan, G, ints):
        """F(x, y) of the current values equals F of the entry values, for specification functions in use"""
        out = []
        if not self.eng.opts.get("gcd"):
            return out
        ws = [L for L in ints if L.kind == "int" and L.width == 64]
        ent = [(L.entry, R.entry) for i, L in enumerate(ws) for R in ws[i + 1:]
               if not isinstance(L.entry, Undef) and not isinstance(R.entry, Undef)]
        for i, L in enumerate(ws):
            for R in ws:
                if R is L:
                    continue
                for a, b in ent:
                    out.append(T.eq(T.app("gcd", [L.cur, R.cur], 0, (1 << 63) - 1),
                                    T.app("gcd", [a, b], 0, (1 << 63) - 1)))
        return out

    def const_value(self, st, v):
        """the single value v has on this path, if any"""
        r, model = self.eng.sol.check(st.pc, [T.eq(v, v)], st.qfacts, want_model=True)
        if r != "sat" or model is None:
            return None
        k = model_int(model, v)
        return k if self.eng.must(st, T.eq(v, k)) else None

    def subst_b(self, c, m, bm):
        if bm:
            c = subst_bools(c, bm)
            if isinstance(c, bool):
                return c
        return T.subst(c, m)

    def path_facts(self, plan, G, backs):
        """for every completed iteration j its continuation condition held"""
        eng = self.eng
        fresh = {L.var.items[0][0].id for L in plan.locs.values()
                 if L.kind in ("int", "ptr") and L.mode == "fresh"}
        t = plan.tatom
        alts = []
        for b in backs:
            cs = []
            for c in self.new_conjuncts(G, b):
                at = T.atoms_of(c)
                if t.id not in at or any(a in fresh for a in at) or not self.only_known(plan, c):
                    continue
                if any(a.kind == "var" and a.args[0].startswith(("undef", "wrap")) for a in at.values()):
                    continue
                if has_bvar(c):
                    continue
                cs.append(c)
            alts.append(T.band(*cs))
        body = T.bor(*alts) if alts else True
        if isinstance(body, bool):
            return
        # arrays that are summarised by lambdas mention t as well; only keep simple facts
        t0 = plan.t

        def qf(p2):
            bv = new_bv()
            b2 = T.subst(body, {t.id: T.atom_lin(bv)})
            if isinstance(b2, bool):
                return None
            return QFact(0, p2.t, bv, b2)
        if any(l.kind == "arr" and l.mode == "sum" for l in plan.locs.values()):
            # conditions reading a summarised array refer to its value at that iteration; safe because the summary is a
            # function of t that gets substituted, but only if no fresh location occurs in it
            pass
        plan.qf = qf

    # -------------------------------------------------------------- final verification
    def verify(self, plan, G, backs, depth, final=False):
        eng = self.eng
        for b in backs:
            d = self.diff(G, b, depth)
            for lk in d:
                if lk not in plan.locs:
                    raise Undecided("loop invariant incomplete in %s" % plan.key[0])
        ints = [L for L in plan.locs.values() if L.kind in ("int", "ptr")]
        dl = {L.key: [self.delta(L, b) for b in backs] for L in ints}
        for L in ints:
            for n, b in enumerate(backs):
                d = dl[L.key][n]
                if L.mode == "lin":
                    if d is None or not eng.must(b, T.eq(d, L.c)):
                        raise Undecided("linear cell not inductive in %s" % plan.key[0])
                elif L.mode == "rel":
                    r = dl[L.rel[0]][n]
                    if d is None or r is None or not eng.must(b, T.eq(d, T.mulc(r, L.rel[1]))):
                        raise Undecided("cell relation not inductive in %s" % plan.key[0])
                if L.mode in ("lin", "rel") and L.kind == "int" and L.key[0] == "c":
                    h = 1 << (L.width - 1)
                    v = self.get(b, L.key)
                    if not eng.must(b, T.band(T.le(-h, v), T.le(v, h - 1))):
                        raise Undecided("cell range in %s" % plan.key[0])
        for L in plan.locs.values():
            if L.kind == "arr" and L.mode == "sum" and not self.array_ok(plan, G, L, [b for b in backs]):
                raise Undecided("array summary not inductive in %s" % plan.key[0])
            if L.kind == "junkptr":
                pass
        bools = {L.var.id: L for L in plan.locs.values() if L.kind == "bool"}
        for b in backs:
            m = self.next_subst(plan, b)
            bm = {i: self.get(b, L.key) for i, L in bools.items()}
            for c in plan.cands:
                cc = self.subst_b(c(plan), m, bm) if not isinstance(c(plan), bool) else c(plan)
                if cc is True:
                    continue
                if cc is False or not eng.must(b, cc):
                    raise Undecided("candidate not inductive in %s" % plan.key[0])
        eng.invariants = getattr(eng, "invariants", 0) + 1


def has_bvar(c):
    return bool(bvars_of(c))


def bvars_of(c):
    stack = [c]
    seen = set()
    out = set()
    while stack:
        x = stack.pop()
        if isinstance(x, T.B):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.kind == "var":
                out.add(x.id)
            elif x.kind in ("and", "or"):
                stack.extend(x.args)
            else:
                stack.append(x.args)
        elif isinstance(x, T.Lin):
            for a, _ in x.items:
                if a.id not in seen:
                    seen.add(a.id)
                    stack.extend(y for y in a.args if not isinstance(y, (str, int)))
        elif isinstance(x, T.Arr):
            if x.id not in seen:
                seen.add(x.id)
                stack.extend(y for y in x.args if not isinstance(y, (T.Atom, int)))
    return out


def subst_bools(c, bm):
    if isinstance(c, bool):
        return c
    if c.kind == "var":
        return bm.get(c.id, c)
    if c.kind == "not":
        return T.bnot(subst_bools(c.args, bm))
    if c.kind == "and":
        return T.band(*[subst_bools(x, bm) for x in c.args])
    if c.kind == "or":
        return T.bor(*[subst_bools(x, bm) for x in c.args])
    return c
