"""Discharging obligations: z3 (incremental, in process), cvc5 (second opinion, SMT-LIB dump)."""
import os, subprocess, tempfile, time
import z3
from . import terms as T

_ufs = {}


def _uf(name, n):
    k = (name, n)
    if k not in _ufs:
        _ufs[k] = z3.Function(name, *([z3.IntSort()] * (n + 1)))
    return _ufs[k]


def zi(x):
    if isinstance(x, bool):
        raise AssertionError("bool as int")
    if isinstance(x, int):
        return z3.IntVal(x)
    if x.z is None:
        parts = []
        for a, k in x.items:
            za = za_(a)
            parts.append(za if k == 1 else z3.IntVal(k) * za)
        if x.c or not parts:
            parts.append(z3.IntVal(x.c))
        x.z = z3.Sum(parts) if len(parts) > 1 else parts[0]
    return x.z


def za_(a):
    if a.z is None:
        k = a.kind
        if k == "var":
            a.z = z3.Int(a.args[0])
        elif k == "sel":
            a.z = _uf("A!" + a.args[0].name, 1)(zi(a.args[1]))
        elif k == "ite":
            a.z = z3.If(zb(a.args[0]), zi(a.args[1]), zi(a.args[2]))
        elif k == "mul":
            a.z = zi(a.args[0]) * zi(a.args[1])
        elif k == "div":
            a.z = zi(a.args[0]) / zi(a.args[1])
        elif k == "mod":
            a.z = zi(a.args[0]) % zi(a.args[1])
        elif k == "app":
            a.z = _uf("F!" + a.args[0], len(a.args) - 1)(*[zi(y) for y in a.args[1:]])
        else:
            raise AssertionError(k)
    return a.z


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if x.z is None:
        k = x.kind
        if k == "le":
            l = x.args
            # move negative part to the right for readability/perf
            x.z = zi(l) <= 0
        elif k == "eq":
            x.z = zi(x.args) == 0
        elif k == "not":
            x.z = z3.Not(zb(x.args))
        elif k == "and":
            x.z = z3.And([zb(y) for y in x.args])
        elif k == "or":
            x.z = z3.Or([zb(y) for y in x.args])
        elif k == "var":
            x.z = z3.Bool(x.args[0])
        else:
            raise AssertionError(k)
    return x.z


class PC:
    """persistent path-condition list"""
    __slots__ = ("parent", "term", "depth", "atoms")

    def __init__(self, parent, term):
        self.parent, self.term = parent, term
        self.depth = parent.depth + 1 if parent else 0
        self.atoms = None


ROOT = PC(None, True)


def pc_list(pc):
    out = []
    while pc.parent is not None:
        out.append(pc.term)
        pc = pc.parent
    out.reverse()
    return out


class Solver:
    def __init__(self, timeout_ms=10000):
        self.s = z3.SolverFor("QF_UFNIA") if False else z3.Solver()
        self.timeout = timeout_ms
        self.s.set("timeout", timeout_ms)
        self.stack = []          # PC nodes asserted, one scope each
        self.scopes = []         # set of atom ids whose axioms are asserted per scope
        self.known = set()
        self.nq = 0
        self.time = 0.0
        self.cache = {}
        self.ncvc5 = 0
        self.cvc5_time = 0.0
        self.use_cvc5 = True
        self.gcd_step = True     # instantiate gcd(x, y) = gcd(y, x mod y)

    # -- axioms (ranges) of atoms in a term
    def _axioms(self, term, known):
        out, new = [], []
        for a in T.atoms_of(term).values():
            if a.id in known:
                continue
            new.append(a.id)
            if a.kind in ("var", "sel", "app"):
                if a.lo is not None:
                    out.append(za_(a) >= a.lo)
                if a.hi is not None:
                    out.append(za_(a) <= a.hi)
            elif a.kind in ("div", "mod") and not isinstance(a.args[1], int):
                # truncation facts for symbolic divisor (b>0)
                x, y = zi(a.args[0]), zi(a.args[1])
                out.append(z3.Implies(z3.And(x >= 0, y >= 1), z3.And(x % y >= 0, x % y < y, x / y >= 0, x / y <= x)))
            elif a.kind == "mul":
                x, y = zi(a.args[0]), zi(a.args[1])
        return out, new

    def sync(self, pc):
        path = []
        p = pc
        while p.parent is not None:
            path.append(p)
            p = p.parent
        path.reverse()
        n = 0
        while n < len(path) and n < len(self.stack) and path[n] is self.stack[n]:
            n += 1
        while len(self.stack) > n:
            self.stack.pop()
            for i in self.scopes.pop():
                self.known.discard(i)
            self.s.pop()
        for node in path[n:]:
            self.s.push()
            ax, new = self._axioms(node.term, self.known)
            self.known.update(new)
            self.scopes.append(new)
            self.stack.append(node)
            if ax:
                self.s.add(*ax)
            self.s.add(zb(node.term))

    def check(self, pc, extra, qfacts=(), want_model=False, timeout=None):
        """sat of pc /\\ extra (list of B). returns ('sat'|'unsat'|'unknown', model|None)"""
        ex = [e for e in extra if e is not True]
        if any(e is False for e in ex):
            return "unsat", None
        key = None
        if not want_model:
            key = (id(pc), tuple(sorted(e.id for e in ex)), len(qfacts) and id(qfacts))
            if key in self.cache and self.cache[key][0] is pc:
                return self.cache[key][1], None
        t0 = time.time()
        self.sync(pc)
        inst = []
        if qfacts:
            inst = self.instantiate(pc, ex, qfacts)
        if len(inst) > 20:
            # most conditions are refuted without the quantified facts
            self.s.push()
            known = set(self.known)
            for e in ex:
                ax, new = self._axioms(e, known)
                known.update(new)
                if ax:
                    self.s.add(*ax)
                self.s.add(zb(e))
            self.s.set("timeout", min(self.timeout, 1000))
            r = self.s.check()
            self.s.set("timeout", self.timeout)
            self.s.pop()
            self.nq += 1
            if r == z3.unsat:
                self.time += time.time() - t0
                if key is not None:
                    self.cache[key] = (pc, "unsat")
                return "unsat", None
        inst = inst + self.lemmas(pc, ex + inst)
        self.s.push()
        known = set(self.known)
        for e in list(ex) + inst:
            ax, new = self._axioms(e, known)
            known.update(new)
            if ax:
                self.s.add(*ax)
            self.s.add(zb(e))
        if timeout:
            self.s.set("timeout", timeout)
        r = self.s.check()
        if timeout:
            self.s.set("timeout", self.timeout)
        self.nq += 1
        res, model = "unknown", None
        if r == z3.sat:
            res = "sat"
            if want_model:
                model = self.s.model()
        elif r == z3.unsat:
            res = "unsat"
        dump = None
        if res == "unknown" and self.use_cvc5 and not timeout:
            dump = self.s.to_smt2()
        self.s.pop()
        self.time += time.time() - t0
        if dump is not None:
            t1 = time.time()
            res = self._cvc5(dump)
            self.ncvc5 += 1
            self.cvc5_time += time.time() - t1
            if res == "sat" and want_model:
                res = "sat"
        if key is not None:
            self.cache[key] = (pc, res)
        return res, model

    def _cvc5(self, smt):
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + smt)
            name = f.name
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % self.timeout, name], capture_output=True, text=True,
                               timeout=self.timeout / 1000 + 5)
            o = p.stdout.strip().splitlines()
            return o[-1] if o and o[-1] in ("sat", "unsat") else "unknown"
        except Exception:
            return "unknown"
        finally:
            os.unlink(name)

    # -- facts about the mathematical gcd (each one proved in contracts/lemmas.lean)
    def lemmas(self, pc, extra, rounds=2):
        if not T.USES_GCD:
            return []
        out, seen = [], set()
        todo = pc_list(pc) + list(extra)
        for _ in range(rounds):
            fresh = []
            for t in todo:
                for a in T.atoms_of(t).values():
                    if a.kind == "app" and a.args[0] == "gcd" and a.id not in seen:
                        seen.add(a.id)
                        fresh.append(a)
            todo = []
            for a in fresh:
                x, y = a.args[1], a.args[2]
                g = T.atom_lin(a)
                nn = T.band(T.le(0, x), T.le(0, y))
                f = [T.implies(T.band(nn, T.eq(y, 0)), T.eq(g, x)),
                     T.implies(T.band(nn, T.eq(x, 0)), T.eq(g, y)),
                     T.implies(T.band(nn, T.lt(0, T.add(x, y))), T.le(1, g))]
                if self.gcd_step:
                    f += [T.implies(T.band(T.le(0, x), T.lt(0, y)), T.band(
                         T.eq(g, T.app("gcd", [y, T.fmod(x, y)], 0, (1 << 63) - 1)), T.le(g, y)))]
                f = [b for b in f if not isinstance(b, bool)]
                out += f
                todo += f
        return out

    # -- quantified facts: forall j in [lo,hi): body(j)
    def instantiate(self, pc, extra, qfacts, rounds=3, cap=400):
        out, done = [], set()
        seen_atoms = {}
        todo = pc_list(pc) + list(extra)
        for q in qfacts:
            todo += [q.lo, q.hi]
        for rnd in range(rounds):
            new_atoms = []
            for t in todo:
                for a in T.atoms_of(t).values():
                    if a.id not in seen_atoms:
                        seen_atoms[a.id] = a
                        if a.kind == "sel":
                            new_atoms.append(a)
            todo = []
            for q in qfacts:
                for base, k, rest in q.patterns():
                    for a in new_atoms:
                        if a.args[0] is not base:
                            continue
                        d = T.sub(a.args[1], rest)
                        j = d if k == 1 else T.neg(d)
                        key = (q.id, T.tid(j))
                        if key in done:
                            continue
                        done.add(key)
                        inst = q.at(j)
                        if inst is True:
                            continue
                        out.append(inst if not isinstance(inst, bool) else T.le0(1))
                        todo.append(inst)
                        if len(out) >= cap:
                            return out
                # also instantiate at explicit seeds
                for j in q.seeds:
                    key = (q.id, T.tid(j))
                    if key in done:
                        continue
                    done.add(key)
                    inst = q.at(j)
                    if isinstance(inst, bool):
                        if inst is False:
                            out.append(T.le0(1))
                        continue
                    out.append(inst)
                    todo.append(inst)
            if not todo:
                break
        return [o for o in out if not isinstance(o, bool)] + ([] if all(o is not False for o in out) else [_FALSE()])


def _FALSE():
    x = T.bvar("false")
    return T._mk_b("and", (x, T._mk_b("not", x, (x.id,))), ("F", x.id))


class QFact:
    _n = 0

    def __init__(self, lo, hi, bv, body, seeds=()):
        self.lo, self.hi, self.bv, self.body = lo, hi, bv, body
        self.seeds = list(seeds)
        QFact._n += 1
        self.id = QFact._n
        self._p = None
        self.cache = {}

    def at(self, j):
        k = T.tid(j)
        v = self.cache.get(k)
        if v is None:
            v = T.implies(T.band(T.le(self.lo, j), T.lt(j, self.hi)), T.subst(self.body, {self.bv.id: j}))
            self.cache[k] = v
        return v

    def patterns(self):
        if self._p is None:
            p = []
            for a in T.atoms_of(self.body).values():
                if a.kind == "sel":
                    idx = a.args[1]
                    if isinstance(idx, int):
                        continue
                    for x, k in idx.items:
                        if x.id == self.bv.id and k in (1, -1):
                            rest = T.sub(idx, T.mulc(T.atom_lin(self.bv), k))
                            if isinstance(rest, int) or self.bv.id not in T.atoms_of(rest):
                                p.append((a.args[0], k, rest))
            self._p = p
        return self._p


def model_int(model, x):
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x
    v = model.eval(zi(x), model_completion=True)
    try:
        return v.as_long()
    except Exception:
        return None


def model_bool(model, x):
    if isinstance(x, bool):
        return x
    return z3.is_true(model.eval(zb(x), model_completion=True))
