"""Hash-consed terms: linear integer normal forms, booleans, functional arrays.

Integers are mathematical.  A concrete integer is a plain Python int; a symbolic one is a Lin
(constant + sum coef*atom).  Booleans are Python bools or B nodes.  Arrays map Int -> Int and are
only read through select(), which expands stores/copies/fills/lambdas.
"""
import itertools
from math import gcd

_ids = itertools.count(1)
INF = None


class Atom:
    """kinds: var(name) sel(base,idx) ite(c,a,b) mul(a,b) div(a,b) mod(a,b) app(fname,args...)"""
    __slots__ = ("kind", "args", "id", "lo", "hi", "z", "lin", "axioms")

    def __init__(self, kind, args, lo, hi):
        self.kind, self.args, self.lo, self.hi = kind, args, lo, hi
        self.id = next(_ids)
        self.z = None
        self.lin = None
        self.axioms = None

    def __repr__(self):
        k = self.kind
        if k == "var":
            return self.args[0]
        if k == "sel":
            return "%s[%r]" % (self.args[0].name, self.args[1])
        if k == "ite":
            return "(%r ? %r : %r)" % self.args
        return "%s%r" % (k, self.args)


class Lin:
    __slots__ = ("c", "items", "id", "z", "_lo", "_hi")

    def __init__(self, c, items):
        self.c, self.items = c, items
        self.id = next(_ids)
        self.z = None
        lo = hi = c
        for a, k in items:
            al, ah = a.lo, a.hi
            if k < 0:
                al, ah = ah, al
            lo = None if (lo is None or al is None) else lo + k * al
            hi = None if (hi is None or ah is None) else hi + k * ah
        self._lo, self._hi = lo, hi

    def __repr__(self):
        s = []
        for a, k in self.items:
            s.append(("%r" % a) if k == 1 else "%d*%r" % (k, a))
        if self.c or not s:
            s.append(str(self.c))
        return "(" + " + ".join(s) + ")" if len(s) > 1 else s[0]


class B:
    """kinds: le(lin) eq(lin) not(b) and(bs) or(bs) var(name)"""
    __slots__ = ("kind", "args", "id", "z")

    def __init__(self, kind, args):
        self.kind, self.args = kind, args
        self.id = next(_ids)
        self.z = None

    def __repr__(self):
        if self.kind == "le":
            return "%r<=0" % self.args
        if self.kind == "eq":
            return "%r==0" % self.args
        if self.kind == "var":
            return self.args[0]
        return "%s%r" % (self.kind, self.args)


_lin = {}
_atom = {}
_b = {}


def _mk_lin(c, items):
    if not items:
        return c
    key = (c, tuple((a.id, k) for a, k in items))
    r = _lin.get(key)
    if r is None:
        r = _lin[key] = Lin(c, tuple(items))
    return r


def atom_lin(a):
    if a.lin is None:
        a.lin = _mk_lin(0, ((a, 1),))
    return a.lin


def _mk_atom(kind, args, key, lo, hi):
    k = (kind,) + key
    a = _atom.get(k)
    if a is None:
        a = _atom[k] = Atom(kind, args, lo, hi)
    return a


_names = {}


def fresh_name(name):
    n = _names.get(name, 0)
    _names[name] = n + 1
    return name if n == 0 else "%s~%d" % (name, n)


def var(name, lo=None, hi=None):
    """a fresh integer variable"""
    n = fresh_name(name)
    return atom_lin(_mk_atom("var", (n,), (n,), lo, hi))


def bvar(name):
    n = fresh_name(name)
    return _mk_b("var", (n,), (n,))


def _mk_b(kind, args, key):
    k = (kind,) + key
    r = _b.get(k)
    if r is None:
        r = _b[k] = B(kind, args)
    return r


def tid(x):
    if isinstance(x, (Lin, Atom, B)):
        return ("t", x.id)
    if isinstance(x, Arr):
        return ("A", x.id)
    return x


def lo(x):
    return x if isinstance(x, int) else x._lo


def hi(x):
    return x if isinstance(x, int) else x._hi


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        return _mk_lin(a.c + b, a.items)
    d = {x.id: (x, k) for x, k in a.items}
    for x, k in b.items:
        if x.id in d:
            nk = d[x.id][1] + k
            if nk == 0:
                del d[x.id]
            else:
                d[x.id] = (x, nk)
        else:
            d[x.id] = (x, k)
    return _mk_lin(a.c + b.c, [d[i] for i in sorted(d)])


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return _mk_lin(a.c * k, [(x, c * k) for x, c in a.items])


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    return add(a, mulc(b, -1))


def _rng_mul(a, b):
    v = [lo(a), hi(a), lo(b), hi(b)]
    if any(x is None for x in v):
        return (0, None) if (v[0] is not None and v[2] is not None and v[0] >= 0 and v[2] >= 0) else (None, None)
    p = [v[0] * v[2], v[0] * v[3], v[1] * v[2], v[1] * v[3]]
    return min(p), max(p)


def mul(a, b):
    if isinstance(a, int):
        return mulc(b, a)
    if isinstance(b, int):
        return mulc(a, b)
    if a.id > b.id:
        a, b = b, a
    l, h = _rng_mul(a, b)
    return atom_lin(_mk_atom("mul", (a, b), (a.id, b.id), l, h))


def fdiv(a, b):
    """floor division; b must be a positive constant or symbolic (then Euclidean semantics of SMT div for b>0)"""
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(b, int):
        if b == 1:
            return a
        # split off multiples
        q, rest = 0, []
        qi = []
        for x, k in a.items:
            if k % b == 0:
                qi.append((x, k // b))
            else:
                rest.append((x, k))
        qc, rc = divmod(a.c, b)
        if not rest:
            return _mk_lin(qc, qi)
        r = _mk_lin(rc, rest)
        if lo(r) is not None and hi(r) is not None and lo(r) // b == hi(r) // b:
            return add(_mk_lin(qc, qi), lo(r) // b)
        l = None if lo(r) is None else lo(r) // b
        h = None if hi(r) is None else hi(r) // b
        at = _mk_atom("div", (r, b), (tid(r), b), l, h)
        return add(_mk_lin(qc, qi), atom_lin(at))
    l = h = None
    if lo(a) is not None and lo(a) >= 0 and lo(b) is not None and lo(b) >= 1:
        l, h = 0, hi(a)
    return atom_lin(_mk_atom("div", (a, b), (tid(a), tid(b)), l, h))


def fmod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isinstance(b, int):
        return sub(a, mulc(fdiv(a, b), b))
    l, h = (0, (hi(b) - 1 if hi(b) is not None else None)) if (lo(b) is not None and lo(b) >= 1) else (None, None)
    return atom_lin(_mk_atom("mod", (a, b), (tid(a), tid(b)), l, h))


USES_GCD = False


def app(fname, args, l=None, h=None):
    global USES_GCD
    if fname == "gcd":
        USES_GCD = True
    return atom_lin(_mk_atom("app", (fname,) + tuple(args), (fname,) + tuple(tid(x) for x in args), l, h))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, B) or isinstance(b, B):
        if a is True and b is False:
            return c
        return bor(band(c, a), band(bnot(c), b))
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    l = None if lo(a) is None or lo(b) is None else min(lo(a), lo(b))
    h = None if hi(a) is None or hi(b) is None else max(hi(a), hi(b))
    # factor common parts: ite(c,a,b) = b + ite(c,a-b,0) is not smaller in general; keep plain
    return atom_lin(_mk_atom("ite", (c, a, b), (c.id, tid(a), tid(b)), l, h))


# ---------------------------------------------------------------- booleans
def _norm(l):
    g = 0
    for _, k in l.items:
        g = gcd(g, k)
    return g


def le0(l):
    """l <= 0"""
    if isinstance(l, int):
        return l <= 0
    if l._hi is not None and l._hi <= 0:
        return True
    if l._lo is not None and l._lo > 0:
        return False
    g = _norm(l)
    if g > 1:
        # sum + c <= 0  ->  sum/g <= floor(-c/g)
        l = _mk_lin(-((-l.c) // g), [(x, k // g) for x, k in l.items])
    # ite(c, k1, k2) <= const with constants
    if len(l.items) == 1 and l.items[0][0].kind == "ite":
        a, k = l.items[0]
        c, x, y = a.args
        if isinstance(x, int) and isinstance(y, int):
            return ite_b(c, k * x + l.c <= 0, k * y + l.c <= 0)
    return _mk_b("le", l, (l.id,))


def ite_b(c, a, b):
    return bor(band(c, a), band(bnot(c), b))


def eq0(l):
    if isinstance(l, int):
        return l == 0
    if (l._lo is not None and l._lo > 0) or (l._hi is not None and l._hi < 0):
        return False
    g = _norm(l)
    if g > 1:
        if l.c % g:
            return False
        l = _mk_lin(l.c // g, [(x, k // g) for x, k in l.items])
    if l.items[0][1] < 0:
        l = mulc(l, -1)
    if len(l.items) == 1 and l.items[0][0].kind == "ite":
        a, k = l.items[0]
        c, x, y = a.args
        if isinstance(x, int) or isinstance(y, int):
            return ite_b(c, eq0(add(mulc(x, k), l.c)), eq0(add(mulc(y, k), l.c)))
    return _mk_b("eq", l, (l.id,))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), 1))


def eq(a, b):
    return eq0(sub(a, b))


def ne(a, b):
    return bnot(eq(a, b))


def bnot(b):
    if isinstance(b, bool):
        return not b
    if b.kind == "not":
        return b.args
    if b.kind == "le":
        return le0(add(mulc(b.args, -1), 1))
    if b.kind == "and":
        return bor(*[bnot(x) for x in b.args])
    if b.kind == "or":
        return band(*[bnot(x) for x in b.args])
    return _mk_b("not", b, (b.id,))


def _nary(kind, bs, unit, zero):
    out = {}
    for b in bs:
        if isinstance(b, bool):
            if b is zero:
                return zero
            continue
        for x in (b.args if b.kind == kind else (b,)):
            out[x.id] = x
    if not out:
        return unit
    for x in out.values():
        if x.kind == "not" and x.args.id in out:
            return zero
    items = [out[i] for i in sorted(out)]
    if len(items) == 1:
        return items[0]
    # le(l) and le(-l+1) contradiction
    for x in items:
        if x.kind == "le":
            n = bnot(x)
            if isinstance(n, B) and n.id in out:
                return zero
    return _mk_b(kind, tuple(items), tuple(i.id for i in items))


def band(*bs):
    return _nary("and", bs, True, False)


def bor(*bs):
    return _nary("or", bs, False, True)


def implies(a, b):
    return bor(bnot(a), b)


# ---------------------------------------------------------------- arrays
class Arr:
    __slots__ = ("kind", "args", "id", "name", "elo", "ehi", "z")

    def __init__(self, kind, args, elo, ehi, name=None):
        self.kind, self.args, self.elo, self.ehi, self.name = kind, args, elo, ehi, name
        self.id = next(_ids)
        self.z = None

    def __repr__(self):
        return "%s%r" % (self.kind, self.name or self.args)


_arr = {}


def _mk_arr(kind, args, key, elo, ehi):
    k = (kind,) + key
    r = _arr.get(k)
    if r is None:
        r = _arr[k] = Arr(kind, args, elo, ehi)
    return r


def arr_base(name, elo=-128, ehi=127):
    return Arr("base", (), elo, ehi, fresh_name(name))


def arr_const(v, elo=-128, ehi=127):
    return _mk_arr("const", (v,), (tid(v),), elo, ehi)


def arr_store(a, i, v):
    # collapse store over store at same index
    if a.kind == "store" and isinstance(sub(a.args[1], i), int) and sub(a.args[1], i) == 0:
        a = a.args[0]
    return _mk_arr("store", (a, i, v), (a.id, tid(i), tid(v)), a.elo, a.ehi)


def arr_copy(a, d, b, s, n):
    if isinstance(n, int) and n <= 0:
        return a
    if a is b and isinstance(sub(d, s), int) and sub(d, s) == 0:
        return a
    return _mk_arr("copy", (a, d, b, s, n), (a.id, tid(d), b.id, tid(s), tid(n)), min(a.elo, b.elo), max(a.ehi, b.ehi))


def arr_fill(a, d, n, v):
    if isinstance(n, int) and n <= 0:
        return a
    return _mk_arr("fill", (a, d, n, v), (a.id, tid(d), tid(n), tid(v)), a.elo, a.ehi)


def arr_lam(a, l, h, bv, body):
    """i in [l,h) -> body[bv := i-l]  else a[i]; bv is an Atom"""
    return _mk_arr("lam", (a, l, h, bv, body), (a.id, tid(l), tid(h), bv.id, tid(body)), a.elo, a.ehi)


_selc = {}


def select(a, i):
    key = (a.id, tid(i))
    r = _selc.get(key)
    if r is not None:
        return r
    r = _select(a, i)
    _selc[key] = r
    return r


def _select(a, i):
    k = a.kind
    if k == "base":
        return atom_lin(_mk_atom("sel", (a, i), (a.id, tid(i)), a.elo, a.ehi))
    if k == "const":
        return a.args[0]
    if k == "store":
        a0, j, v = a.args
        c = eq(i, j)
        if c is True:
            return v
        if c is False:
            return select(a0, i)
        return ite(c, v, select(a0, i))
    if k == "copy":
        a0, d, b, s, n = a.args
        c = band(le(d, i), lt(i, add(d, n)))
        if c is False:
            return select(a0, i)
        x = select(b, add(s, sub(i, d)))
        if c is True:
            return x
        return ite(c, x, select(a0, i))
    if k == "fill":
        a0, d, n, v = a.args
        c = band(le(d, i), lt(i, add(d, n)))
        if c is False:
            return select(a0, i)
        if c is True:
            return v
        return ite(c, v, select(a0, i))
    if k == "lam":
        a0, l, h, bv, body = a.args
        c = band(le(l, i), lt(i, h))
        if c is False:
            return select(a0, i)
        x = subst(body, {bv.id: sub(i, l)})
        if c is True:
            return x
        return ite(c, x, select(a0, i))
    raise AssertionError(k)


# ---------------------------------------------------------------- substitution
def subst(x, m, cache=None, arrmap=None):
    """replace atoms (by id) with terms; arrmap replaces base arrays by id"""
    if cache is None:
        cache = {}
    if isinstance(x, (int, bool)):
        return x
    key = tid(x)
    if key in cache:
        return cache[key]
    if isinstance(x, Lin):
        r = x.c
        for a, k in x.items:
            r = add(r, mulc(_subst_atom(a, m, cache, arrmap), k))
    elif isinstance(x, B):
        k = x.kind
        if k == "le":
            r = le0(subst(x.args, m, cache, arrmap))
        elif k == "eq":
            r = eq0(subst(x.args, m, cache, arrmap))
        elif k == "not":
            r = bnot(subst(x.args, m, cache, arrmap))
        elif k == "and":
            r = band(*[subst(y, m, cache, arrmap) for y in x.args])
        elif k == "or":
            r = bor(*[subst(y, m, cache, arrmap) for y in x.args])
        else:
            r = x
    elif isinstance(x, Arr):
        k = x.kind
        s = lambda y: subst(y, m, cache, arrmap)
        if k == "base":
            r = arrmap.get(x.id, x) if arrmap else x
        elif k == "const":
            r = arr_const(s(x.args[0]), x.elo, x.ehi)
        elif k == "store":
            r = arr_store(*[s(y) for y in x.args])
        elif k == "copy":
            r = arr_copy(*[s(y) for y in x.args])
        elif k == "fill":
            r = arr_fill(*[s(y) for y in x.args])
        else:
            a0, l, h, bv, body = x.args
            r = arr_lam(s(a0), s(l), s(h), bv, s(body))
    else:
        raise AssertionError(type(x))
    cache[key] = r
    return r


def _subst_atom(a, m, cache, arrmap):
    if a.id in m:
        return m[a.id]
    key = ("a", a.id)
    if key in cache:
        return cache[key]
    k = a.kind
    s = lambda y: subst(y, m, cache, arrmap)
    if k == "var":
        r = atom_lin(a)
    elif k == "sel":
        r = select(s(a.args[0]), s(a.args[1]))
    elif k == "ite":
        r = ite(s(a.args[0]), s(a.args[1]), s(a.args[2]))
    elif k == "mul":
        r = mul(s(a.args[0]), s(a.args[1]))
    elif k == "div":
        r = fdiv(s(a.args[0]), s(a.args[1]))
    elif k == "mod":
        r = fmod(s(a.args[0]), s(a.args[1]))
    elif k == "app":
        r = app(a.args[0], [s(y) for y in a.args[1:]], a.lo, a.hi)
    else:
        raise AssertionError(k)
    cache[key] = r
    return r


def atoms_of(x, out=None, seen=None):
    """all atoms (recursively) of a term: dict id->Atom"""
    if out is None:
        out = {}
        seen = set()
    stack = [x]
    while stack:
        x = stack.pop()
        if isinstance(x, (int, bool, str)) or x is None:
            continue
        if isinstance(x, Lin):
            for a, _ in x.items:
                if a.id not in out:
                    out[a.id] = a
                    stack.extend(a.args)
        elif isinstance(x, B):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.kind in ("and", "or"):
                stack.extend(x.args)
            elif x.kind != "var":
                stack.append(x.args)
        elif isinstance(x, Arr):
            if x.id in seen:
                continue
            seen.add(x.id)
            stack.extend(y for y in x.args if not isinstance(y, Atom))
    return out


def bases_of(x, seen=None):
    """ids of base arrays occurring in a term"""
    res = {}
    seen = set()
    stack = [x]
    while stack:
        x = stack.pop()
        if isinstance(x, (int, bool, str)) or x is None or isinstance(x, Atom) and x.id in seen:
            continue
        if isinstance(x, Lin):
            for a, _ in x.items:
                if a.id not in seen:
                    seen.add(a.id)
                    stack.extend(a.args)
        elif isinstance(x, Atom):
            pass
        elif isinstance(x, B):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.kind in ("and", "or"):
                stack.extend(x.args)
            elif x.kind != "var":
                stack.append(x.args)
        elif isinstance(x, Arr):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.kind == "base":
                res[x.id] = x
            stack.extend(y for y in x.args if not isinstance(y, Atom))
    return res
