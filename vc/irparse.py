"""Lazy parser for textual LLVM 18 IR (opaque pointers)."""
import re, struct

TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<glo>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-\w.$]*))
 | (?P<attr>\#\d+)
 | (?P<com>\$(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<num>-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError("tok: %r" % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k == "ws":
            continue
        v = m.group()
        if k in ("loc", "glo") and v[1] == '"':
            v = v[0] + unesc(v[2:-1])
        out.append((k, v))
    return out


def unesc(s):
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elts", "el", "packed", "_size", "_align", "_offs", "name")

    def __init__(self, k, n=0, elts=None, el=None, packed=False, name=None):
        self.k, self.n, self.elts, self.el, self.packed, self.name = k, n, elts, el, packed, name
        self._size = self._align = self._offs = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "array":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return self.name or "{%s}" % ", ".join(map(repr, self.elts))
        return self.k


_ints = {}


def int_ty(n):
    if n not in _ints:
        _ints[n] = Ty("int", n)
    return _ints[n]


PTR = Ty("ptr")
VOID = Ty("void")
LABEL = Ty("label")
META = Ty("metadata")
FLOATS = {"float": (4, 4), "double": (8, 8), "x86_fp80": (16, 16), "half": (2, 2), "fp128": (16, 16)}
FTY = {k: Ty("fp", name=k) for k in FLOATS}


def size_of(t):
    if t._size is None:
        _layout(t)
    return t._size


def align_of(t):
    if t._align is None:
        _layout(t)
    return t._align


def _layout(t):
    k = t.k
    if k == "int":
        s = max(1, (t.n + 7) // 8)
        p = 1
        while p < s:
            p *= 2
        t._align = min(p, 16)
        t._size = p if s <= 16 else s
    elif k == "ptr":
        t._size = t._align = 8
    elif k == "fp":
        t._size, t._align = FLOATS[t.name]
    elif k == "array":
        t._align = align_of(t.el)
        t._size = t.n * size_of(t.el)
    elif k == "vector":
        t._size = t.n * size_of(t.el)
        t._align = t._size
    elif k == "struct":
        off, al, offs = 0, 1, []
        for e in t.elts:
            a = 1 if t.packed else align_of(e)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += size_of(e)
        t._size = (off + al - 1) // al * al
        t._align = al
        t._offs = offs
    elif k in ("void", "label", "metadata", "func", "opaque"):
        t._size, t._align = 0, 1
    else:
        raise AssertionError(k)


def offsets(t):
    if t._offs is None:
        _layout(t)
    return t._offs


ATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "preallocated", "inalloca",
              "elementtype", "allocsize", "memory", "nofpclass", "captures", "range", "initializes", "vscale_range",
              "allockind", "alignstack", "uwtable", "align"}


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.vararg = False
        self.ret = None
        self.blocks = None
        self.entry = None
        self.loops = None
        self.text = None
        self.header = None


class P:
    """token stream parser"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def pv(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError("expected %r got %r in %r" % (v, self.t[self.i:self.i + 5], " ".join(x[1] for x in self.t)[:300]))

    def skip_paren(self):
        d = 0
        while True:
            v = self.next()[1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
                if d == 0:
                    return

    # types
    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "ptr":
                t = PTR
                if self.pv() == "addrspace":
                    self.next()
                    self.skip_paren()
            elif v == "void":
                t = VOID
            elif v == "label":
                t = LABEL
            elif v == "metadata":
                t = META
            elif v == "opaque":
                t = Ty("opaque")
            elif v in FTY:
                t = FTY[v]
            elif re.fullmatch(r"i\d+", v):
                t = int_ty(int(v[1:]))
            else:
                raise SyntaxError("type %r" % v)
        elif k == "loc":
            t = self.m.named_type(v)
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("array", n, el=e)
        elif v == "{":
            t = self._struct("}")
        elif v == "<":
            if self.pv() == "{":
                self.next()
                t = self._struct("}", True)
                self.expect(">")
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vector", n, el=e)
        else:
            raise SyntaxError("type %r %r" % (k, v))
        # function type
        while self.pv() == "(" and t.k not in ("label",):
            # only valid when followed by types
            save = self.i
            self.next()
            args = []
            va = False
            try:
                while not self.accept(")"):
                    if self.accept("..."):
                        va = True
                    else:
                        args.append(self.type())
                        self.attrs()
                    self.accept(",")
            except SyntaxError:
                self.i = save
                break
            t = Ty("func", elts=args, el=t)
            t.packed = va
        return t

    def _struct(self, end, packed=False):
        el = []
        while not self.accept(end):
            el.append(self.type())
            self.accept(",")
        return Ty("struct", elts=el, packed=packed)

    def attrs(self):
        """skip parameter/return attributes; returns dict of interesting ones"""
        out = {}
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if k == "attr":
                self.i += 1
                continue
            if k == "str":
                self.i += 1
                if self.accept("="):
                    self.i += 1
                continue
            if k != "word" or v in ("null", "true", "false", "undef", "poison", "zeroinitializer", "none", "to", "unwind",
                                    "getelementptr", "bitcast", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "sub", "add",
                                    "icmp", "select", "x", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "asm",
                                    "dso_local_equivalent", "blockaddress", "addrspacecast", "splat"):
                break
            if re.fullmatch(r"i\d+", v) or v in FTY or v in ("ptr", "void", "label", "metadata"):
                break
            self.i += 1
            if v == "align" and self.pv() != "(":
                out["align"] = int(self.next()[1])
                continue
            if v in ATTR_PAREN and self.pv() == "(":
                if v in ("sret", "byval"):
                    self.next()
                    out[v] = self.type()
                    self.expect(")")
                else:
                    self.skip_paren()
                continue
            out[v] = True
        return out

    # values of a given type -> operand tuples
    def value(self, t):
        k, v = self.next()
        if k == "loc":
            return ("r", v)
        if k == "glo":
            return ("g", v[1:])
        if k == "num":
            if t.k == "int":
                return ("c", wrap(int(v, 0), t.n))
            if t.k == "fp":
                if v.startswith("0x"):
                    if v[2] in "KLMHR":
                        return ("f", None if v[2] != "K" else x87(v[3:]))
                    return ("f", struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0])
                return ("f", float(v))
            raise SyntaxError("num for %r" % t)
        if k == "word":
            if v == "true":
                return ("c", True)
            if v == "false":
                return ("c", False)
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef", t)
            if v == "zeroinitializer":
                return ("zero", t)
            if v == "none":
                return ("undef", t)
            if v == "getelementptr":
                while self.pv() in ("inbounds", "nuw", "nusw"):
                    self.next()
                self.expect("(")
                bt = self.type()
                self.expect(",")
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.accept(","):
                    while self.pv() == "inrange":
                        self.next()
                        if self.pv() == "(":
                            self.skip_paren()
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(")")
                return ("cgep", bt, base, idx)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
                self.expect("(")
                st = self.type()
                x = self.value(st)
                self.expect("to")
                dt = self.type()
                self.expect(")")
                return ("ccast", v, st, x, dt)
            if v in ("sub", "add", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
                while self.pv() in ("nuw", "nsw", "exact", "disjoint"):
                    self.next()
                self.expect("(")
                t1 = self.type()
                a = self.value(t1)
                self.expect(",")
                t2 = self.type()
                b = self.value(t2)
                self.expect(")")
                return ("cbin", v, t1, a, b)
            if v == "icmp":
                pred = self.next()[1]
                self.expect("(")
                t1 = self.type()
                a = self.value(t1)
                self.expect(",")
                t2 = self.type()
                b = self.value(t2)
                self.expect(")")
                return ("cicmp", pred, t1, a, b)
            if v == "asm":
                while self.peek()[0] in ("word",):
                    self.next()
                s = self.next()[1]
                self.expect(",")
                self.next()
                return ("asm", s)
        if k == "str":
            s = v[2:-1] if v[0] == "c" else v[1:-1]
            return ("bytes", unesc(s).encode("latin1"))
        if v == "[":
            out = []
            while not self.accept("]"):
                et = self.type()
                out.append((et, self.value(et)))
                self.accept(",")
            return ("agg", t, out)
        if v == "{":
            out = []
            while not self.accept("}"):
                et = self.type()
                out.append((et, self.value(et)))
                self.accept(",")
            return ("agg", t, out)
        if v == "<":
            out = []
            br = self.accept("{")
            end = "}" if br else ">"
            while not self.accept(end):
                et = self.type()
                out.append((et, self.value(et)))
                self.accept(",")
            if br:
                self.expect(">")
            return ("agg", t, out)
        raise SyntaxError("value %r %r type %r in %s" % (k, v, t, " ".join(x[1] for x in self.t)[:300]))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def x87(h):
    n = int(h, 16)
    se, man = n >> 64, n & ((1 << 64) - 1)
    s = -1.0 if se >> 15 else 1.0
    e = se & 0x7fff
    if man == 0:
        return 0.0 * s
    return s * (man / 2.0 ** 63) * 2.0 ** (e - 16383)


def wrap(v, n):
    if n == 1:
        return bool(v & 1)
    v &= (1 << n) - 1
    if v >> (n - 1):
        v -= 1 << n
    return v


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_txt = {}
        self.fns = {}
        self.decls = set()
        self.globals = {}      # name -> (type text tokens, init tokens, constant?)
        self.aliases = {}
        self.dbg = {}
        self._scan(text)

    def _scan(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                name = m.group(1)
                if name[0] == '"':
                    name = unesc(name[1:-1])
                f = Fn(name.lstrip("\x01"))
                f.header = l
                f.text = lines[i + 1:j]
                self.fns[f.name] = f
                i = j
            elif l.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            elif l.startswith("%"):
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) = type (.*)$', l)
                nm = m.group(1)
                if nm[1] == '"':
                    nm = "%" + unesc(nm[2:-1])
                self.type_txt[nm] = m.group(2)
            elif l.startswith("@"):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', l)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = unesc(nm[1:-1])
                rest = m.group(2)
                self.globals[nm.lstrip("\x01")] = rest
            elif l.startswith("!"):
                m = re.match(r'(!\d+) = (?:distinct )?!DILocation\(line: (\d+), (?:column: \d+, )?scope: (!\d+)', l)
                if m:
                    self.dbg[m.group(1)] = int(m.group(2))
            i += 1
        self._gcache = {}

    def named_type(self, nm):
        t = self.types.get(nm)
        if t is None:
            txt = self.type_txt.get(nm)
            if txt is None:
                raise SyntaxError("unknown type " + nm)
            t = Ty("struct", elts=[], name=nm)
            self.types[nm] = t
            r = P(self, tokenize(txt)).type()
            t.k, t.elts, t.packed, t.n, t.el = r.k, r.elts, r.packed, r.n, r.el
        return t

    def global_info(self, nm):
        """-> dict(ty, init operand or None, const, alias operand)"""
        if nm in self._gcache:
            return self._gcache[nm]
        rest = self.globals.get(nm)
        if rest is None:
            return None
        rest = re.sub(r', !dbg .*$', '', rest)
        p = P(self, tokenize(rest))
        ext = const = alias = False
        tls = False
        while True:
            k, v = p.peek()
            if v in ("constant", "global"):
                const = v == "constant"
                p.next()
                break
            if v == "alias":
                alias = True
                p.next()
                break
            if v in ("external", "extern_weak"):
                ext = True
            if v == "thread_local":
                tls = True
            p.next()
            if p.pv() == "(":
                p.skip_paren()
        if alias:
            t = p.type()
            p.expect(",")
            t2, v = p.tv()
            info = dict(ty=t, init=None, const=True, alias=v, ext=False)
        else:
            t = p.type()
            init = None
            if not ext and p.i < len(p.t) and p.pv() != ",":
                init = p.value(t)
            info = dict(ty=t, init=init, const=const, alias=None, ext=ext)
        self._gcache[nm] = info
        return info

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            return None
        if f.blocks is None:
            self._parse_fn(f)
        return f

    def _parse_fn(self, f):
        h = f.header
        toks = tokenize(h[:h.rindex("{")])
        p = P(self, toks)
        # find '@name'
        while p.peek()[0] != "glo":
            p.next()
        # return type: parse backwards is messy; reparse from after 'define' skipping linkage words
        q = P(self, toks)
        q.next()
        while True:
            k, v = q.peek()
            if k == "word" and not re.fullmatch(r"i\d+", v) and v not in FTY and v not in ("ptr", "void"):
                q.next()
                if q.pv() == "(":
                    q.skip_paren()
                continue
            if k == "num":
                q.next()
                continue
            break
        f.ret = q.type()
        p.next()
        p.expect("(")
        n = 0
        while not p.accept(")"):
            if p.accept("..."):
                f.vararg = True
                continue
            t = p.type()
            at = p.attrs()
            if p.peek()[0] == "loc":
                nm = p.next()[1]
            else:
                nm = "%%%d" % n
            n += 1
            f.params.append((nm, t, at))
            p.accept(",")
        f.blocks = {}
        cur = None
        lines = f.text
        # join multi-line instructions (switch, landingpad clauses, invoke)
        i = 0
        first = True
        while i < len(lines):
            l = lines[i]
            if not l.strip():
                i += 1
                continue
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if m and not l.startswith(" "):
                nm = m.group(1)
                if nm[0] == '"':
                    nm = unesc(nm[1:-1])
                cur = []
                f.blocks["%" + nm] = cur
                if first:
                    f.entry = "%" + nm
                    first = False
                i += 1
                continue
            if first:
                # implicit entry label: numbered after params
                nm = "%%%d" % len([1 for x in f.params if re.fullmatch(r"%\d+", x[0])])
                cur = []
                f.blocks[nm] = cur
                f.entry = nm
                first = False
            s = l
            if " switch " in l or l.lstrip().startswith("switch "):
                while not s.rstrip().endswith("]") and "]" not in s:
                    i += 1
                    s += " " + lines[i]
            else:
                while i + 1 < len(lines) and (lines[i + 1].startswith("          ") or lines[i + 1].startswith("\t")):
                    i += 1
                    s += " " + lines[i]
            cur.append(s)
            i += 1
        f.text = None
        for b in f.blocks:
            f.blocks[b] = LazyBlock(self, f.blocks[b])
        return f


class LazyBlock:
    __slots__ = ("m", "lines", "ins")

    def __init__(self, m, lines):
        self.m, self.lines, self.ins = m, lines, None

    def get(self):
        if self.ins is None:
            self.ins = [parse_instr(self.m, l) for l in self.lines]
        return self.ins

    def targets(self):
        """successor labels, from text of last line"""
        l = self.lines[-1]
        return re.findall(r'label (%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))', l)


class I:
    """instruction: op, dst, and op-specific fields in a"""
    __slots__ = ("op", "dst", "a", "line")

    def __init__(self, op, dst, a, line):
        self.op, self.dst, self.a, self.line = op, dst, a, line

    def __repr__(self):
        return "%s=%s %r" % (self.dst, self.op, self.a)


BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub",
       "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp", "fpext",
        "fptrunc", "addrspacecast"}


def parse_instr(m, line):
    dbg = None
    mm = re.search(r', !dbg (!\d+)', line)
    if mm:
        dbg = m.dbg.get(mm.group(1))
    # strip metadata attachments
    line = re.sub(r'(, ![\w.]+ !\d+)+\s*(?=$|\])', '', line) if not line.lstrip().startswith("switch") else re.sub(r', ![\w.]+ !\d+', '', line)
    toks = tokenize(line)
    p = P(m, toks)
    dst = None
    if p.peek()[0] == "loc" and len(toks) > 1 and toks[1][1] == "=":
        dst = p.next()[1]
        p.next()
    op = p.next()[1]
    while op in ("tail", "musttail", "notail"):
        op = p.next()[1]
    a = None
    if op in ("call", "invoke"):
        while p.peek()[0] == "word" and p.pv() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "ccc", "fastcc", "coldcc"):
            p.next()
        at = p.attrs()
        rt = p.type()
        fty = None
        if rt.k == "func":
            fty = rt
            rt = rt.el
        p.attrs()
        callee = p.value(PTR)
        p.expect("(")
        args = []
        while not p.accept(")"):
            t = p.type()
            if t.k == "metadata":
                # skip metadata operand
                d = 0
                while True:
                    v = p.pv()
                    if d == 0 and v in (",", ")"):
                        break
                    if v in ("(", "{"):
                        d += 1
                    if v in (")", "}"):
                        d -= 1
                    p.next()
                args.append((t, None, {}))
            else:
                pa = p.attrs()
                args.append((t, p.value(t), pa))
            p.accept(",")
        norm = unw = None
        if op == "invoke":
            while p.pv() != "to":
                p.next()
            p.next()
            p.expect("label")
            norm = p.next()[1]
            p.expect("unwind")
            p.expect("label")
            unw = p.next()[1]
        a = (rt, callee, args, norm, unw)
    elif op == "alloca":
        p.accept("inalloca")
        t = p.type()
        n = None
        while p.accept(","):
            if p.pv() == "align":
                p.next()
                p.next()
            else:
                n = p.tv()
        a = (t, n)
    elif op == "load":
        at = False
        while p.pv() in ("volatile", "atomic"):
            at = at or p.pv() == "atomic"
            p.next()
        t = p.type()
        p.expect(",")
        _, ptr = p.tv()
        a = (t, ptr, at)
    elif op == "store":
        at = False
        while p.pv() in ("volatile", "atomic"):
            at = at or p.pv() == "atomic"
            p.next()
        t, v = p.tv()
        p.expect(",")
        _, ptr = p.tv()
        a = (t, v, ptr, at)
    elif op == "getelementptr":
        while p.pv() in ("inbounds", "nuw", "nusw"):
            p.next()
        bt = p.type()
        p.expect(",")
        _, base = p.tv()
        idx = []
        while p.accept(","):
            idx.append(p.tv())
        a = (bt, base, idx)
    elif op == "br":
        if p.pv() == "label":
            p.next()
            a = (None, p.next()[1], None)
        else:
            t, c = p.tv()
            p.expect(",")
            p.expect("label")
            x = p.next()[1]
            p.expect(",")
            p.expect("label")
            a = (c, x, p.next()[1])
    elif op == "ret":
        t = p.type()
        a = None if t.k == "void" else (t, (p.attrs(), p.value(t))[1])
    elif op in BIN:
        fl = set()
        while p.pv() in ("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            fl.add(p.next()[1])
        t = p.type()
        x = p.value(t)
        p.expect(",")
        y = p.value(t)
        a = (t, x, y, fl)
    elif op in CAST:
        while p.pv() in ("nneg", "nuw", "nsw"):
            p.next()
        st, x = p.tv()
        p.expect("to")
        a = (st, x, p.type())
    elif op in ("icmp", "fcmp"):
        while p.pv() in ("fast", "nnan", "ninf", "nsz", "samesign"):
            p.next()
        pred = p.next()[1]
        t = p.type()
        x = p.value(t)
        p.expect(",")
        a = (pred, t, x, p.value(t))
    elif op == "phi":
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            lab = p.next()[1]
            p.expect("]")
            inc.append((v, lab))
            if not p.accept(","):
                break
        a = (t, dict((lab, v) for v, lab in inc))
    elif op == "select":
        ct, c = p.tv()
        p.expect(",")
        t, x = p.tv()
        p.expect(",")
        t2, y = p.tv()
        a = (t, c, x, y)
    elif op == "switch":
        t, v = p.tv()
        p.expect(",")
        p.expect("label")
        d = p.next()[1]
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((cv, p.next()[1]))
        a = (t, v, d, cases)
    elif op == "extractvalue":
        t, v = p.tv()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()[1]))
        a = (t, v, idx)
    elif op == "insertvalue":
        t, v = p.tv()
        p.expect(",")
        t2, x = p.tv()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()[1]))
        a = (t, v, t2, x, idx)
    elif op == "landingpad":
        t = p.type()
        clauses = []
        cleanup = False
        while p.i < len(p.t):
            w = p.next()[1]
            if w == "cleanup":
                cleanup = True
            elif w == "catch":
                clauses.append(("catch", p.tv()[1]))
            elif w == "filter":
                clauses.append(("filter", p.tv()))
        a = (t, cleanup, clauses)
    elif op == "resume":
        a = p.tv()
    elif op == "unreachable":
        a = None
    elif op == "atomicrmw":
        p.accept("volatile")
        o = p.next()[1]
        _, ptr = p.tv()
        p.expect(",")
        t, v = p.tv()
        a = (o, ptr, t, v)
    elif op == "cmpxchg":
        p.accept("weak")
        p.accept("volatile")
        _, ptr = p.tv()
        p.expect(",")
        t, c = p.tv()
        p.expect(",")
        _, n = p.tv()
        a = (ptr, t, c, n)
    elif op == "fence":
        a = None
    elif op == "fneg":
        t, v = p.tv()
        a = (t, v)
    elif op == "freeze":
        a = p.tv()
    elif op == "va_arg":
        a = p.tv() 
    elif op in ("extractelement", "insertelement", "shufflevector"):
        a = ("vec", line)
    else:
        raise SyntaxError("op %r in %s" % (op, line))
    return I(op, dst, a, dbg)


# ---------------------------------------------------------------- CFG / natural loops
def find_loops(f):
    """natural loops of f: dict header -> set(blocks)"""
    if f.loops is not None:
        return f.loops
    succ = {}
    for b, blk in f.blocks.items():
        s = []
        for x in blk.targets():
            if len(x) > 1 and x[1] == '"':
                x = "%" + unesc(x[2:-1])
            if x in f.blocks:
                s.append(x)
        succ[b] = s
    order, seen = [], set()
    stack = [(f.entry, iter(succ[f.entry]))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            pred[s].append(b)
    idom = {f.entry: f.entry}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            n = ps[0]
            for p_ in ps[1:]:
                x, y = p_, n
                while x != y:
                    while idx[x] > idx[y]:
                        x = idom[x]
                    while idx[y] > idx[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    f.loops = loops
    return loops
