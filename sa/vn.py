"""Engine A: gated value numbering.  One sparse forward pass over the (acyclic) SSA graph of a function
computes, for every value and every memory cell, a normal form: polynomials modulo 2^w for integers, rational
functions with uninterpreted sqrt/sin/... for floats, region+offset for pointers, and decision diagrams where
a value is selected by a comparison."""
from fractions import Fraction
from .nf import *
from .nf import _full
from . import ir

class Unanalysable(Exception): pass

INF = ("inf",)
MATH1 = {}
for n in ("sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "floor", "ceil", "trunc", "round"):
    for s in ("", "f", "l"): MATH1[n + s] = n
    for s in ("f32", "f64", "f80"): MATH1["llvm.%s.%s" % (n, s)] = n

def rkey(r): return (r.n, r.d) if not r.d.is_const() else (r.n,)
def neg_lead(r):
    return bool(r.n.t) and r.n.lead() < 0
def math1(fn, r):
    if fn == "sqrt":
        if r.is_const():
            c = r.cval()
            if c >= 0:
                import math
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator: return Rat.const(Fraction(n, d))
        return Rat.atom(("sqrt",) + rkey(r))
    if fn == "tan":
        return math1("sin", r) / math1("cos", r)
    if fn == "sin":
        if not r.n.t: return Rat.const(0)
        if neg_lead(r): return -math1("sin", -r)
    if fn == "cos":
        if not r.n.t: return Rat.const(1)
        if neg_lead(r): r = -r
    return Rat.atom((fn,) + rkey(r))

def akey_abs(r):
    return _full(rkey(-r if neg_lead(r) else r))
def exact_op(op, x, y, w):
    """rounded floating operation as an uninterpreted term; only identities exact in IEEE arithmetic (up to the
    sign of zero) are used"""
    if op == "fsub": op = "fadd"; y = -y
    if x.is_const() and y.is_const() and not (op == "fdiv" and not y.n.t):
        c = x + y if op == "fadd" else x * y if op == "fmul" else x / y if op == "fdiv" else None
        if c is not None and exact(c.cval(), 32 if w == 32 else 64): return c
    if op == "fadd":
        if not x.n.t: return y
        if not y.n.t: return x
        if akey_abs(y) < akey_abs(x): x, y = y, x
        if neg_lead(x): return -exact_op("fadd", -x, -y, w)
    if op in ("fmul", "fdiv"):
        if neg_lead(x): return -exact_op(op, -x, y, w)
        if neg_lead(y): return -exact_op(op, x, -y, w)
        one = Rat.const(1)
        if y == one: return x
        if op == "fmul" and x == one: return y
        if op == "fmul" and akey_abs(y) < akey_abs(x): x, y = y, x
    return Rat.atom(("%s%d" % (op, w),) + rkey(x) + ("|",) + rkey(y))

def parse_fp(s):
    if s in ("nan", "inf", "-inf"): return Rat.atom(("fpc", s))
    neg = s.startswith("-")
    t = s[1:] if neg else s
    m, e = t[2:].split("p")
    if "." in m: a, b = m.split(".")
    else: a, b = m, ""
    v = Fraction(int(a + b, 16), 16 ** len(b)) * (Fraction(2) ** int(e))
    return Rat.const(-v if neg else v)

def bits_of(t):
    if t[0] == "i": return t[1]
    if t[0] == "f": return t[1]
    if t[0] == "p": return 64
    if t[0] == "v": return t[1] * bits_of(t[2])
    if t[0] == "a": return t[1] * t[3] * 8
    if t[0] == "s": return t[2] * 8
    raise Unanalysable("size of %s" % (t,))
def nbytes(t):
    if t == ["f", 80]: return 16
    if t[0] == "i": return (t[1] + 7) // 8
    return bits_of(t) // 8

class Region:
    """initial contents of a memory object. layout: 'undef', or a function off,->type"""
    def __init__(s, name, layout=None, size=None, kind="arg"):
        s.name = name; s.layout = layout; s.size = size; s.kind = kind
    def type_at(s, off):
        if s.layout is None: return None
        if callable(s.layout): return s.layout(off)
        # homogeneous element type
        return s.layout

class Event:
    def __init__(s, cond, name, args, loc, ret=None): s.cond = cond; s.name = name; s.args = args; s.loc = loc; s.ret = ret
    def __repr__(s): return "%s(%s) if %r" % (s.name, ", ".join(map(repr, s.args)), s.cond)

class VN:
    def __init__(self, module, fname, args, regions, f32_identity=True, externs=None, pure=None, exact=False, prec=None):
        self.exact = exact
        self.prec = prec            # width of the result type: operations narrower than it lose digits the result should have
        self.m = module
        self.f = module["functions"].get(fname)
        if not self.f or self.f["decl"]: raise Unanalysable("no body for " + fname)
        self.fname = fname
        self.regions = dict(regions)
        self.f32id = f32_identity
        self.externs = externs or {}
        self.pure = pure or {}
        self.env = {}
        for a, v in zip(self.f["args"], args): self.env[a["id"]] = v if isinstance(v, (DD, list)) else leaf(v)
        self.events = []; self.asserts = []; self.reads = []
        self.n_ins = 0; self.nalloc = 0; self.retlocs = []
        self.calls = 0
        self.run()

    # -------------------------------------------------- operands
    def op(self, o):
        k = o["k"]
        if k == "v":
            try: return self.env[o["id"]]
            except KeyError: raise Unanalysable("use of an unevaluated value (loop?) in " + self.fname)
        t = o.get("t")
        if k == "ci":
            w = t[1]; v = int(o["v"])
            if w == 1: return TRUE if v else FALSE
            return leaf(I(Poly.const(v), w))
        if k == "cf": return leaf(F(parse_fp(o["v"])))
        if k == "null": return leaf(P("null", ZERO))
        if k in ("undef", "poison"): return self.undef(t)
        if k == "zero": return self.zero(t)
        if k == "agg": return [self.op(e) for e in o["e"]]
        if k == "g": return leaf(P("@" + o["n"], ZERO))
        if k == "gep": return self.gep(o)
        raise Unanalysable("operand %s" % k)
    def undef(self, t):
        if t[0] == "v": return [leaf(U())] * t[1]
        if t[0] == "a": return [self.undef(t[2]) for _ in range(t[1])]
        if t[0] == "s": return [self.undef(e[1]) for e in t[1]]
        return leaf(U())
    def zero(self, t):
        if t[0] == "i": return FALSE if t[1] == 1 else leaf(I(ZERO, t[1]))
        if t[0] == "f": return leaf(F(Rat.const(0)))
        if t[0] == "p": return leaf(P("null", ZERO))
        if t[0] == "v": return [self.zero(t[2]) for _ in range(t[1])]
        if t[0] == "a": return [self.zero(t[2]) for _ in range(t[1])]
        if t[0] == "s": return [self.zero(e[1]) for e in t[1]]
        raise Unanalysable("zero of %s" % (t,))
    def gep(self, g):
        b = self.op(g["base"])
        if "bad" in g or isinstance(b, list): raise Unanalysable("gep")
        terms = [(self.op(x), s) for x, s in g["idx"]]
        def f(p, *ix):
            if isinstance(p, U): return p
            if not isinstance(p, P): raise Unanalysable("gep on %r" % (p,))
            off = p.off + Poly.const(g["off"])
            for i, (_, s) in zip(ix, terms):
                if isinstance(i, U): return i
                off = off + i.p.scale(s)
            return P(p.reg, off)
        return apply(f, b, *[t for t, _ in terms])

    # -------------------------------------------------- memory
    def initial(self, reg, off, t):
        """contents before the function ran"""
        r = self.regions.get(reg)
        if r is None or r.kind == "alloca" or r.layout is None: return self.undef(t)
        if isinstance(r.layout, dict) and "init" in r.layout: return r.layout["init"](off, t)
        et = r.type_at(off)
        if et is None: return leaf(self.opaque(("in", reg, off), t)) if t[0] not in ("v",) else [leaf(self.opaque(("in", reg, off + i * nbytes(t[2])), t[2])) for i in range(t[1])]
        if et[0] == "bool":
            if t == ["i", 8]:
                return ite(booln(("b", reg, off)), leaf(I(ONE, 8)), leaf(I(ZERO, 8)))
        if t[0] == "v":
            es = nbytes(t[2])
            return [self.initial(reg, off + i * es, t[2]) for i in range(t[1])]
        if et == t: return leaf(self.opaque(("in", reg, off), t))
        eb, tb = (1 if et[0] == "bool" else nbytes(et)), nbytes(t)
        if tb > eb:
            parts = []; o = off
            ds = []
            while o < off + tb:
                e = r.type_at(o)
                e2 = ["i", 8] if e[0] == "bool" else e
                ds.append((self.initial(reg, o, e2), nbytes(e2) * 8)); o += nbytes(e2)
            return self.from_parts(ds, t)
        if tb == eb:
            return self.from_parts([(leaf(self.opaque(("in", reg, off), et)), eb * 8)], t)
        return leaf(self.opaque(("inb", reg, off, tb), t))
    def opaque(self, a, t):
        if t[0] == "f": return F(Rat.atom(a))
        if t[0] == "i": return I(Poly.atom(a), t[1])
        if t[0] == "p": return P(("deref",) + a[1:], ZERO)
        raise Unanalysable("opaque %s" % (t,))
    def from_parts(self, ds, t):
        """ds: [(DD, bits)] little endian -> value of type t"""
        if t[0] == "v":
            out = []; i = 0; eb = bits_of(t[2]); cur = []; acc = 0
            for d, w in ds:
                cur.append((d, w)); acc += w
                if acc == eb: out.append(self.from_parts(cur, t[2])); cur = []; acc = 0
                elif acc > eb: raise Unanalysable("split")
            if cur: raise Unanalysable("split")
            return out
        ws = [w for _, w in ds]
        return apply(lambda *ls: self.reinterp(flat_bits(list(zip(ws, ls))), t), *[d for d, _ in ds])
    def reinterp(self, parts, t):
        parts = norm_bits(parts)
        if any(isinstance(l, U) for _, l in parts) and len(parts) == 1: return U()
        if len(parts) == 1:
            w, l = parts[0]
            if t[0] == "f" and isinstance(l, F): return l
            if t[0] == "i" and isinstance(l, I) and l.w == t[1]: return l
            if t[0] == "p" and isinstance(l, P): return l
            if t[0] == "f" and isinstance(l, I) and l.is_const():
                import struct
                if t[1] == 32: return F(Rat.const(Fraction(struct.unpack("<f", struct.pack("<I", l.cval() & 0xffffffff))[0])))
                if t[1] == 64: return F(Rat.const(Fraction(struct.unpack("<d", struct.pack("<Q", l.cval() & (2**64-1)))[0])))
            if t[0] == "f" and isinstance(l, I): return F(Rat.atom(("bits2f", l.p)))
            if t[0] == "p" and isinstance(l, I):
                a = list(l.p.t.items())
                return P(("int2ptr", l.p), ZERO)
        if t[0] == "i": return B(parts)
        if t[0] == "f": return F(Rat.atom(("bits2f",) + tuple(repr(p) for p in parts)))
        raise Unanalysable("reinterpret")
    def load(self, mem, p, t, loc):
        if isinstance(p, list): raise Unanalysable("vector of pointers")
        res = []
        def f(pl):
            if isinstance(pl, U): raise Unanalysable("load through undef")
            if not isinstance(pl, P): raise Unanalysable("load through %r" % (pl,))
            if not pl.off.is_const():
                cells = mem.get(pl.reg, {})
                if cells and pl.reg not in ("null",): raise Unanalysable("symbolic load from a modified object")
                self.reads.append((pl.reg, pl.off, nbytes(t), loc))
                return leaf(self.opaque(("ld", pl.reg, pl.off), t))
            off = pl.off.cval()
            self.reads.append((pl.reg, pl.off, nbytes(t), loc))
            return self.read(mem, pl.reg, off, t)
        if t[0] in ("v", "a", "s"):
            if t[0] == "v":
                es = nbytes(t[2])
                return [self.load(mem, apply(lambda q: P(q.reg, q.off + Poly.const(i * es)), p), t[2], loc) for i in range(t[1])]
            if t[0] == "a":
                return [self.load(mem, apply(lambda q: P(q.reg, q.off + Poly.const(i * t[3])), p), t[2], loc) for i in range(t[1])]
            return [self.load(mem, apply(lambda q: P(q.reg, q.off + Poly.const(o)), p), e, loc) for o, e in t[1]]
        return apply(f, p)
    def read(self, mem, reg, off, t):
        n = nbytes(t)
        cells = mem.get(reg, {})
        c = cells.get(off)
        if c and c[0] == n:
            d = c[1]
            return self.from_parts([(d, n * 8)], t)
        if reg[0] == "@" if isinstance(reg, str) else False:
            return self.read_global(reg[1:], off, t)
        over = sorted(o for o, c in cells.items() if o < off + n and o + c[0] > off)
        if not over: return self.initial(reg, off, t)
        parts = []; pos = off
        while pos < off + n:
            c = cells.get(pos)
            if c and pos + c[0] <= off + n:
                parts.append((c[1], c[0] * 8)); pos += c[0]; continue
            # inside a bigger cell
            cov = [o for o, c in cells.items() if o <= pos < o + c[0]]
            if cov:
                o = cov[0]; c = cells[o]
                take = min(o + c[0], off + n) - pos
                parts.append((apply(lambda l: B(slice_bits([(c[0] * 8, l)], (pos - o) * 8, take * 8)), c[1]), take * 8))
                pos += take; continue
            nxt = min([o for o in cells if o > pos] + [off + n])
            et = self.regions[reg].type_at(pos) if reg in self.regions and self.regions[reg].layout is not None and not isinstance(self.regions[reg].layout, dict) else None
            if et is not None:
                e2 = ["i", 8] if et[0] == "bool" else et
                parts.append((self.initial(reg, pos, e2), nbytes(e2) * 8)); pos += nbytes(e2)
            else:
                parts.append((self.initial(reg, pos, ["i", (nxt - pos) * 8]), (nxt - pos) * 8)); pos = nxt
        return self.from_parts(parts, t)
    def read_global(self, name, off, t):
        g = self.m["globals"].get(name)
        if g and g.get("const") and "init" in g:
            v = dig(g["init"], g["t"], off, t)
            if v is not None: return self.op(v)
        return leaf(self.opaque(("in", "@" + name, off), t))
    def store(self, mem, p, v, t, loc, cond):
        if isinstance(p, list): raise Unanalysable("vector of pointers")
        if t[0] in ("v", "a", "s"):
            if t[0] == "v": offs = [(i * nbytes(t[2]), t[2]) for i in range(t[1])]
            elif t[0] == "a": offs = [(i * t[3], t[2]) for i in range(t[1])]
            else: offs = t[1]
            for (o, e), x in zip(offs, v):
                self.store(mem, apply(lambda q: P(q.reg, q.off + Poly.const(o)), p), x, e, loc, cond)
            return
        n = nbytes(t)
        if t == ["i", 1]: v = self.zext(v, 8); n = 1
        for path, pl in leaves(p):
            if isinstance(pl, U): raise Unanalysable("store through undef")
            if not pl.off.is_const(): raise Unanalysable("store at a symbolic offset")
            off = pl.off.cval()
            cells = mem.setdefault(pl.reg, {})
            if p.var is None: val = v
            else:
                c = TRUE
                for var, k in path: c = AND(c, mk(var, {x: (TRUE if x == k else FALSE) for x in self.dom(var)}))
                val = ite(c, v, self.read(mem, pl.reg, off, t))
            self.put(cells, off, n, val, loc)
    def dom(self, var):
        return (0, 1) if var[0] in ("b", "bit0", "bv") else (-1, 0, 1)
    def put(self, cells, off, n, val, loc):
        for o in [o for o, c in cells.items() if o < off + n and o + c[0] > off]:
            c = cells.pop(o)
            if o < off:
                k = off - o
                cells[o] = (k, apply(lambda l: B(slice_bits([(c[0] * 8, l)], 0, k * 8)), c[1]), c[2])
            if o + c[0] > off + n:
                k = o + c[0] - (off + n)
                cells[off + n] = (k, apply(lambda l: B(slice_bits([(c[0] * 8, l)], (off + n - o) * 8, k * 8)), c[1]), c[2])
        cells[off] = (n, val, loc)
    def copy(self, mem, d, s, n, loc, cond):
        if d.var is not None or s.var is not None:
            acc = None
            for which, dd in (("d", d), ("s", s)):
                if dd.var is None: continue
                for path, pl in leaves(dd):
                    c = TRUE
                    for var, k in path: c = AND(c, mk(var, {x: (TRUE if x == k else FALSE) for x in self.dom(var)}))
                    m = {r: dict(cs) for r, cs in mem.items()}
                    self.copy(m, leaf(pl) if which == "d" else d, leaf(pl) if which == "s" else s, n, loc, cond)
                    acc = m if acc is None else self.mem_ite(c, m, acc)
                break
            mem.clear(); mem.update(acc)
            return
        d, s = d.leaf, s.leaf
        if not d.off.is_const() or not s.off.is_const(): raise Unanalysable("memcpy at symbolic offset")
        so, do = s.off.cval(), d.off.cval()
        pos = 0; moves = []
        self.reads.append((s.reg, s.off, n, loc))
        while pos < n:
            cells = mem.get(s.reg, {})
            c = cells.get(so + pos)
            if c and pos + c[0] <= n:
                moves.append((pos, c[0], c[1])); pos += c[0]; continue
            if any(o < so + pos < o + c[0] for o, c in cells.items()):
                moves.append((pos, 1, self.read(mem, s.reg, so + pos, ["i", 8]))); pos += 1; continue
            r = self.regions.get(s.reg)
            et = None
            if isinstance(s.reg, str) and s.reg.startswith("@"):
                g = self.m["globals"].get(s.reg[1:]); et = elem_type(g["t"], so + pos) if g else None
            elif r is not None and r.layout is not None and not isinstance(r.layout, dict): et = r.type_at(so + pos)
            if r is not None and r.kind == "alloca": 
                nxt = min([o for o in cells if o > so + pos] + [so + n])
                moves.append((pos, None, nxt - so - pos)); pos = nxt - so; continue
            if et is None: et = ["i", 8] if n - pos < 8 else ["i", 64]
            e2 = ["i", 8] if et[0] == "bool" else et
            k = nbytes(e2)
            if pos + k > n: e2 = ["i", 8]; k = 1
            moves.append((pos, k, self.read(mem, s.reg, so + pos, e2))); pos += k
        cells = mem.setdefault(d.reg, {})
        for pos, k, v in moves:
            if k is None:
                for o in [o for o, c in cells.items() if o < do + pos + v and o + c[0] > do + pos]: cells.pop(o)
                continue
            self.put(cells, do + pos, k, v, loc)

    # -------------------------------------------------- scalar operations
    def zext(self, d, w):
        def f(l):
            if isinstance(l, bool): return I(ONE if l else ZERO, w)
            if isinstance(l, U): return l
            if isinstance(l, B): return B(norm_bits(list(l.parts) + [(w - l.width(), I(ZERO, w - l.width()))])) if w > l.width() else l
            if isinstance(l, I):
                if l.is_const(): return I(Poly.const(l.cval() % (1 << l.w)), w)
                return I(Poly.atom(("zx", l.w, l.p)), w)
            if isinstance(l, (F, P)): return B([(64 if isinstance(l, P) else l.w or 32, l), (w - 32, I(ZERO, w - 32))])
            raise Unanalysable("zext")
        return apply(f, d)
    def sext(self, d, w):
        def f(l):
            if isinstance(l, bool): return I(Poly.const(-1) if l else ZERO, w)
            if isinstance(l, U): return l
            if isinstance(l, I):
                if l.is_const(): return I(l.p, w)
                return I(Poly.atom(("sx", l.w, l.p)), w)
            raise Unanalysable("sext")
        return apply(f, d)
    def trunc(self, d, w):
        def f(l):
            if isinstance(l, U): return l
            if isinstance(l, B):
                parts = norm_bits(slice_bits(list(l.parts), 0, w))
                return self.reinterp(parts, ["i", w]) if len(parts) == 1 else B(parts)
            if isinstance(l, (F, P)): return B([(w, I(Poly.atom(("lowbits", w, repr(l.key()))), w))])
            if w == 1:
                if l.is_const(): return bool(l.cval() & 1)
                return booln(("bit0", l.p))
            return I(trunc_poly(l.p, l.w, w), w)
        return apply(f, d)
    def ibin(self, op, a, b, w):
        def f(x, y):
            if isinstance(x, U) or isinstance(y, U): return U()
            if isinstance(x, bool) or isinstance(y, bool):
                if op == "and": return x and y
                if op == "or": return x or y
                if op in ("xor", "add", "sub"): return x != y
                if op == "mul": return x and y
            if isinstance(x, B) or isinstance(y, B) or isinstance(x, F) or isinstance(y, F): return self.bitop(op, x, y, w)
            if op == "or" and not (x.is_const() and y.is_const()):
                px, py = split_bits(x.p, w), split_bits(y.p, w)
                if px and py:
                    try: return self.bitop(op, B(px), B(py), w)
                    except Unanalysable: pass
            if op == "and" and (x.is_const() != y.is_const()):
                if x.is_const(): x, y = y, x
                c = y.cval() % (1 << w)
                if c and (c & (c + 1)) or split_bits(x.p, w):
                    try: return self.bitop(op, B(split_bits(x.p, w) or [(w, x)]), y, w)
                    except Unanalysable: pass
            if op == "lshr" and y.is_const() and not x.is_const():
                px = split_bits(x.p, w)
                if px: return self.bitop(op, B(px), y, w)
            if op == "add": return I(x.p + y.p, w)
            if op == "sub": return I(x.p - y.p, w)
            if op == "mul": return I(x.p * y.p, w)
            if op == "shl" and y.is_const(): return I(x.p.scale(1 << (y.cval() % (1 << w))), w)
            if x.is_const() and y.is_const():
                M = 1 << w; a, b = x.cval() % M, y.cval() % M
                sa, sb = x.cval(), y.cval()
                if op == "and": return I(Poly.const(a & b), w)
                if op == "or": return I(Poly.const(a | b), w)
                if op == "xor": return I(Poly.const(a ^ b), w)
                if op == "lshr": return I(Poly.const(a >> b), w)
                if op == "ashr": return I(Poly.const(sa >> b), w)
                if op == "udiv" and b: return I(Poly.const(a // b), w)
                if op == "urem" and b: return I(Poly.const(a % b), w)
                if op == "sdiv" and sb: return I(Poly.const(abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)), w)
                if op == "srem" and sb: return I(Poly.const(abs(sa) % abs(sb) * (1 if sa >= 0 else -1)), w)
            if op in ("and", "or", "xor"):
                if op == "and":
                    if y.is_const() and y.cval() == -1: return x
                    if y.is_const() and y.cval() == 0: return y
                    if x == y: return x
                if op == "or":
                    if y.is_const() and y.cval() == 0: return x
                    if x == y: return x
                if op == "xor":
                    if y.is_const() and y.cval() == -1: return I(-x.p - ONE, w)
                    if x == y: return I(ZERO, w)
                if op == "and" and y.is_const():
                    c = y.cval() % (1 << w)
                    n = c.bit_length()
                    if c == (1 << n) - 1 and n < w: return I(Poly.atom(("zx", n, trunc_poly(x.p, w, n))), w)
                k = sorted([x.p, y.p], key=lambda p: akey(p))
                return I(Poly.atom((op, k[0], k[1])), w)
            if op == "ashr" or op == "lshr" or op in ("sdiv", "udiv"):
                # exact division by a power of two / constant of a polynomial with divisible coefficients
                if y.is_const():
                    k = (1 << y.cval()) if op in ("ashr", "lshr") else y.cval()
                    if k == 1: return x
                    if k > 0 and all(c % k == 0 for c in x.p.t.values()):
                        return I(Poly({m: c // k for m, c in x.p.t.items()}), w)
                    if op == "lshr" or op == "ashr":
                        return I(Poly.atom((op, x.p, y.cval())), w)
            if op in ("sdiv", "udiv") and x == y: return I(ONE, w)
            if op in ("sdiv", "srem") and w in (32, 64):
                # promoted small operands divide like their own type would (sext both)
                return I(Poly.atom((op, x.p, y.p)), w)
            return I(Poly.atom((op, x.p, y.p)), w)
        return apply(f, a, b)
    def bitop(self, op, x, y, w):
        px = list(x.parts) if isinstance(x, B) else [(w, x)]
        py = list(y.parts) if isinstance(y, B) else [(w, y)]
        if op in ("lshr", "shl", "ashr"):
            if len(py) == 1 and isinstance(py[0][1], I) and py[0][1].is_const():
                k = py[0][1].cval()
                if op == "lshr": parts = slice_bits(px, k, w - k) + [(k, I(ZERO, k))]
                elif op == "shl": parts = ([(k, I(ZERO, k))] if k else []) + slice_bits(px, 0, w - k)
                else: raise Unanalysable("ashr of bits")
                return self.tidy(parts, w)
        if op == "and":
            px = [q for p in px for q in runs(p)]; py = [q for p in py for q in runs(p)]
        if op in ("or", "add", "xor", "and"):
            cuts = sorted({0, w} | cutset(px) | cutset(py))
            out = []
            for a, b in zip(cuts, cuts[1:]):
                sx, sy = slice_bits(px, a, b - a), slice_bits(py, a, b - a)
                zx, zy = is_zero(sx), is_zero(sy)
                if op == "and":
                    if zx or zy: out.append((b - a, I(ZERO, b - a)))
                    elif is_ones(sy): out += sx
                    elif is_ones(sx): out += sy
                    else: raise Unanalysable("and of bits")
                elif zx: out += sy
                elif zy: out += sx
                elif len(sx) == 1 and len(sy) == 1 and all(isinstance(q[0][1], I) and q[0][1].is_const() for q in (sx, sy)):
                    u, v = sx[0][1].cval() % (1 << (b - a)), sy[0][1].cval() % (1 << (b - a))
                    out.append((b - a, I(Poly.const({"or": u | v, "xor": u ^ v, "add": u + v}[op]), b - a)))
                else: raise Unanalysable(op + " of bits %r %r" % (sx, sy))
            return self.tidy(out, w)
        raise Unanalysable(op + " of bits")
    def tidy(self, parts, w):
        parts = norm_bits(parts)
        if len(parts) == 1 and isinstance(parts[0][1], I): return parts[0][1]
        if len(parts) == 2 and is_zero(parts[1:]) and isinstance(parts[0][1], I): return I(Poly.atom(("zx", parts[0][0], parts[0][1].p)), w)
        return B(parts)
    exact = False
    prec = None
    def rnd(self, v, w):
        """v computed in w bits where the result has more: an opaque rounding of it"""
        if not self.prec or w >= self.prec or isinstance(v, U) or (v.r.is_const() and exact(v.r.cval(), w)): return v
        return F(Rat.atom(("round%d" % w,) + rkey(v.r)))
    def fbin(self, op, a, b, w=64):
        if self.prec and w < self.prec and not self.exact: return apply(lambda v: self.rnd(v, w), self.fbin0(op, a, b, w))
        return self.fbin0(op, a, b, w)
    def fbin0(self, op, a, b, w=64):
        def f(x, y):
            if isinstance(x, U) or isinstance(y, U): return U()
            if self.exact: return F(exact_op(op, x.r, y.r, w), w)
            if op == "fadd": return F(x.r + y.r)
            if op == "fsub": return F(x.r - y.r)
            if op == "fmul": return F(x.r * y.r)
            if op == "fdiv":
                if not y.r.n.t: return F(Rat.atom(("divzero",) + rkey(x.r)))
                return F(x.r / y.r)
            return F(Rat.atom((op,) + rkey(x.r) + rkey(y.r)))
        return apply(f, a, b)
    def fcmp(self, pred, a, b):
        def f(x, y):
            if pred in ("ord", "true"): return True
            if pred in ("uno", "false"): return False
            if isinstance(x, U) or isinstance(y, U): return U()
            d = x.r - y.r
            T = {"eq": lambda s: s == 0, "gt": lambda s: s > 0, "ge": lambda s: s >= 0, "lt": lambda s: s < 0, "le": lambda s: s <= 0, "ne": lambda s: s != 0}[pred[1:]]
            p = d.n * d.d if not d.d.is_const() else d.n.scale(1 if d.d.cval() > 0 else -1)
            p = p.reduce()
            if p.is_const():
                c = p.cval(); return bool(T((c > 0) - (c < 0)))
            var, o = sgn_var(p)
            return tern(var, o, T)
        return apply(f, a, b)
    def icmp(self, pred, a, b):
        def f(x, y):
            if isinstance(x, U) or isinstance(y, U): return U()
            if isinstance(x, bool) or isinstance(y, bool):
                X, Y = int(x), int(y)
                if pred[0] == "s": X, Y = -X, -Y
                return {"eq": X == Y, "ne": X != Y, "ugt": X > Y, "ult": X < Y, "uge": X >= Y, "ule": X <= Y, "sgt": X > Y, "slt": X < Y, "sge": X >= Y, "sle": X <= Y}[pred]
            base = pred if len(pred) == 2 else pred[1:]
            T = {"eq": lambda s: s == 0, "gt": lambda s: s > 0, "ge": lambda s: s >= 0, "lt": lambda s: s < 0, "le": lambda s: s <= 0, "ne": lambda s: s != 0}[base]
            if isinstance(x, P) and isinstance(y, P):
                if x.reg == y.reg:
                    d = x.off - y.off
                    if d.is_const(): c = d.cval(); return bool(T((c > 0) - (c < 0)))
                    var, o = sgn_var(d); return tern(var, o, T)
                if pred in ("eq", "ne"):
                    known = lambda r: isinstance(r, str)
                    if known(x.reg) and known(y.reg): return pred == "ne"
                k = sorted([x, y], key=lambda p: repr(p.key()))
                var = ("pcmp", repr(k[0]), repr(k[1])); o = 1 if k[0] is x else -1
                return tern(var, o, T)
            if isinstance(x, B) or isinstance(y, B) or isinstance(x, F) or isinstance(y, F):
                if pred in ("eq", "ne") and isinstance(x, B) and isinstance(y, B):
                    w = x.width(); cuts = sorted({0, w} | cutset(list(x.parts)) | cutset(list(y.parts)))
                    r = TRUE
                    for lo, hi in zip(cuts, cuts[1:]):
                        sx = self.tidy(slice_bits(list(x.parts), lo, hi - lo), hi - lo); sy = self.tidy(slice_bits(list(y.parts), lo, hi - lo), hi - lo)
                        if isinstance(sx, I) and isinstance(sy, I): q = self.icmp("eq", leaf(sx), leaf(sy))
                        else: q = tern(("bveq", repr(sx.key()), repr(sy.key())), 1, lambda s: s == 0) if sx != sy else TRUE
                        r = AND(r, q)
                    return r if pred == "eq" else NOT(r)
                raise Unanalysable("icmp of bits")
            if not isinstance(x, I) or not isinstance(y, I): raise Unanalysable("icmp %r %r" % (x, y))
            d = x.p - y.p
            if x.is_const() and y.is_const():
                M = 1 << x.w
                if pred[0] == "u": X, Y = x.cval() % M, y.cval() % M
                else: X, Y = x.cval(), y.cval()
                return bool(T((X > Y) - (X < Y)))
            if not d.t: return bool(T(0))
            if len(pred) == 2 and d.is_const(): return bool(T(1))
            nar = narrow2(x, y)
            if nar:
                (x, y), u = nar
                if u and pred[0] == "s": return self.icmp("u" + base, leaf(x), leaf(y))
                if not u and pred[0] == "u" and x.w > 1 and False: pass
                return self.icmp(pred, leaf(x), leaf(y))
            if pred[0] == "u":
                if y.is_const() and y.cval() == 0:
                    if base == "lt": return False
                    if base == "ge": return True
                    return self.icmp("ne" if base == "gt" else "eq", leaf(x), leaf(y))
            kind = "ucmp" if pred[0] == "u" else "scmp"
            a, b, o = x.p, y.p, 1
            if akey(a) > akey(b): a, b, o = b, a, -1
            return tern((kind, a, b), o, T)
        return apply(f, a, b)

    # -------------------------------------------------- control flow
    def run(self):
        blocks = {b["id"]: b for b in self.f["blocks"]}
        order, succ, pred = topo(self.f)
        self.bcond = {}; self.edge = {}; self.memout = {}
        rets = []
        first = self.f["blocks"][0]["id"]
        for bid in order:
            if bid == first: cond = TRUE; mem = {}
            else:
                ins = [(p, self.edge[(p, bid)]) for p in pred[bid] if (p, bid) in self.edge]
                ins = [(p, c) for p, c in ins if c != FALSE]
                if not ins: continue
                cond = FALSE
                for _, c in ins: cond = OR(cond, c)
                mem = self.merge(ins)
            self.bcond[bid] = cond
            self.ins_now = ins if bid != first else []
            self.cur = bid
            dead = self.block(blocks[bid], mem, cond, rets, pred[bid])
            self.memout[bid] = mem
        if not rets: raise Unanalysable("no return")
        self.ret = None; self.mem = None
        self.rets = rets
        # combine returns
        acc = None
        for cond, v, mem in rets:
            if acc is None: acc = (v, mem)
            else:
                v0, m0 = acc
                v1 = None if v is None else self.sel(cond, v, v0)
                acc = (v1, self.mem_ite(cond, mem, m0))
        self.ret, self.mem = acc
    def sel(self, c, a, b):
        if isinstance(a, list): return [self.sel(c, x, y) for x, y in zip(a, b)]
        return ite(c, a, b)
    def mem_ite(self, c, a, b):
        out = {}
        for reg in set(a) | set(b):
            ca, cb = a.get(reg, {}), b.get(reg, {})
            o = {}
            offs = sorted(set(ca) | set(cb))
            for off in offs:
                if off in ca and off in cb and ca[off][0] == cb[off][0]:
                    o[off] = (ca[off][0], ite(c, ca[off][1], cb[off][1]), ca[off][2] if ca[off][1] is not cb[off][1] else cb[off][2])
                else:
                    x = ca.get(off) or cb.get(off)
                    n = x[0]
                    l = first_leaf(x[1])
                    t = ["f", l.w or n * 8] if isinstance(l, F) else ["p"] if isinstance(l, P) else ["i", n * 8]
                    va = self.read(a, reg, off, t); vb = self.read(b, reg, off, t)
                    self.put(o, off, n, ite(c, va, vb), x[2])
            out[reg] = o
        return out
    def merge(self, ins):
        mem = None
        for p, c in ins:
            m = self.memout[p]
            mem = {r: dict(cs) for r, cs in m.items()} if mem is None else self.mem_ite(c, m, mem)
        return mem
    def block(self, b, mem, cond, rets, preds):
        # phis first (parallel)
        new = {}
        for i in b["ins"]:
            if i["op"] != "phi": continue
            inc = {bb: v for v, bb in i["inc"]}
            acc = None
            for p, c in self.ins_now:
                v = self.op(inc[p])
                acc = v if acc is None else self.sel(c, v, acc)
            new[i["id"]] = acc
        self.env.update(new)
        for i in b["ins"]:
            o = i["op"]
            if o == "phi": continue
            self.n_ins += 1
            if o == "br":
                if "cond" not in i: self.add_edge(b["id"], i["succ"][0], cond)
                else:
                    c = self.op(i["cond"])
                    c = apply(lambda l: False if isinstance(l, U) else l, c)
                    self.add_edge(b["id"], i["succ"][0], AND(cond, c)); self.add_edge(b["id"], i["succ"][1], AND(cond, NOT(c)))
                return
            if o == "switch":
                v = self.op(i["cond"]); rest = cond
                for cv, bb in i["cases"]:
                    w = i["t"]
                    c = self.icmp("eq", v, leaf(I(Poly.const(int(cv)), first_leaf(v).w)))
                    self.add_edge(b["id"], bb, AND(rest, c)); rest = AND(rest, NOT(c))
                self.add_edge(b["id"], i["default"], rest)
                return
            if o == "ret":
                rets.append((cond, self.op(i["ops"][0]) if i["ops"] else None, mem)); return
            if o in ("unreachable", "resume"): return
            self.instr(i, mem, cond)
            if o == "invoke":
                self.add_edge(b["id"], i["normal"], cond)
                return
            if o == "call" and i["noreturn"]: return
    def add_edge(self, a, b, c):
        k = (a, b)
        self.edge[k] = OR(self.edge[k], c) if k in self.edge else c
    def vec(self, f, *vs):
        if isinstance(vs[0], list): return [f(*x) for x in zip(*vs)]
        return f(*vs)
    def instr(self, i, mem, cond):
        o = i["op"]; t = i["t"]; loc = i.get("loc")
        R = None
        if o in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
            a, b = self.op(i["ops"][0]), self.op(i["ops"][1])
            w = t[1] if t[0] == "i" else t[2][1]
            R = self.vec(lambda x, y: self.ibin(o, x, y, w), a, b)
        elif o in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            w = t[1] if t[0] == "f" else t[2][1]
            R = self.vec(lambda x, y: self.fbin(o, x, y, w), self.op(i["ops"][0]), self.op(i["ops"][1]))
        elif o == "fneg":
            R = self.vec(lambda x: apply(lambda l: l if isinstance(l, U) else F(-l.r, l.w), x), self.op(i["ops"][0]))
        elif o == "fcmp": R = self.vec(lambda x, y: self.fcmp(i["pred"], x, y), self.op(i["ops"][0]), self.op(i["ops"][1]))
        elif o == "icmp": R = self.vec(lambda x, y: self.icmp(i["pred"], x, y), self.op(i["ops"][0]), self.op(i["ops"][1]))
        elif o == "select":
            c, a, b = [self.op(x) for x in i["ops"]]
            if isinstance(c, list): R = [self.sel(x, y, z) for x, y, z in zip(c, a, b)]
            else: R = self.sel(apply(lambda l: False if isinstance(l, U) else l, c), a, b)
        elif o == "getelementptr": R = self.gep(i)
        elif o == "load":
            R = self.load(mem, self.op(i["ops"][0]), ["i", 8] if t == ["i", 1] else t, loc)
            if t == ["i", 1]: R = self.trunc(R, 1)
        elif o == "store":
            v = self.op(i["ops"][0]); self.store(mem, self.op(i["ops"][1]), v, i["ops"][0]["t"], loc, cond)
        elif o == "alloca":
            self.nalloc += 1
            n = "alloca%d" % i["id"]
            self.regions[n] = Region(n, None, i["size"], "alloca")
            R = leaf(P(n, ZERO))
        elif o in ("zext", "sext", "trunc"):
            w = t[1] if t[0] == "i" else t[2][1]
            g = {"zext": self.zext, "sext": self.sext, "trunc": self.trunc}[o]
            R = self.vec(lambda x: g(x, w), self.op(i["ops"][0]))
        elif o == "fpext": R = self.op(i["ops"][0])
        elif o == "fptrunc":
            v = self.op(i["ops"][0]); w = t[1] if t[0] == "f" else t[2][1]
            if self.f32id: R = self.vec(lambda x: apply(lambda l: self.rnd(l, w), x), v) if self.prec and w < self.prec else v
            else:
                R = self.vec(lambda x: apply(lambda l: l if isinstance(l, U) or l.r.is_const() and exact(l.r.cval(), w) else F(Rat.atom(("fptrunc%d" % w,) + rkey(l.r))), x), v)
        elif o in ("sitofp", "uitofp"):
            def cv(l):
                if isinstance(l, U): return l
                if isinstance(l, bool): return F(Rat.const(int(l) if o == "uitofp" else -int(l)))
                if l.is_const(): return F(Rat.const(l.cval() if o == "sitofp" else l.cval() % (1 << l.w)))
                l = widen(l)
                a = single(l.p)
                if a and a[0] in ("zx",): return F(Rat.atom(("uitofp", a[2])))
                if a and a[0] == "sx": return F(Rat.atom(("sitofp", a[2])))
                if o == "sitofp" and not self.exact and not a:
                    # real arithmetic, signed operands (overflow is undefined): the conversion of a sum is the sum of the conversions
                    s = Rat.const(0)
                    for mono, c in l.p.t.items():
                        p = Rat.const(c if c < (1 << (l.w - 1)) else c - (1 << l.w))
                        for at, e in mono:
                            x = ("uitofp", at[2]) if at[0] == "zx" else ("sitofp", at[2]) if at[0] == "sx" else ("sitofp", Poly.atom(at))
                            for _ in range(e): p = p * Rat.atom(x)
                        s = s + p
                    return F(s)
                return F(Rat.atom((o, l.p)))
            R = self.vec(lambda x: apply(cv, x), self.op(i["ops"][0]))
        elif o in ("fptosi", "fptoui"):
            w = t[1] if t[0] == "i" else t[2][1]
            def cv(l):
                if isinstance(l, U): return l
                if l.r.is_const():
                    c = l.r.cval(); v = abs(c.numerator) // c.denominator * (1 if c >= 0 else -1)
                    return I(Poly.const(v), w)
                return I(Poly.atom((o,) + rkey(l.r)), w)
            R = self.vec(lambda x: apply(cv, x), self.op(i["ops"][0]))
        elif o == "bitcast":
            v = self.op(i["ops"][0]); st = i["ops"][0]["t"]
            if isinstance(v, list):
                ew = bits_of(st[2])
                R = self.from_parts([(x, ew) for x in v], t)
            else: R = self.from_parts([(v, bits_of(st))], t)
        elif o == "ptrtoint":
            R = apply(lambda l: l if isinstance(l, U) else I(l.off + Poly.atom(("addr", l.reg)) if l.reg != "null" else l.off, t[1]), self.op(i["ops"][0]))
        elif o == "inttoptr":
            def f(l):
                if isinstance(l, P): return l
                if isinstance(l, B) and len(l.parts) == 1 and isinstance(l.parts[0][1], P): return l.parts[0][1]
                if isinstance(l, I):
                    ad = [a for a in l.p.atoms() if a[0] == "addr"]
                    if len(ad) == 1: return P(ad[0][1], l.p - Poly.atom(ad[0]))
                    return P(("int2ptr", l.p), ZERO)
                raise Unanalysable("inttoptr")
            R = apply(f, self.op(i["ops"][0]))
        elif o == "freeze": R = self.op(i["ops"][0])
        elif o == "extractelement":
            v = self.op(i["ops"][0]); k = self.op(i["ops"][1])
            R = v[k.leaf.cval()]
        elif o == "insertelement":
            v = list(self.op(i["ops"][0])); k = self.op(i["ops"][2]); v[k.leaf.cval()] = self.op(i["ops"][1]); R = v
        elif o == "shufflevector":
            a, b = self.op(i["ops"][0]), self.op(i["ops"][1]); ab = list(a) + list(b)
            R = [ab[k] if k >= 0 else leaf(U()) for k in i["mask"]]
        elif o == "extractvalue":
            v = self.op(i["ops"][0])
            for k in i["ix"]: v = v[k]
            R = v
        elif o == "insertvalue":
            def ins(v, ix, x):
                v = list(v)
                if len(ix) == 1: v[ix[0]] = x
                else: v[ix[0]] = ins(v[ix[0]], ix[1:], x)
                return v
            R = ins(self.op(i["ops"][0]), i["ix"], self.op(i["ops"][1]))
        elif o in ("call", "invoke"): R = self.call(i, mem, cond)
        elif o == "landingpad": R = [leaf(U()), leaf(U())]
        elif o == "fence": pass
        else: raise Unanalysable("instruction " + o)
        if t[0] != "void": self.env[i["id"]] = R
    def call(self, i, mem, cond):
        c = i["callee"]; loc = i.get("loc"); t = i["t"]
        name = c["n"] if c["k"] == "g" else None
        if name and name.startswith("llvm."):
            if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.stackrestore", "llvm.prefetch", "llvm.donothing")):
                return None
            A = lambda k: self.op(i["args"][k])
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                n = A(2)
                if n.var is not None or not n.leaf.is_const(): raise Unanalysable("memcpy of symbolic size")
                if n.leaf.cval() == 0: return None
                self.copy(mem, A(0), A(1), n.leaf.cval(), loc, cond); return None
            if name.startswith("llvm.memset"):
                n = A(2); v = A(1)
                if n.var is not None or not n.leaf.is_const() or isinstance(v, list): raise Unanalysable("memset")
                d = A(0); n = n.leaf.cval(); b = v.leaf.cval() % 256 if v.var is None and isinstance(v.leaf, I) and v.leaf.is_const() else None
                if d.var is not None: raise Unanalysable("gated memset")
                k = 0
                reg, off = d.leaf.reg, d.leaf.off.cval()
                cells = mem.setdefault(reg, {})
                while k < n:
                    w = 4 if n - k >= 4 else 1
                    r = self.regions.get(reg)
                    if r is not None and r.layout is not None and not isinstance(r.layout, dict):
                        et = r.type_at(off + k); w = min(nbytes(et) if et[0] != "bool" else 1, n - k)
                    if b is None: w = 1; self.put(cells, off + k, 1, v, loc); k += 1; continue
                    self.put(cells, off + k, w, leaf(I(Poly.const(int.from_bytes(bytes([b]) * w, "little")), w * 8)), loc); k += w
                return None
            base = name.split(".")[1]
            if name in MATH1:
                w = t[1] if t[0] == "f" else t[2][1]
                return self.vec(lambda x: apply(lambda l: l if isinstance(l, U) else self.rnd(F(math1(MATH1[name], l.r)), w), x), A(0))
            if base in ("fma", "fmuladd"):
                return self.vec(lambda x, y, z: self.fbin("fadd", self.fbin("fmul", x, y, t[1] if t[0] == "f" else t[2][1]), z, t[1] if t[0] == "f" else t[2][1]), A(0), A(1), A(2))
            if base == "fabs":
                z = leaf(F(Rat.const(0)))
                return self.vec(lambda x: ite(self.fcmp("olt", x, z), apply(lambda l: F(-l.r), x), x), A(0))
            if base in ("minnum", "minimum"): return self.vec(lambda x, y: ite(self.fcmp("olt", x, y), x, y), A(0), A(1))
            if base in ("maxnum", "maximum"): return self.vec(lambda x, y: ite(self.fcmp("ogt", x, y), x, y), A(0), A(1))
            if base in ("smax", "smin", "umax", "umin"):
                p = base[0] + ("gt" if base.endswith("max") else "lt")
                return self.vec(lambda x, y: ite(self.icmp(p, x, y), x, y), A(0), A(1))
            if base == "abs":
                w = t[1]
                return apply(lambda l: l, ite(self.icmp("slt", A(0), leaf(I(ZERO, w))), apply(lambda l: I(-l.p, w), A(0)), A(0)))
            if base == "ctpop":
                return self.vec(lambda x: apply(lambda l: I(Poly.atom(("ctpop", l.p)), l.w) if not l.is_const() else I(Poly.const(bin(l.cval() % (1 << l.w)).count("1")), l.w), x), A(0))
            if base == "copysign": return self.vec(lambda x, y: apply(lambda a, b: F(Rat.atom(("copysign",) + rkey(a.r) + rkey(b.r))), x, y), A(0), A(1))
            raise Unanalysable("intrinsic " + name)
        if name in MATH1 and self.m["functions"].get(name, {}).get("decl", 1):
            return apply(lambda l: l if isinstance(l, U) else self.rnd(F(math1(MATH1[name], l.r)), t[1]), self.op(i["args"][0]))
        if name in ("memcmp", "bcmp") and self.m["functions"].get(name, {}).get("decl", 1):
            uses = [j for b in self.f["blocks"] for j in b["ins"] if any(q.get("k") == "v" and q["id"] == i["id"] for q in j.get("ops", []) + j.get("args", []) + [v for v, _ in j.get("inc", [])])]
            if not all(j["op"] == "icmp" and j["pred"] in ("eq", "ne") and any(q.get("k") == "ci" and int(q["v"]) == 0 for q in j["ops"]) for j in uses):
                raise Unanalysable("ordering result of memcmp")
            n = self.op(i["args"][2]); d1, d2 = self.op(i["args"][0]), self.op(i["args"][1])
            if n.var is not None or not n.leaf.is_const() or d1.var is not None or d2.var is not None: raise Unanalysable("memcmp of symbolic size")
            n = n.leaf.cval(); k = 0; eq = TRUE; p, q = d1.leaf, d2.leaf
            rt = self.regions[p.reg].type_at(p.off.cval()) if p.reg in self.regions else None
            while k < n:
                et = rt if rt is not None and rt[0] in ("i", "p") and k + nbytes(rt) <= n else ["i", 8]
                x = self.read(mem, p.reg, p.off.cval() + k, et); y = self.read(mem, q.reg, q.off.cval() + k, et)
                eq = AND(eq, self.icmp("eq", x, y)); k += nbytes(et)
            return ite(eq, leaf(I(ZERO, t[1])), leaf(I(ONE, t[1])))
        if name in ("__assert_fail", "__assert_rtn"):
            self.asserts.append((cond, loc)); return None
        args = [self.op(a) if a["k"] != "md" else None for a in i["args"]]
        if name in self.externs:
            return self.externs[name](self, args, mem, cond, loc, t)
        if i["noreturn"]:
            self.events.append(Event(cond, name, args, loc)); return None
        self.calls += 1
        if name in self.pure:
            flat = []
            for a in args: flat += a if isinstance(a, list) else [a]
            return apply(lambda *ls: self.opaque((name,) + tuple(l.key() if hasattr(l, "key") else l for l in ls), t), *flat)
        ev = Event(cond, name or ("<indirect>",), args, loc)
        if c["k"] != "g": ev.target = self.op(c)
        self.events.append(ev)
        if t[0] == "void": return None
        ev.ret = leaf(self.opaque(("ext", name, len(self.events)), t)) if t[0] in "ifp" and t != ["i", 1] else (booln(("bv", name, len(self.events))) if t == ["i", 1] else self.undef(t))
        return ev.ret

# ---------------------------------------------------------------- helpers
def exact(c, w):
    import struct
    try: return Fraction(struct.unpack("<f", struct.pack("<f", float(c)))[0]) == c if w == 32 else Fraction(float(c)) == c
    except OverflowError: return False
def first_leaf(d):
    while d.var is not None: d = next(iter(d.ch.values()))
    return d.leaf
def single(p):
    """the atom a when p == 1*a"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return None
def widen(l): return l
def narrow2(x, y):
    """comparison of two extensions of the same width: compare the unextended values"""
    a, b = single(x.p), single(y.p)
    for k in ("zx", "sx"):
        w = None
        for q in (a, b):
            if q is not None and q[0] == k: w = q[1] if w in (None, q[1]) else -1
        if not w or w < 0: continue
        res = []
        for l, q in ((x, a), (y, b)):
            if q is not None and q[0] == k: res.append(I(q[2], w))
            elif l.is_const():
                c = l.cval()
                if k == "zx" and 0 <= c < (1 << w) or k == "sx" and -(1 << (w - 1)) <= c < (1 << (w - 1)): res.append(I(Poly.const(c), w))
        if len(res) == 2: return res, k == "zx"
    return None
def runs(part):
    """a constant as alternating runs of zero and one bits"""
    w, l = part
    if not (isinstance(l, I) and l.is_const()): return [part]
    c = l.cval() % (1 << w); out = []; i = 0
    while i < w:
        b = c >> i & 1; j = i
        while j < w and (c >> j & 1) == b: j += 1
        out.append((j - i, I(Poly.const(-b), j - i))); i = j
    return out
def split_bits(p, w):
    """bit parts of 2^k * zx(w1, q), or None"""
    if p.is_const():
        return [(w, I(p, w))]
    if len(p.t) != 1: return None
    (m, c), = p.t.items()
    if len(m) != 1 or m[0][1] != 1: return None
    c %= 1 << w
    if c & (c - 1): return None
    k = c.bit_length() - 1
    a = m[0][0]
    if a[0] != "zx": return None
    w1 = a[1]
    parts = [(k, I(ZERO, k))] if k else []
    if k + w1 <= w:
        parts.append((w1, I(a[2], w1)))
        if k + w1 < w: parts.append((w - k - w1, I(ZERO, w - k - w1)))
    else: parts.append((w - k, I(trunc_poly(a[2], w1, w - k), w - k)))
    return parts
def trunc_poly(p, w0, w):
    def f(a):
        if a[0] in ("zx", "sx"):
            w1, q = a[1], a[2]
            if w1 == w: return q
            if w1 > w: return trunc_poly(q, w1, w)
            return Poly.atom((a[0], w1, q))
        if a[0] in ("sdiv", "srem") and w < w0:
            # division of promoted operands, narrowed again
            x, y = a[1], a[2]
            if all(not q.t or isext(q, w) for q in (x, y)):
                return Poly.atom((a[0], trunc_poly(x, w0, w), trunc_poly(y, w0, w)))
        return Poly.atom(("tr", w, a))
    return p.subst(f).mod(w)
def isext(q, w):
    if q.is_const(): return True
    a = single(q)
    return a is not None and a[0] in ("sx", "zx") and a[1] <= w
def cutset(parts):
    s = set(); p = 0
    for w, _ in parts: s.add(p); p += w
    s.add(p)
    return s
def flat_bits(parts):
    out = []
    for w, l in parts:
        if isinstance(l, B): out += list(l.parts)
        else: out.append((w, l))
    return out
def slice_bits(parts, lo, n):
    out = []; pos = 0
    for w, l in parts:
        a, b = max(lo, pos), min(lo + n, pos + w)
        if a < b:
            if isinstance(l, B): out += slice_bits(list(l.parts), a - pos, b - a)
            elif a == pos and b == pos + w: out.append((w, l))
            elif isinstance(l, I) and l.is_const(): out.append((b - a, I(Poly.const((l.cval() >> (a - pos)) & ((1 << (b - a)) - 1)), b - a)))
            elif isinstance(l, U): out.append((b - a, U()))
            elif isinstance(l, I) and len(split_bits(l.p, l.w) or []) > 1: out += slice_bits(split_bits(l.p, l.w), a - pos, b - a)
            elif isinstance(l, I) and a == pos: out.append((b - a, I(trunc_poly(l.p, l.w, b - a), b - a)))
            else: out.append((b - a, I(Poly.atom(("bits", a - pos, b - a, l.key() if not isinstance(l, I) else l.p)), b - a)))
        pos += w
    return out
def norm_bits(parts):
    parts = flat_bits(parts)
    out = []
    for w, l in parts:
        if out and isinstance(l, I) and l.is_const() and isinstance(out[-1][1], I) and out[-1][1].is_const():
            w0, l0 = out[-1]
            out[-1] = (w0 + w, I(Poly.const((l0.cval() % (1 << w0)) | ((l.cval() % (1 << w)) << w0)), w0 + w))
        elif out and isinstance(l, U) and isinstance(out[-1][1], U): out[-1] = (out[-1][0] + w, l)
        else: out.append((w, l))
    return out
def is_zero(parts): return all(isinstance(l, I) and l.is_const() and l.cval() == 0 for _, l in parts)
def is_ones(parts): return all(isinstance(l, I) and l.is_const() and l.cval() == -1 or (isinstance(l, I) and l.is_const() and l.cval() % (1 << w) == (1 << w) - 1) for w, l in parts)
def elem_type(t, off):
    if t[0] == "a": return elem_type(t[2], off % t[3])
    if t[0] == "s":
        best = None
        for o, e in t[1]:
            if o <= off: best = (o, e)
        return elem_type(best[1], off - best[0])
    if t[0] == "v": return t[2]
    return t
def dig(init, ty, off, t):
    k = init["k"]
    if k == "zero": return {"k": "zero", "t": t}
    if ty[0] == "a" or ty[0] == "v":
        es = ty[3] if ty[0] == "a" else nbytes(ty[2])
        if k != "agg": return None
        if t[0] == "v" and ty[0] == "a":
            return {"k": "agg", "e": [dig(init, ty, off + j * nbytes(t[2]), t[2]) for j in range(t[1])], "t": t}
        n = off // es
        return dig(init["e"][n], ty[2], off % es, t) if n < len(init["e"]) else None
    if ty[0] == "s":
        if k != "agg": return None
        for j, (o, e) in reversed(list(enumerate(ty[1]))):
            if o <= off: return dig(init["e"][j], e, off - o, t)
    if off == 0 and ty == t: return init
    return None
def topo(f):
    succ = {}; pred = {b["id"]: [] for b in f["blocks"]}
    for b in f["blocks"]:
        tm = b["ins"][-1]
        s = []
        if tm["op"] == "br": s = tm["succ"]
        elif tm["op"] == "switch": s = [x for _, x in tm["cases"]] + [tm["default"]]
        elif tm["op"] == "invoke": s = [tm["normal"]]
        succ[b["id"]] = list(dict.fromkeys(s))
    first = f["blocks"][0]["id"]
    seen = {}; order = []
    stack = [(first, iter(succ[first]))]; seen[first] = 1
    while stack:
        n, it = stack[-1]
        for s in it:
            if s not in seen: seen[s] = 1; stack.append((s, iter(succ[s]))); break
            elif seen[s] == 1: raise Unanalysable("loop in " + str(f.get("dbg")))
        else:
            seen[n] = 2; order.append(n); stack.pop()
    order.reverse()
    for b in order:
        for s in succ[b]: pred[s].append(b)
    return order, succ, pred
