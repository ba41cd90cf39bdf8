"""Normal forms: multivariate polynomials, rational functions and decision diagrams over them.

Atoms are arbitrary hashable tuples.  Values are compared structurally after normalisation; nothing is
solved for.  Decision diagrams (gated values) have ordered multi-valued decision variables and normal-form
leaves, so that two gated values are equal iff they select equal leaves under every ordering of the compared
quantities."""
from fractions import Fraction

# ---------------------------------------------------------------- polynomials
_akey = {}
def akey(a):
    k = _akey.get(a)
    if k is None:
        k = _full(a)
        _akey[a] = k
    return k

def _full(x):
    if isinstance(x, Poly): return "{" + ";".join("%s*%s" % (c, "".join(akey(a) + "^%d" % e for a, e in m)) for m, c in x.key()) + "}"
    if isinstance(x, tuple): return "(" + ",".join(_full(y) for y in x) + ")"
    return repr(x)

class Poly:
    __slots__ = ("t", "_k")
    def __init__(self, t=None):
        self.t = t or {}
        self._k = None
    @staticmethod
    def const(c):
        return Poly({(): c}) if c else Poly()
    @staticmethod
    def atom(a):
        return Poly({((a, 1),): 1})
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((m, c) for m, c in self.t.items()), key=lambda mc: [(akey(a), e) for a, e in mc[0]]))
        return self._k
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __hash__(self): return hash(self.key())
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def cval(self): return self.t.get((), 0)
    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n: r[m] = n
            else: r.pop(m, None)
        return Poly(r)
    def scale(self, k):
        if not k: return Poly()
        if k == 1: return self
        return Poly({m: c * k for m, c in self.t.items()})
    def __neg__(self): return self.scale(-1)
    def __sub__(self, o): return self + (-o)
    def __mul__(self, o):
        if o.is_const(): return self.scale(o.cval())
        if self.is_const(): return o.scale(self.cval())
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n: r[m] = n
                else: r.pop(m, None)
        return Poly(r)
    def mod(self, w):
        M = 1 << w; H = M >> 1
        r = {}
        for m, c in self.t.items():
            c = c % M
            if c >= H: c -= M
            if c: r[m] = c
        return Poly(r)
    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m: s.add(a)
        return s
    def lead(self):
        """coefficient of the canonically first monomial"""
        return self.key()[0][1]
    def subst(self, f):
        """replace every atom a by Poly f(a)"""
        r = Poly()
        for m, c in self.t.items():
            p = Poly.const(c)
            for a, e in m:
                q = f(a)
                for _ in range(e): p = p * q
            r = r + p
        return r
    def reduce(self):
        """sqrt(p)^2 -> p"""
        p = self
        for _ in range(6):
            hit = False
            r = Poly()
            for m, c in p.t.items():
                q = None
                for i, (a, e) in enumerate(m):
                    if e >= 2 and isinstance(a, tuple) and a[0] == "sqrt" and isinstance(a[1], Poly):
                        rest = m[:i] + (((a, e - 2),) if e > 2 else ()) + m[i + 1:]
                        q = Poly({rest: c}) * a[1]
                        hit = True
                        break
                r = r + (q if q is not None else Poly({m: c}))
            p = r
            if not hit: break
        return p
    def __repr__(self): return show_poly(self)

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items(), key=lambda ke: akey(ke[0])))

def show_atom(a):
    if isinstance(a, tuple):
        if a[0] == "in": return "%s[%s]" % (a[1], a[2])
        if a[0] == "sym": return str(a[1])
        return "%s(%s)" % (a[0], ",".join(repr(x) if isinstance(x, Poly) else show_atom(x) for x in a[1:]))
    return str(a)

def show_poly(p, lim=14):
    if not p.t: return "0"
    out = []
    for m, c in p.key()[:lim]:
        s = "*".join(show_atom(a) + ("^%d" % e if e > 1 else "") for a, e in m)
        if not m: s = str(c)
        elif c == -1: s = "-" + s
        elif c != 1: s = "%s*%s" % (c, s)
        out.append(s)
    if len(p.t) > lim: out.append("...(%d terms)" % len(p.t))
    return " + ".join(out).replace("+ -", "- ")

ZERO = Poly(); ONE = Poly.const(1)

# ---------------------------------------------------------------- rational functions (float values over the reals)
class Rat:
    __slots__ = ("n", "d", "_k")
    def __init__(self, n, d=ONE):
        if d.is_const():
            c = d.cval()
            if c not in (0, 1):
                n = n.scale(Fraction(1) / c); d = ONE
        elif not n.t:
            d = ONE
        else:
            # cancel common monomial content and normalise the leading coefficient of the denominator
            n, d = cancel(n, d)
        self.n = n; self.d = d; self._k = None
    @staticmethod
    def const(c): return Rat(Poly.const(Fraction(c)))
    @staticmethod
    def atom(a): return Rat(Poly.atom(a))
    def __add__(self, o):
        if self.d == o.d: return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)
    def __neg__(self): return Rat(-self.n, self.d)
    def __sub__(self, o): return self + (-o)
    def __mul__(self, o): return Rat(self.n * o.n, self.d * o.d)
    def __truediv__(self, o): return Rat(self.n * o.d, self.d * o.n)
    def same(self, o):
        if self.n == o.n and self.d == o.d: return True
        return not (self.n * o.d - o.n * self.d).reduce().t
    def __eq__(self, o): return isinstance(o, Rat) and self.same(o)
    def key(self):
        if self._k is None: self._k = (self.n.key(), self.d.key())
        return self._k
    def __hash__(self): return 7
    def is_const(self): return self.n.is_const() and self.d.is_const()
    def cval(self): return Fraction(self.n.cval()) / Fraction(self.d.cval())
    def __repr__(self):
        if self.d.is_const(): return show_poly(self.n)
        return "(%s)/(%s)" % (show_poly(self.n), show_poly(self.d))

def cancel(n, d):
    common = None
    for p in (n, d):
        for m in p.t:
            md = dict(m)
            if common is None: common = md
            else: common = {a: min(e, md[a]) for a, e in common.items() if a in md}
            if not common: break
        if not common: break
    if common:
        def div(p):
            r = {}
            for m, c in p.t.items():
                md = dict(m)
                for a, e in common.items():
                    md[a] -= e
                    if not md[a]: del md[a]
                r[tuple(sorted(md.items(), key=lambda ke: akey(ke[0])))] = c
            return Poly(r)
        n, d = div(n), div(d)
    if not d.is_const():
        l = d.lead()
        if l != 1:
            n = n.scale(Fraction(1) / l); d = d.scale(Fraction(1) / l)
    return n, d

# ---------------------------------------------------------------- leaves
class F:       # floating value
    __slots__ = ("r", "w")
    def __init__(s, r, w=0): s.r = r; s.w = w
    def __eq__(s, o): return isinstance(o, F) and s.r == o.r
    def __hash__(s): return 11
    def key(s): return ("F", s.r.key())
    def __repr__(s): return repr(s.r)
class I:       # integer value modulo 2^w
    __slots__ = ("p", "w")
    def __init__(s, p, w): s.p = p.mod(w) if w > 1 else p; s.w = w
    def __eq__(s, o): return isinstance(o, I) and s.w == o.w and s.p == o.p
    def __hash__(s): return hash((s.w, s.p))
    def key(s): return ("I", s.w, s.p.key())
    def is_const(s): return s.p.is_const()
    def cval(s): return s.p.cval()
    def __repr__(s): return "i%d:%s" % (s.w, show_poly(s.p))
class P:       # pointer: region + polynomial byte offset
    __slots__ = ("reg", "off")
    def __init__(s, reg, off): s.reg = reg; s.off = off
    def __eq__(s, o): return isinstance(o, P) and s.reg == o.reg and s.off == o.off
    def __hash__(s): return hash((s.reg, s.off))
    def key(s): return ("P", repr(s.reg), s.off.key())
    def __repr__(s): return "&%s+%s" % (s.reg, show_poly(s.off))
class U:       # undefined / poison
    def __eq__(s, o): return isinstance(o, U)
    def __hash__(s): return 3
    def key(s): return ("U",)
    def __repr__(s): return "<uninitialised>"
class B:       # raw bit concatenation, little endian [(bits, leaf)]
    __slots__ = ("parts",)
    def __init__(s, parts): s.parts = tuple(parts)
    def __eq__(s, o): return isinstance(o, B) and len(s.parts) == len(o.parts) and all(a == b for a, b in zip(s.parts, o.parts))
    def __hash__(s): return 5
    def key(s): return ("B", tuple((w, l.key()) for w, l in s.parts))
    def width(s): return sum(w for w, _ in s.parts)
    def __repr__(s): return "{%s}" % ",".join(repr(l) for _, l in s.parts)

# ---------------------------------------------------------------- decision diagrams
_order = {}
def var_order(v):
    o = _order.get(v)
    if o is None:
        o = len(_order); _order[v] = o
    return o

class DD:
    """node: var with children per value; leaf: var None"""
    __slots__ = ("var", "ch", "leaf")
    def __init__(s, leaf=None, var=None, ch=None): s.leaf = leaf; s.var = var; s.ch = ch
    def is_leaf(s): return s.var is None
    def __eq__(s, o):
        if s is o: return True
        if not isinstance(o, DD): return False
        if s.var != o.var: return False
        if s.var is None: return s.leaf == o.leaf
        return all(s.ch[k] == o.ch[k] for k in s.ch)
    def __hash__(s): return 1
    def __repr__(s):
        if s.var is None: return repr(s.leaf)
        return "case %s {%s}" % (show_var(s.var), "; ".join("%s: %r" % (VN.get(k, k), c) for k, c in s.ch.items()))
VN = {-1: "<0", 0: "==0", 1: ">0"}
def show_var(v):
    return "%s(%s)" % (v[0], ",".join(repr(x) for x in v[1:]))

def leaf(x): return DD(leaf=x)
TRUE = leaf(True); FALSE = leaf(False)
def mk(var, ch):
    vs = list(ch.values())
    if all(v == vs[0] for v in vs[1:]): return vs[0]
    return DD(var=var, ch=ch)

def apply(f, *ds):
    """pointwise application; memoised per call on node identity"""
    memo = {}
    def go(ds):
        if all(d.var is None for d in ds):
            r = f(*[d.leaf for d in ds])
            return r if isinstance(r, DD) else leaf(r)
        k = tuple(id(d) for d in ds)
        if k in memo: return memo[k][0]
        v = min((d.var for d in ds if d.var is not None), key=var_order)
        dom = next(d.ch.keys() for d in ds if d.var == v)
        r = mk(v, {x: go([d.ch[x] if d.var == v else d for d in ds]) for x in dom})
        memo[k] = (r, ds)
        return r
    return go(list(ds))

def ite(c, a, b):
    if c.var is None: return a if c.leaf else b
    if a == b: return a
    memo = {}
    def go(c, a, b):
        if c.var is None: return a if c.leaf else b
        k = (id(c), id(a), id(b))
        if k in memo: return memo[k][0]
        v = min((d.var for d in (c, a, b) if d.var is not None), key=var_order)
        sub = lambda d, x: d.ch[x] if d.var == v else d
        r = mk(v, {x: go(sub(c, x), sub(a, x), sub(b, x)) for x in (c.ch if c.var == v else a.ch if a.var == v else b.ch)})
        memo[k] = (r, c, a, b)
        return r
    return go(c, a, b)
def AND(a, b): return ite(a, b, FALSE)
def OR(a, b): return ite(a, TRUE, b)
def NOT(a): return ite(a, FALSE, TRUE)

def sgn_var(poly, kind="sgn"):
    """(decision variable, orientation) for the sign of poly, canonical up to non-zero scale"""
    l = poly.lead()
    q = poly.scale(Fraction(1) / l)
    return (kind, q), (1 if l > 0 else -1)
def tern(var, orient, f):
    """decision on a three-valued variable; f maps -1/0/1 to bool"""
    return mk(var, {x: (TRUE if f(x * orient) else FALSE) for x in (-1, 0, 1)})
def booln(var): return DD(var=var, ch={0: FALSE, 1: TRUE})

def leaves(d, path=()):
    if d.var is None:
        yield path, d.leaf
    else:
        for k, c in d.ch.items():
            yield from leaves(c, path + ((d.var, k),))
