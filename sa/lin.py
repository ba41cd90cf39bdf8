"""Linear integer expressions and the polyhedral constraint domain (Fourier-Motzkin with integer tightening)."""
from math import gcd

class L:
    __slots__ = ("t", "c", "_h")
    def __init__(s, t=(), c=0): s.t = t; s.c = c; s._h = None       # t: sorted tuple of (sym, coef), coef != 0
    @staticmethod
    def k(c): return L((), c)
    @staticmethod
    def v(x): return L(((x, 1),), 0)
    def __hash__(s):
        if s._h is None: s._h = hash((s.t, s.c))
        return s._h
    def __eq__(s, o): return isinstance(o, L) and s.t == o.t and s.c == o.c
    def __add__(s, o):
        if isinstance(o, int): return L(s.t, s.c + o)
        if not o.t: return L(s.t, s.c + o.c)
        if not s.t: return L(o.t, s.c + o.c)
        d = dict(s.t)
        for x, k in o.t:
            n = d.get(x, 0) + k
            if n: d[x] = n
            else: d.pop(x, None)
        return L(tuple(sorted(d.items())), s.c + o.c)
    def __neg__(s): return L(tuple((x, -k) for x, k in s.t), -s.c)
    def __sub__(s, o): return s + (-o)
    def __mul__(s, k):
        if k == 0: return ZERO
        return L(tuple((x, c * k) for x, c in s.t), s.c * k)
    def const(s): return not s.t
    def div(s, k):
        """exact division, or None"""
        if s.c % k or any(c % k for _, c in s.t): return None
        return L(tuple((x, c // k) for x, c in s.t), s.c // k)
    def divmod(s, k):
        """(quotient, constant remainder) when the symbolic part is divisible"""
        if any(c % k for _, c in s.t): return None
        r = s.c % k
        return L(tuple((x, c // k) for x, c in s.t), (s.c - r) // k), r
    def coef(s, x):
        for y, c in s.t:
            if y == x: return c
        return 0
    def subst(s, m):
        """m: sym -> L"""
        if not any(x in m for x, _ in s.t): return s
        r = L((), s.c)
        for x, c in s.t: r = r + (m[x] * c if x in m else L(((x, c),), 0))
        return r
    def syms(s): return [x for x, _ in s.t]
    def __repr__(s):
        o = ""
        for x, c in s.t: o += ("+" if c > 0 else "-") + ("" if abs(c) == 1 else "%d*" % abs(c)) + x
        if s.c or not o: o += "%+d" % s.c
        return o[1:] if o[0] == "+" else o
ZERO = L(); ONE = L((), 1)

def tighten(e):
    """e >= 0 over the integers"""
    if not e.t: return e
    g = 0
    for _, c in e.t:
        g = gcd(g, c)
        if g == 1: return e
    return L(tuple((x, c // g) for x, c in e.t), e.c // g)

_cache = {}
def fm_sat(ges):
    """is the conjunction of (e >= 0) satisfiable? (rational relaxation with gcd tightening; True when unsure)"""
    key = ges if isinstance(ges, frozenset) else frozenset(ges)
    r = _cache.get(key)
    if r is None:
        r = _fm(key)
        if len(_cache) > 400000: _cache.clear()
        _cache[key] = r
    return r
def _fm(key):
    cur = {}
    def put(d, e):
        e = tighten(e)
        if not e.t: return e.c >= 0
        o = d.get(e.t)
        if o is None or e.c < o: d[e.t] = e.c
        return True
    for e in sorted(key, key=lambda e: (e.t, e.c)):
        if not put(cur, e): return False
    while cur:
        # opposite pairs
        for t, c in cur.items():
            n = tuple((x, -k) for x, k in t)
            if n in cur and c + cur[n] < 0: return False
        cnt = {}
        for t in cur:
            for x, k in t:
                a = cnt.setdefault(x, [0, 0]); a[k > 0] += 1
        x = min(cnt, key=lambda v: (cnt[v][0] * cnt[v][1], v))
        lo = []; hi = []; nxt = {}
        for t, c in cur.items():
            k = 0
            for y, q in t:
                if y == x: k = q; break
            if k == 0: nxt[t] = c
            elif k > 0: lo.append((k, t, c))
            else: hi.append((-k, t, c))
        if len(lo) * len(hi) + len(nxt) > 1500: return True
        for k1, t1, c1 in lo:
            for k2, t2, c2 in hi:
                g = gcd(k1, k2)
                e = L(t1, c1) * (k2 // g) + L(t2, c2) * (k1 // g)
                if not put(nxt, e): return False
        cur = nxt
    return True

POW = set()          # symbols that stand for powers of two in the current analysis
def pow_tighten(e):
    (x, k), = e.t
    if k == 1 and e.c < 0: return L(e.t, -(1 << (-e.c - 1).bit_length()))
    if k == -1 and e.c >= 1: return L(e.t, 1 << (e.c.bit_length() - 1))
    return e

class Cons:
    """conjunction of linear constraints: solved equalities + inequalities e >= 0"""
    __slots__ = ("eq", "ge", "bad")
    def __init__(s): s.eq = {}; s.ge = frozenset(); s.bad = False
    def copy(s):
        c = Cons(); c.eq = s.eq; c.ge = s.ge; c.bad = s.bad; return c
    def norm(s, e): return e.subst(s.eq) if s.eq else e
    def _rel(s, e):
        """the inequalities connected to e (transitively sharing symbols)"""
        if not s.ge: return s.ge
        want = set(e.syms()); rest = list(s.ge); out = []
        ch = True
        while ch:
            ch = False; keep = []
            for g in rest:
                if any(x in want for x, _ in g.t): out.append(g); want.update(g.syms()); ch = True
                else: keep.append(g)
            rest = keep
        return out
    def add_ge(s, e):
        e = tighten(s.norm(e))
        if not e.t:
            if e.c < 0: s.bad = True
            return s
        if len(e.t) == 1 and e.t[0][0] in POW: e = pow_tighten(e)
        if e in s.ge: return s
        if L(tuple((x, -k) for x, k in e.t), -e.c) in s.ge: return s.add_eq(e)
        s.ge = s.ge | {e}
        return s
    def add_eq(s, e):
        e = s.norm(e)
        if not e.t:
            if e.c: s.bad = True
            return s
        g = 0
        for _, c in e.t: g = gcd(g, c)
        if e.c % g: s.bad = True; return s
        if g != 1: e = L(tuple((x, c // g) for x, c in e.t), e.c // g)
        cand = [x for x, c in e.t if abs(c) == 1]
        if not cand:
            s.ge = s.ge | {e, -e}; return s
        # prefer eliminating loop counters and other derived symbols
        x = max(cand, key=lambda y: (y[0] == "%", y))
        c = e.coef(x)
        r = (L(tuple(p for p in e.t if p[0] != x), e.c)) * (-c)
        m = {x: r}
        s.eq = dict((y, z.subst(m)) for y, z in s.eq.items()); s.eq[x] = r
        if POW:
            for p in POW:
                v = s.eq.get(p)
                if v is not None and not v.t and (v.c <= 0 or v.c & (v.c - 1)): s.bad = True
        ge = sorted(s.ge, key=lambda e: (e.t, e.c)); s.ge = frozenset()
        for g in ge:
            if any(y in s.eq for y, _ in g.t): s.add_ge(g)
            else: s.ge = s.ge | {g}
        return s
    def sat(s): return not s.bad and fm_sat(s.ge)
    def sat_with(s, *es):
        """feasible together with e >= 0 for every e?"""
        if s.bad: return False
        es = [tighten(s.norm(e)) for e in es]
        if POW: es = [pow_tighten(e) if len(e.t) == 1 and e.t[0][0] in POW else e for e in es]
        if any(not e.t and e.c < 0 for e in es): return False
        es = [e for e in es if e.t]
        if not es: return True
        tot = es[0]
        rel = set()
        for e in es: rel.update(s._rel(e))
        return fm_sat(frozenset(rel | set(es)))
    def ge0(s, e):
        """entails e >= 0"""
        e = s.norm(e)
        if not e.t: return e.c >= 0
        return not s.sat_with(-e + (-1))
    def eq0(s, e):
        e = s.norm(e)
        if not e.t: return e.c == 0
        return s.ge0(e) and s.ge0(-e)
    def __repr__(s): return ", ".join(["%s=%r" % x for x in sorted(s.eq.items())] + ["%r>=0" % g for g in sorted(s.ge, key=repr)])
