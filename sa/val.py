"""Witness driver for engine A: generate, compile, evaluate, compare with a specification value."""
import re
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
from . import ir
from .nf import *
from .vn import VN, Region, Unanalysable, rkey, math1, first_leaf, nbytes

# element types: C++ name -> (layout type, signed)
TY = {"float": (["f", 32], 1), "double": (["f", 64], 1), "long double": (["f", 80], 1),
      "int": (["i", 32], 1), "unsigned": (["i", 32], 0), "long": (["i", 64], 1), "unsigned long": (["i", 64], 0), "std::size_t": (["i", 64], 0),
      "short": (["i", 16], 1), "unsigned short": (["i", 16], 0), "signed char": (["i", 8], 1), "unsigned char": (["i", 8], 0), "char": (["i", 8], 1), "bool": (["bool"], 0)}
def lay(T): return TY[T][0]
def isf(T): return lay(T)[0] == "f"
def sz(T): return 1 if T == "bool" else nbytes(lay(T))
def bitsT(T): return 1 if T == "bool" else lay(T)[1]

class Ops(VN):
    """the scalar operations of the analysis, for building specification values"""
    def __init__(self, f32id=True, exact=False, prec=None): self.f32id = f32id; self.exact = exact; self.prec = prec
    def el(self, reg, i, T):
        off = i * sz(T)
        if T == "bool": return booln(("b", reg, off))
        a = ("in", reg, off)
        return leaf(F(Rat.atom(a), lay(T)[1])) if isf(T) else leaf(I(Poly.atom(a), bitsT(T)))
    def k(self, c, T):
        if T == "bool": return TRUE if c else FALSE
        return leaf(F(Rat.const(c))) if isf(T) else leaf(I(Poly.const(c), bitsT(T)))
    def conv(self, d, S, T):
        """C++ conversion of a value of type S to type T"""
        if S == T: return d
        if T == "bool":
            z = self.k(0, S)
            return self.fcmp("une", d, z) if isf(S) else self.icmp("ne", d, z)
        if isf(S) and isf(T):
            if lay(T)[1] >= lay(S)[1] or (self.f32id and lay(T)[1] >= (self.prec or 0)): return d
            return apply(lambda l: l if l.r.is_const() else F(Rat.atom(("fptrunc%d" % lay(T)[1],) + rkey(l.r))), d)
        if isf(S):
            o = "fptosi" if TY[T][1] else "fptoui"
            return apply(lambda l: I(Poly.atom((o,) + rkey(l.r)), bitsT(T)) if not l.r.is_const() else I(Poly.const(int(l.r.cval())), bitsT(T)), d)
        if isf(T):
            if S == "bool": return apply(lambda b: F(Rat.const(int(b))), d)
            o = "sitofp" if TY[S][1] else "uitofp"
            return apply(lambda l: F(Rat.atom((o, l.p))) if not l.is_const() else F(Rat.const(l.cval() if TY[S][1] else l.cval() % (1 << l.w))), d)
        w0, w = bitsT(S), bitsT(T)
        if w < w0: return self.trunc(d, w)
        if w == w0: return d
        return self.sext(d, w) if TY[S][1] and S != "bool" else self.zext(d, w)
    def bin(self, op, x, y, T):
        """x op y computed in T (after promotion) and converted back to T"""
        if isf(T): return self.fbin({"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}[op], x, y, lay(T)[1])
        w = bitsT(T); s = TY[T][1]
        o = {"+": "add", "-": "sub", "*": "mul", "/": "sdiv" if (s or w < 32) else "udiv"}[op]
        if w < 32:
            e = self.sext if s and T != "bool" else self.zext
            return self.trunc(self.ibin(o, e(x, 32), e(y, 32), 32), w)
        return self.ibin(o, x, y, w)
    def neg(self, x, T):
        if isf(T): return apply(lambda l: F(-l.r), x)
        return self.bin("-", self.k(0, T), x, T)
    def sqrt(self, x): return apply(lambda l: F(math1("sqrt", l.r.__class__(l.r.n.reduce(), l.r.d))), x)
    def fn(self, name, x): return apply(lambda l: F(math1(name, l.r)), x)
    def sum(self, xs, T):
        r = xs[0]
        for x in xs[1:]: r = self.bin("+", r, x, T)
        return r

class Wit:
    """one witness function"""
    def __init__(self, name, sig, body, regs, check, desc, f32id=True, args=None, ndebug=True, externs=None, pure=None, pre="", exact=False, prec=None):
        self.exact = exact
        if prec is None and not exact:              # the width of the floating result
            d = dict(regs); lt = d.get("r") if isinstance(d.get("r"), list) and d["r"][0] == "f" else d.get("m", d.get("a"))
            if isinstance(lt, list) and lt[0] == "f": prec = lt[1]
        self.prec = prec
        if exact: f32id = False
        self.name = name; self.sig = sig; self.body = body; self.regs = regs; self.check = check; self.desc = desc
        self.f32id = f32id; self.args = args; self.externs = externs; self.pure = pure; self.pre = pre
    def text(self): return "%sextern \"C\" void %s(%s) { %s }\n" % (self.pre, self.name, self.sig, self.body)

def equal(a, b):
    if isinstance(a, list) or isinstance(b, list): return a == b
    if a == b: return True
    # leaf comparison under the path's assumptions
    bad = []
    def pair(x, y, path):
        if bad: return
        if x.var is None and y.var is None:
            if not leaf_equal(x.leaf, y.leaf, path): bad.append(path)
            return
        v = min((d.var for d in (x, y) if d.var is not None), key=var_order)
        ch = x.ch if x.var == v else y.ch
        for k in ch:
            pair(x.ch[k] if x.var == v else x, y.ch[k] if y.var == v else y, path + ((v, k),))
    pair(a, b, ())
    return not bad
def leaf_equal(x, y, path):
    if x == y: return True
    if type(x) is not type(y) or isinstance(x, (bool, U)): return infeasible(path)
    sub = {}
    for v, k in path:
        if k == 0 and v[0] == "sgn":
            # p == 0 with p linear in an atom with constant coefficient
            p = v[1]
            for m, c in p.key():
                if len(m) == 1 and m[0][1] == 1 and not any(m[0][0] in dict(m2) for m2 in p.t if m2 != m):
                    rest = Poly({m2: c2 for m2, c2 in p.t.items() if m2 != m})
                    sub[m[0][0]] = rest.scale(Fraction(-1) / c); break
        if k == 0 and v[0] in ("scmp", "ucmp"):
            d = v[1] - v[2]
            for m, c in d.key():
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                    rest = Poly({m2: c2 for m2, c2 in d.t.items() if m2 != m})
                    sub[m[0][0]] = rest.scale(-c); break
    if sub:
        g = lambda a: sub.get(a, Poly.atom(a))
        if isinstance(x, F): 
            return F(Rat(x.r.n.subst(g), x.r.d.subst(g))) == F(Rat(y.r.n.subst(g), y.r.d.subst(g)))
        if isinstance(x, I) and x.w == y.w: return I(x.p.subst(g), x.w) == I(y.p.subst(g), y.w)
    return infeasible(path)
def infeasible(path):
    """do the selected comparison outcomes contradict each other? (intervals per compared value)"""
    zero = {}
    for v, k in path:               # signed and unsigned comparison of one pair agree on equality
        if v[0] in ("scmp", "ucmp") and zero.setdefault((v[1], v[2]), k == 0) != (k == 0): return True
    iv = {}
    for v, k in path:
        if v[0] not in ("scmp", "ucmp"): continue
        a, b = v[1], v[2]
        if not a.is_const() and not b.is_const(): continue
        p, c, o = (a, b.cval(), k) if b.is_const() else (b, a.cval(), -k)
        doms = ["scmp", "ucmp"] if o == 0 or True else [v[0]]
        for d in doms:
            cc = c + (1 << 64) if d == "ucmp" and c < 0 else c
            lo, hi, ex = iv.get((d, p), (0 if d == "ucmp" else -10**30, 10**30, ()))
            if o == 0: lo = max(lo, cc); hi = min(hi, cc)
            elif d != v[0]: ex = ex + (cc,)
            elif o < 0: hi = min(hi, cc - 1)
            else: lo = max(lo, cc + 1)
            while lo <= hi and lo in ex: lo += 1
            while lo <= hi and hi in ex: hi -= 1
            if lo > hi: return True
            iv[(d, p)] = (lo, hi, ex)
    return False

def srcof(header, wits, prelude=""):
    return header + prelude + "".join(w.text() for w in wits)

def run_wits(chk, rule, header, wits, defs=(), chunk=24, ndebug=True, workers=8, flags=(), pipe=ir.PIPE_VALUE, prelude=""):
    """compile in chunks (in parallel), evaluate every witness, register obligations"""
    chunks = [wits[i:i + chunk] for i in range(0, len(wits), chunk)]
    def build(ws):
        try: return [(ws, ir.compile_ir(srcof(header, ws, prelude), defs, pipe=pipe, ndebug=ndebug, flags=flags))]
        except ir.BuildError as e:
            if len(ws) == 1: return [(ws, e)]
            h = len(ws) // 2
            return build(ws[:h]) + build(ws[h:])
    with ThreadPoolExecutor(workers) as ex: res = [x for r in ex.map(build, chunks) for x in r]
    for ws, m in res:
        if isinstance(m, ir.BuildError):
            w = ws[0]
            err = [l for l in m.out.splitlines() if "error:" in l][:3]
            chk.fail(rule, w.desc, "the operation does not compile: " + " / ".join(err), err[0].split(": ")[0] if err else "")
            continue
        chk.count("translation units")
        for w in ws: eval_wit(chk, rule, m, w)

def eval_wit(chk, rule, m, w):
    f = m["functions"].get(w.name)
    regions = {}
    args = []
    import copy
    for name, layout in w.regs:
        if isinstance(layout, tuple) and layout[0] == "val":
            T = layout[1]
            args.append(Ops(w.f32id).el(name, 0, T) if T != "bool" else booln(("b", name, 0)))
            continue
        if isinstance(layout, tuple) and layout[0] == "valk":        # run-time argument, fixed for this evaluation
            args.append(leaf(I(Poly.const(layout[2]), bitsT(layout[1]))))
            continue
        regions[name] = Region(name, layout)
        args.append(P(name, ZERO))
    try:
        r = VN(m, w.name, args, regions, f32_identity=w.f32id, externs=w.externs, pure=w.pure, exact=w.exact, prec=w.prec)
    except Unanalysable as e:
        chk.undecided(rule, w.desc, str(e)); return
    except RecursionError:
        chk.undecided(rule, w.desc, "nesting too deep"); return
    chk.note_fn(m, w.name); chk.count("witness functions"); chk.count("SSA instructions", r.n_ins)
    try:
        for desc, got, exp, loc in w.check(r, Ops(w.f32id, w.exact, w.prec)):
            full = w.desc + (": " + desc if desc else "")
            if got is None:
                chk.fail(rule, full, "no value is produced", ir.where(loc)); continue
            if equal(got, exp): chk.ok(rule, full, "= %s" % (repr(exp)[:200]))
            else: chk.fail(rule, full, "computes %s\nspecified %s" % (repr(got)[:600], repr(exp)[:600]), ir.where(loc))
    except Unanalysable as e:
        chk.undecided(rule, w.desc, str(e))

def out(r, reg, off, T):
    """(value, loc) of the cell of type T written at byte off of region reg"""
    t = ["i", 8] if T == "bool" else (["p"] if T == "ptr" else lay(T))
    c = r.mem.get(reg, {}).get(off)
    v = r.read(r.mem, reg, off, t)
    if T == "bool": v = tobool(v)
    if T in ("float",) and not isinstance(v, list): pass
    return v, (c[2] if c else None)
def tobool(v):
    def f(l):
        if isinstance(l, U): return l
        if l.is_const(): return bool(l.cval() & 1)
        a = list(l.p.atoms())
        return l
    return apply(f, v)
