from .mathlib import *
from fractions import Fraction
import mpmath, re
H = MH
mpmath.mp.prec = 600
mp = mpmath
def plastic(): return mp.findroot(lambda x: x ** 3 - x - 1, mp.mpf("1.3247"))
def fib():
    s = mp.mpf(0); a, b = mp.mpf(1), mp.mpf(1)
    for _ in range(900): s += 1 / a; a, b = b, a + b
    return s
CONST = {"e": lambda: mp.e, "e_sqr": lambda: mp.e ** 2, "e_pow_pi": lambda: mp.e ** mp.pi, "pi": lambda: mp.pi, "two_pi": lambda: 2 * mp.pi, "two_over_pi": lambda: 2 / mp.pi,
         "pi_over_two": lambda: mp.pi / 2, "pi_sqr": lambda: mp.pi ** 2, "inv_pi": lambda: 1 / mp.pi, "tau": lambda: 2 * mp.pi, "log2_e": lambda: mp.log(mp.e, 2), "log10_e": lambda: mp.log10(mp.e),
         "ln_two": lambda: mp.log(2), "ln_ten": lambda: mp.log(10), "sqrt_two": lambda: mp.sqrt(2), "sqrt_three": lambda: mp.sqrt(3), "sqrt_five": lambda: mp.sqrt(5), "sqrt_e": lambda: mp.sqrt(mp.e),
         "sqrt_pi": lambda: mp.sqrt(mp.pi), "sqrt_two_pi": lambda: mp.sqrt(2 * mp.pi), "sqrt_two_pi_e": lambda: mp.sqrt(2 * mp.pi * mp.e), "inv_sqrt_pi": lambda: 1 / mp.sqrt(mp.pi), "cbrt_two": lambda: mp.cbrt(2),
         "inv_fibonacci": fib, "phi": lambda: (1 + mp.sqrt(5)) / 2, "catalan": lambda: mp.catalan, "euler": lambda: mp.euler, "gauss": lambda: 1 / mp.agm(1, mp.sqrt(2)), "plastic": plastic,
         "zeta_two": lambda: mp.zeta(2), "zeta_three": lambda: mp.zeta(3), "zeta_four": lambda: mp.zeta(4)}
def frac(x):
    x = mp.mpf(x); m, e = x.man_exp if hasattr(x, "man_exp") else (x._mpf_[1], x._mpf_[2])
    return Fraction(int(m)) * Fraction(2) ** int(e)
def rnd(q, p):
    """round to nearest even with p significant bits"""
    e = 0
    n = abs(q)
    while n >= Fraction(2) ** p: n /= 2; e += 1
    while n < Fraction(2) ** (p - 1): n *= 2; e -= 1
    k = n.numerator // n.denominator; r = n - k
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and k & 1): k += 1
    return (1 if q > 0 else -1) * Fraction(k) * Fraction(2) ** e
PREC = {"float": 24, "double": 53, "long double": 64}
def wits(thorough):
    W = []
    for T in PREC:
        for name, fn in CONST.items():
            def f(r, o, T=T, name=name, fn=fn):
                v, loc = out(r, "r", 0, T)
                x = frac(fn()); want = rnd(x, PREC[T]); via = rnd(rnd(x, 64), PREC[T])
                got = v.leaf.r.cval() if v.var is None and isinstance(v.leaf, F) and v.leaf.r.is_const() else None
                if got is not None and got == via: want = via
                yield "", v, leaf(F(Rat.const(want))), loc
            W.append(Wit(nm(), "%s& r" % T, "static_assert(std::is_same_v<decltype(%s_v<%s>), const %s>); r = %s_v<%s>;" % (name, T, T, name, T), [("r", lay(T))], f, "%s_v<%s>" % (name, T), f32id=False))
            if T == "double":
                W.append(Wit(nm(), "double& r", "static_assert(std::is_same_v<decltype(xme::math::%s), const double>); r = xme::math::%s;" % (name, name), [("r", lay("double"))], f, name, f32id=False))
    ident = {"sec": ("cos", True), "csc": ("sin", True), "cot": ("tan", True), "arcsin": ("asin", False), "arccos": ("acos", False), "arctan": ("atan", False), "sin": ("sin", False), "cos": ("cos", False), "tan": ("tan", False)}
    for fn, (g, recip) in ident.items():
        for A in ["float", "double", "long double", "int"]:
            T = "double" if A == "int" else A
            def f(r, o, A=A, T=T, g=g, recip=recip):
                x = o.fn(g, o.conv(o.el("a", 0, A), A, T))
                v, loc = out(r, "r", 0, T); yield "", v, o.bin("/", o.k(1, T), x, T) if recip else x, loc
            W.append(Wit(nm(), "%s a, %s& r" % (A, T), "static_assert(std::is_same_v<decltype(xme::math::%s(a)), %s>); r = xme::math::%s(a);" % (fn, T, fn), [("a", ("val", A)), ("r", lay(T))], f, "%s(%s)" % (fn, A), f32id=(A == "float")))
    for fn, k in (("radians", lambda: mp.pi / 180), ("degrees", lambda: 180 / mp.pi)):
        for T in PREC:
            def f(r, o, T=T, k=k):
                v, loc = out(r, "r", 0, T); x = o.el("a", 0, T); c = frac(k()); exp = o.bin("*", x, leaf(F(Rat.const(c))), T)
                if v.var is None and isinstance(v.leaf, F):
                    q = v.leaf.r / x.leaf.r
                    # the multiplier may differ from the exact one only by the rounding of its own evaluation
                    if q.is_const() and abs(q.cval() - c) <= abs(c) * Fraction(2) ** (2 - PREC[T]): exp = v
                yield "", v, exp, loc
            W.append(Wit(nm(), "%s a, %s& r" % (T, T), "static_assert(std::is_same_v<decltype(%s(a)), %s>); r = %s(a);" % (fn, T, fn), [("a", ("val", T)), ("r", lay(T))], f, "%s(%s)" % (fn, T), f32id=(T == "float")))
    return W
def run(chk, thorough):
    run_wits(chk, "constants and trigonometry", H, wits(thorough), chunk=20)
    # every variable template of the header must be known to the table above
    import os
    src = open(os.path.join(ir.REPO, "include/xme/math/constants.hpp")).read()
    names = set(re.findall(r"\b(\w+)_v\s*=", src))
    chk.count("variable templates declared", len(names)); chk.count("variable templates specified", len(names & set(CONST)))
    for n in sorted(names - set(CONST)): chk.undecided("constants and trigonometry", n + "_v", "no reference value for this name")
    chk.need("constants and trigonometry", 130)
