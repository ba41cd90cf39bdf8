from .mathlib import *
H = MH
def wits(thorough):
    W = []
    sizes = [2, 3, 4, 5] + [1, 6, 7, 8]
    for n in sizes:
        for T in ["float", "double"]:
            for fn in ("lerp", "mix"):
                for U in ["float", "double", "bool"] + (["int", "unsigned", "short", "unsigned char", "long"] if n <= 4 else []) + (["long double", "unsigned long"] if thorough else []):
                    for vec in (False, True):
                        def f(r, o, T=T, U=U, n=n, vec=vec):
                            def exp(i):
                                t = o.el("t", i if vec else 0, U); x, y = o.el("a", i, T), o.el("b", i, T)
                                if U != "bool": t = o.conv(t, U, T)
                                if U == "bool": return ite(t, y, x)
                                return o.bin("+", o.bin("*", x, o.bin("-", o.k(1, T), t, T), T), o.bin("*", y, t, T), T)
                            yield from comps(r, "r", T, n, exp)
                            yield from untouched(r, ["a", "b", "t"])
                        W.append(Wit(nm(), "const %s& a, const %s& b, %s t, %s& r" % (V(T, n), V(T, n), "const %s&" % V(U, n) if vec else U, V(T, n)), "r = %s(a, b, t);" % fn,
                                     [("a", lay(T)), ("b", lay(T)), ("t", lay(U) if vec else ("val", U)), ("r", lay(T))], f, "%s(%s, %s)" % (fn, V(T, n), V(U, n) if vec else U), exact=(U == "bool")))
    st = ["float", "double", "int", "short", "signed char", "long"] + (["long double", "char"] if thorough else [])
    def sg(o, x, T):
        z = o.k(0, T); c = (lambda p, u, v: o.fcmp("o" + p, u, v)) if isf(T) else (lambda p, u, v: o.icmp("s" + p, u, v))
        return ite(c("gt", x, z), o.k(1, T), ite(c("lt", x, z), o.k(-1, T), z))
    for T in st:
        def f(r, o, T=T):
            v, loc = out(r, "r", 0, T); yield "", v, sg(o, o.el("a", 0, T), T), loc
        W.append(Wit(nm(), "%s a, %s& r" % (T, T), "static_assert(std::is_same_v<decltype(sign(a)), %s>); r = sign(a);" % T, [("a", ("val", T)), ("r", lay(T))], f, "sign(%s)" % T))
        for n in sizes:
            def fv(r, o, T=T, n=n):
                yield from comps(r, "r", T, n, lambda i: sg(o, o.el("a", i, T), T))
                yield from untouched(r, ["a"])
            W.append(Wit(nm(), "const %s& a, %s& r" % (V(T, n), V(T, n)), "r = sign(a);", [("a", lay(T)), ("r", lay(T))], fv, "sign(%s)" % V(T, n)))
    return W
def special():
    from ..typ import TW
    r = []
    for T in ("float", "double", "long double", "int", "short", "signed char", "long"):
        vals = [("L::max()", 1), ("L::lowest()", -1), ("T(0)", 0), ("T(1)", 1), ("T(-1)", -1)]
        if isf(T): vals += [("-T(0)", 0), ("L::infinity()", 1), ("-L::infinity()", -1), ("L::denorm_min()", 1), ("-L::denorm_min()", -1), ("L::quiet_NaN()", 0)]
        for v, e in vals:
            r.append(TW("sign(%s) at %s" % (v.replace("L::", "std::numeric_limits<T>::"), T), "using T = %s; using L = std::numeric_limits<T>; static_assert(sign(T(%s)) == T(%d));" % (T, v, e)))
    return r
def run(chk, thorough):
    from ..typ import run_types
    run_types(chk, "sign of special values", H + "#include <limits>\n", special())
    run_wits(chk, "interpolation and sign", H, wits(thorough), chunk=30)
    chk.need("interpolation and sign", 150)
