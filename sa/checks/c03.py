from .mathlib import *
H = VH
def dotv(o, a, b, T, n): return o.sum([o.bin("*", o.el(a, i, T), o.el(b, i, T), T) for i in range(n)], T)
def wits(thorough):
    W = []
    sizes = [2, 3, 4, 1, 5, 6, 7, 8, 9]
    ft = ["float", "double"] + (["long double"] if thorough else [])
    it = ["int", "short", "long"] + (["signed char", "unsigned"] if thorough else [])
    for n in sizes:
        for T in ft + it:
            if n > 5 and T not in ("float", "int") and not thorough: continue
            s2 = "const %s& a, const %s& b" % (V(T, n), V(T, n)); r2 = [("a", lay(T)), ("b", lay(T))]
            def fd(r, o, T=T, n=n):
                v, loc = out(r, "r", 0, T)
                yield "", v, dotv(o, "a", "b", T, n), loc
            W.append(Wit(nm(), s2 + ", %s& r" % T, "r = dot(a, b);", r2 + [("r", lay(T))], fd, "dot(%s)" % V(T, n)))
            def fr(r, o, T=T, n=n):
                d = dotv(o, "a", "b", T, n)
                yield from comps(r, "r", T, n, lambda i: o.bin("-", o.el("a", i, T), o.bin("*", o.bin("*", o.el("b", i, T), d, T), o.k(2, T), T), T))
            W.append(Wit(nm(), s2 + ", %s& r" % V(T, n), "r = reflect(a, b);", r2 + [("r", lay(T))], fr, "reflect(%s)" % V(T, n)))
            if T not in ("unsigned",):
                def ff(r, o, T=T, n=n):
                    d = dotv(o, "n", "i", T, n); z = o.k(0, T)
                    c = o.fcmp("olt", d, z) if isf(T) else o.icmp("slt", d, z)
                    yield from comps(r, "r", T, n, lambda i: ite(c, o.el("v", i, T), o.neg(o.el("v", i, T), T)))
                W.append(Wit(nm(), "const %s& v, const %s& i, const %s& n, %s& r" % ((V(T, n),) * 4), "r = faceforward(v, i, n);", [("v", lay(T)), ("i", lay(T)), ("n", lay(T)), ("r", lay(T))], ff, "faceforward(%s)" % V(T, n)))
            if n == 3:
                def fx(r, o, T=T):
                    def exp(i):
                        j, k = (i + 1) % 3, (i + 2) % 3
                        return o.bin("-", o.bin("*", o.el("a", j, T), o.el("b", k, T), T), o.bin("*", o.el("a", k, T), o.el("b", j, T), T), T)
                    yield from comps(r, "r", T, 3, exp)
                W.append(Wit(nm(), s2 + ", %s& r" % V(T, 3), "r = cross(a, b);", r2 + [("r", lay(T))], fx, "cross(%s)" % V(T, 3)))
        for T in ft:
            if n > 5 and T != "float" and not thorough: continue
            def norm(o, T, n, diff=False):
                e = [o.bin("-", o.el("b", i, T), o.el("a", i, T), T) if diff else o.el("a", i, T) for i in range(n)]
                return o.sqrt(o.sum([o.bin("*", x, x, T) for x in e], T))
            for form, ex in (("length", "length(a)"), ("length member", "a.length()"), ("distance", "distance(a, b)")):
                def fl(r, o, T=T, n=n, form=form):
                    v, loc = out(r, "r", 0, T)
                    yield "", v, norm(o, T, n, form == "distance"), loc
                W.append(Wit(nm(), "const %s& a, const %s& b, %s& r" % (V(T, n), V(T, n), T), "static_assert(std::is_same_v<decltype(%s), %s>); r = %s;" % (ex, T, ex), [("a", lay(T)), ("b", lay(T)), ("r", lay(T))], fl, "%s(%s)" % (form, V(T, n))))
            for form, ex in (("normalize", "normalize(a)"), ("normalize member", "a.normalize()")):
                def fn(r, o, T=T, n=n):
                    l = norm(o, T, n)
                    yield from comps(r, "r", T, n, lambda i: o.bin("/", o.el("a", i, T), l, T))
                W.append(Wit(nm(), "const %s& a, %s& r" % (V(T, n), V(T, n)), "r = %s;" % ex, [("a", lay(T)), ("r", lay(T))], fn, "%s(%s)" % (form, V(T, n))))
    return W
def run(chk, thorough):
    run_wits(chk, "geometry", H, wits(thorough), chunk=40)
    chk.need("geometry", 200)
