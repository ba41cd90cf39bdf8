from .mathlib import *
H = MH
def sgnp(p):
    s = 1
    for i in range(len(p)):
        for j in range(i): s = -s if p[j] > p[i] else s
    return s
def wits(thorough):
    W = []
    ft = ["float", "double"] + (["long double"] if thorough else [])
    dims = [2, 3, 4] + ([5] if thorough else [])
    for T in ft:
        for C in dims:
            for R in dims:
                for U in ([T, "double" if T == "float" else "float", "int"] + (["long double", "short"] if thorough else [])):
                        def fv(r, o, T=T, U=U, C=C, R=R):
                            yield from comps(r, "r", T, R, lambda q: o.sum([o.bin("*", o.el("a", k * R + q, T), o.conv(o.el("x", k, U), U, T), T) for k in range(C)], T))
                            yield from untouched(r, ["a", "x"])
                        W.append(Wit(nm(), "const %s& a, const %s& x, %s& r" % (M(T, C, R), V(U, C), V(T, R)), "r = a * x;", [("a", lay(T)), ("x", lay(U)), ("r", lay(T))], fv, "%s * %s" % (M(T, C, R), V(U, C))))
                for K, U in [(K, T) for K in dims] + [(K, "double" if T == "float" else "float") for K in (dims if thorough else [C, 4 if C != 4 else 3])]:
                    # (C cols, R rows) * (K cols, C rows) -> (K cols, R rows)
                    def fm(r, o, T=T, C=C, R=R, K=K, U=U):
                        yield from elems(r, "r", T, K, R, lambda c, q: o.sum([o.bin("*", o.el("a", k * R + q, T), o.conv(o.el("b", c * C + k, U), U, T), T) for k in range(C)], T))
                        yield from untouched(r, ["a", "b"])
                    W.append(Wit(nm(), "const %s& a, const %s& b, %s& r" % (M(T, C, R), M(U, K, C), M(T, K, R)), "r = a * b;", [("a", lay(T)), ("b", lay(U)), ("r", lay(T))], fm, "%s * %s" % (M(T, C, R), M(U, K, C))))
                def ft_(r, o, T=T, C=C, R=R):
                    yield from elems(r, "r", T, R, C, lambda c, q: o.el("a", q * R + c, T)); yield from untouched(r, ["a"])
                W.append(Wit(nm(), "const %s& a, %s& r" % (M(T, C, R), M(T, R, C)), "r = transpose(a);", [("a", lay(T)), ("r", lay(T))], ft_, "transpose(%s)" % M(T, C, R)))
                def fo(r, o, T=T, C=C, R=R):
                    yield from elems(r, "r", T, C, R, lambda c, q: o.bin("*", o.el("a", q, T), o.el("b", c, T), T))
                W.append(Wit(nm(), "const %s& a, const %s& b, %s& r" % (V(T, R), V(T, C), M(T, C, R)), "r = outer_product(a, b);", [("a", lay(T)), ("b", lay(T)), ("r", lay(T))], fo, "outer_product(%s, %s)" % (V(T, R), V(T, C))))
                def fh(r, o, T=T, C=C, R=R):
                    yield from elems(r, "r", T, C, R, lambda c, q: o.bin("*", o.el("a", c * R + q, T), o.el("b", c * R + q, T), T))
                W.append(Wit(nm(), "const %s& a, const %s& b, %s& r" % ((M(T, C, R),) * 3), "r = hadamard_product(a, b);", [("a", lay(T)), ("b", lay(T)), ("r", lay(T))], fh, "hadamard_product(%s)" % M(T, C, R)))
        for C, R, K in ((6, 6, 6), (5, 7, 2), (9, 2, 3)) if T == "float" else ():
            def fv(r, o, T=T, C=C, R=R):
                yield from comps(r, "r", T, R, lambda q: o.sum([o.bin("*", o.el("a", k * R + q, T), o.el("x", k, T), T) for k in range(C)], T))
            W.append(Wit(nm(), "const %s& a, const %s& x, %s& r" % (M(T, C, R), V(T, C), V(T, R)), "r = a * x;", [("a", lay(T)), ("x", lay(T)), ("r", lay(T))], fv, "%s * %s" % (M(T, C, R), V(T, C))))
            def fm(r, o, T=T, C=C, R=R, K=K):
                yield from elems(r, "r", T, K, R, lambda c, q: o.sum([o.bin("*", o.el("a", k * R + q, T), o.el("b", c * C + k, T), T) for k in range(C)], T))
            W.append(Wit(nm(), "const %s& a, const %s& b, %s& r" % (M(T, C, R), M(T, K, C), M(T, K, R)), "r = a * b;", [("a", lay(T)), ("b", lay(T)), ("r", lay(T))], fm, "%s * %s" % (M(T, C, R), M(T, K, C))))
            def ft_(r, o, T=T, C=C, R=R): yield from elems(r, "r", T, R, C, lambda c, q: o.el("a", q * R + c, T))
            W.append(Wit(nm(), "const %s& a, %s& r" % (M(T, C, R), M(T, R, C)), "r = transpose(a);", [("a", lay(T)), ("r", lay(T))], ft_, "transpose(%s)" % M(T, C, R)))
        for n in (2, 3, 4):
            forms = [("determinant(a)", "determinant")] + ([("a.determinant()", "determinant member")] if n == 4 else [])
            for ex, d in forms:
                def fdet(r, o, T=T, n=n):
                    ts = []
                    for p in permutations(range(n)):
                        t = o.k(sgnp(p), T)
                        for c in range(n): t = o.bin("*", t, o.el("a", c * n + p[c], T), T)
                        ts.append(t)
                    v, loc = out(r, "r", 0, T); yield "", v, o.sum(ts, T), loc
                W.append(Wit(nm(), "const %s& a, %s& r" % (M(T, n, n), T), "r = %s;" % ex, [("a", lay(T)), ("r", lay(T))], fdet, "%s(%s)" % (d, M(T, n, n))))
        def ftm(r, o, T=T):
            yield from elems(r, "r", T, 4, 4, lambda c, q: o.el("a", q * 4 + c, T))
        W.append(Wit(nm(), "const %s& a, %s& r" % (M(T, 4, 4), M(T, 4, 4)), "r = a.transpose();", [("a", lay(T)), ("r", lay(T))], ftm, "transpose member(%s)" % M(T, 4, 4)))
        for n in (2, 3, 4):
            # results assigned over an operand
            def fal(r, o, T=T, n=n):
                yield from elems(r, "a", T, n, n, lambda c, q: o.sum([o.bin("*", o.el("a", k * n + q, T), o.el("b", c * n + k, T), T) for k in range(n)], T))
            W.append(Wit(nm(), "%s& a, const %s& b" % ((M(T, n, n),) * 2), "a = a * b;", [("a", lay(T)), ("b", lay(T))], fal, "a = a * b for %s" % M(T, n, n)))
    return W
def run(chk, thorough):
    run_wits(chk, "linear algebra", H, wits(thorough), chunk=20)
    chk.need("linear algebra", 300)
