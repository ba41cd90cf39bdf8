from .mathlib import *
H = MH
def wits(thorough):
    W = []
    pairs = [("float", "float"), ("double", "double"), ("float", "double"), ("double", "float"), ("float", "int"), ("double", "int"), ("float", "short")]
    if thorough: pairs += [("float", "unsigned"), ("float", "long"), ("long double", "long double"), ("double", "short")]
    for T, U in pairs:
        def el(o, c, q, T=T): return o.el("m", c * 4 + q, T)
        def prod(o, r, T, X):
            """m * X with X(c)(k)"""
            yield from elems(r, "r", T, 4, 4, lambda c, q: o.sum([o.bin("*", el(o, k, q, T), X[c][k], T) for k in range(4)], T))
        def ft(r, o, T=T, U=U):
            v = [o.conv(o.el("v", i, U), U, T) for i in range(3)]; z, e = o.k(0, T), o.k(1, T)
            yield from prod(o, r, T, [[e, z, z, z], [z, e, z, z], [z, z, e, z], v + [e]])
        def fs(r, o, T=T, U=U):
            v = [o.conv(o.el("v", i, U), U, T) for i in range(3)]; z, e = o.k(0, T), o.k(1, T)
            yield from prod(o, r, T, [[v[0], z, z, z], [z, v[1], z, z], [z, z, v[2], z], [z, z, z, e]])
        for fn, f in (("translate", ft), ("scale", fs)):
            W.append(Wit(nm(), "const %s& m, const %s& v, %s& r" % (M(T, 4, 4), V(U, 3), M(T, 4, 4)), "r = %s(m, v);" % fn, [("m", lay(T)), ("v", lay(U)), ("r", lay(T))], f, "%s(%s, %s)" % (fn, M(T, 4, 4), V(U, 3))))
        for A in sorted({T, "float", "double", "int"}):
            def fr(r, o, T=T, U=U, A=A):
                a = o.conv(o.el("a", 0, A), A, T)
                n = [o.conv(o.el("v", i, U), U, T) for i in range(3)]; z, e = o.k(0, T), o.k(1, T)
                s, c = o.fn("sin", a), o.fn("cos", a); t = o.bin("-", e, c, T)
                mul = lambda *x: x[0] if len(x) == 1 else o.bin("*", x[0], mul(*x[1:]), T)
                X = [[z] * 4 for _ in range(4)]
                for col in range(3):
                    for row in range(3):
                        v = mul(n[col], n[row], t)
                        if col == row: v = o.bin("+", v, c, T)
                        # cross-product matrix [n]x, row, col
                        eps = {(0, 1): (-1, 2), (0, 2): (1, 1), (1, 0): (1, 2), (1, 2): (-1, 0), (2, 0): (-1, 1), (2, 1): (1, 0)}.get((row, col))
                        if eps: v = o.bin("+" if eps[0] > 0 else "-", v, mul(s, n[eps[1]]), T)
                        X[col][row] = v
                X[3][3] = e
                yield from prod(o, r, T, X)
            W.append(Wit(nm(), "const %s& m, %s a, const %s& v, %s& r" % (M(T, 4, 4), A, V(U, 3), M(T, 4, 4)), "r = rotate(m, a, v);", [("m", lay(T)), ("a", ("val", A)), ("v", lay(U)), ("r", lay(T))], fr, "rotate(%s, %s, %s)" % (M(T, 4, 4), A, V(U, 3))))
        # overwriting the transformed matrix itself
        def fst(r, o, T=T, U=U):
            v = [o.conv(o.el("v", i, U), U, T) for i in range(3)]
            yield from elems(r, "m", T, 4, 4, lambda c, q: el(o, c, q, T) if c < 3 else o.sum([o.bin("*", el(o, k, q, T), v[k], T) for k in range(3)] + [el(o, 3, q, T)], T))
        W.append(Wit(nm(), "%s& m, const %s& v" % (M(T, 4, 4), V(U, 3)), "m = translate(m, v);", [("m", lay(T)), ("v", lay(U))], fst, "m = translate(m, %s)" % V(U, 3)))
    return W
def run(chk, thorough):
    run_wits(chk, "affine transform", H, wits(thorough), chunk=3)
    chk.need("affine transform", 150)
