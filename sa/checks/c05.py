from .mathlib import *
H = MH
SH = [(2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (2, 4), (4, 2), (3, 4), (4, 3), (5, 5), (3, 5)]
def wits(thorough):
    W = []
    shapes = SH + ([(1, 3), (5, 2), (6, 6), (2, 1)] if thorough else [])
    ft = ["float", "double"] + (["long double"] if thorough else [])
    pairs = [("float", "float"), ("double", "double"), ("float", "double"), ("double", "float")] + ([("long double", "float"), ("float", "long double")] if thorough else [])
    for C, R in shapes:
        n = C * R
        idx = [(c, r) for c in range(C) for r in range(R)]
        def el(o, reg, c, r, T, R=R): return o.el(reg, c * R + r, T)
        for T in ft:
            for U in (["float", "int", "double"] if (C, R) != (5, 5) else [T]):
                def fs(r, o, T=T, U=U, C=C, R=R):
                    yield from elems(r, "r", T, C, R, lambda c, q: o.conv(o.el("s", 0, U), U, T) if c == q else o.k(0, T))
                W.append(Wit(nm(), "%s s, %s& r" % (U, M(T, C, R)), "r = %s(s);" % M(T, C, R), [("s", ("val", U)), ("r", lay(T))], fs, "%s(%s)" % (M(T, C, R), U), exact=True))
            def fd(r, o, T=T, C=C, R=R):
                yield from elems(r, "r", T, C, R, lambda c, q: o.k(1 if c == q else 0, T))
            W.append(Wit(nm(), "%s& r" % M(T, C, R), "r = %s();" % M(T, C, R), [("r", lay(T))], fd, "%s()" % M(T, C, R), exact=True))
            def fcols(r, o, T=T, C=C, R=R):
                yield from elems(r, "r", T, C, R, lambda c, q: o.el("c%d" % c, q, T))
            if C > 1 and R > 1:
                W.append(Wit(nm(), ", ".join("const %s& c%d" % (V(T, R), c) for c in range(C)) + ", %s& r" % M(T, C, R), "r = %s(%s);" % (M(T, C, R), ", ".join("c%d" % c for c in range(C))),
                             [("c%d" % c, lay(T)) for c in range(C)] + [("r", lay(T))], fcols, "%s(columns)" % M(T, C, R), exact=True))
                W.append(Wit(nm(), ", ".join("const %s& c%d" % (V(T, R), c) for c in range(C)) + ", %s& r" % M(T, C, R), "r = Matrix(%s);" % (", ".join("c%d" % c for c in range(C))),
                             [("c%d" % c, lay(T)) for c in range(C)] + [("r", lay(T))], fcols, "Matrix(columns) deduced as %s" % M(T, C, R), exact=True))
            for cst in ("", "const "):
                for c, q in idx if n <= 12 or thorough else [(0, 0), (C - 1, R - 1), (1, 2), (2, 1)]:
                    def fi(r, o, c=c, q=q, R=R, T=T): yield from retptr(r, "r", (c * R + q) * sz(T), "a", "")
                    W.append(Wit(nm(), "%s%s& a, const %s*& r" % (cst, M(T, C, R), T), "r = &a[%d][%d];" % (c, q), [("a", lay(T)), ("r", ["p"])], fi, "&%s%s[%d][%d]" % (cst, M(T, C, R), c, q)))
                for c, q in sorted({(0, 0), (C - 1, R - 1), (C - 1, 0), (0, R - 1), (C // 2, R // 2)}):
                    def fsym(r, o, R=R, T=T, c=c, q=q): yield from retptr(r, "r", (c * R + q) * sz(T), "a", "")
                    W.append(Wit(nm(), "%s%s& a, std::size_t i, std::size_t j, const %s*& r" % (cst, M(T, C, R), T), "r = &a[i][j];", [("a", lay(T)), ("i", ("valk", "std::size_t", c)), ("j", ("valk", "std::size_t", q)), ("r", ["p"])], fsym, "&%s%s[i][j] for run-time i, j of %d, %d" % (cst, M(T, C, R), c, q)))
            for q in range(R):
                def fr(r, o, q=q, C=C, R=R, T=T): yield from comps(r, "r", T, C, lambda i: o.el("a", i * R + q, T))
                W.append(Wit(nm(), "const %s& a, %s& r" % (M(T, C, R), V(T, C)), "r = a.row(%d);" % q, [("a", lay(T)), ("r", lay(T))], fr, "%s.row(%d)" % (M(T, C, R), q), exact=True))
            for c in range(C):
                def fcc(r, o, c=c, R=R, T=T): yield from comps(r, "r", T, R, lambda i: o.el("a", c * R + i, T))
                W.append(Wit(nm(), "const %s& a, %s& r" % (M(T, C, R), V(T, R)), "r = a.column(%d);" % c, [("a", lay(T)), ("r", lay(T))], fcc, "%s.column(%d)" % (M(T, C, R), c), exact=True))
            def fneg(r, o, T=T, C=C, R=R):
                yield from elems(r, "r", T, C, R, lambda c, q: o.neg(o.el("a", c * R + q, T), T)); yield from untouched(r, ["a"])
            W.append(Wit(nm(), "const %s& a, %s& r" % (M(T, C, R), M(T, C, R)), "r = -a;", [("a", lay(T)), ("r", lay(T))], fneg, "-" + M(T, C, R), exact=True))
            for eq in ("==", "!="):
                def feq(r, o, T=T, n=n, eq=eq):
                    e = TRUE
                    for i in range(n): e = AND(e, o.fcmp("oeq", o.el("a", i, T), o.el("b", i, T)))
                    v, loc = out(r, "r", 0, "bool"); yield "", v, (e if eq == "==" else NOT(e)), loc
                W.append(Wit(nm(), "const %s& a, const %s& b, bool& r" % (M(T, C, R), M(T, C, R)), "r = a %s b;" % eq, [("a", lay(T)), ("b", lay(T)), ("r", ["bool"])], feq, "%s %s" % (M(T, C, R), eq), exact=True))
        for T in ft[:2]:
            if n <= 16:
                order_wits(W, M(T, C, R), T, n, M(T, C, R)) if n <= 9 or (thorough and n <= 12) else None
            for op in "+-":
                def fself(r, o, T=T, C=C, R=R, op=op):
                    yield from elems(r, "a", T, C, R, lambda c, q: o.bin(op, o.el("a", c * R + q, T), o.el("a", c * R + q, T), T))
                W.append(Wit(nm(), "%s& a" % M(T, C, R), "a %s= a;" % op, [("a", lay(T))], fself, "a %s= a for %s" % (op, M(T, C, R)), exact=True))
            # the scalar may be one of the matrix's own elements
            for op in "+-*/":
                for c0, q0 in sorted({(0, 0), (C - 1, R - 1), (C // 2, R // 2)}):
                    def fal(r, o, T=T, C=C, R=R, op=op, c0=c0, q0=q0):
                        yield from elems(r, "a", T, C, R, lambda c, q: o.bin(op, o.el("a", c * R + q, T), o.el("a", c0 * R + q0, T), T))
                    W.append(Wit(nm(), "%s& a" % M(T, C, R), "a %s= a[%d][%d];" % (op, c0, q0), [("a", lay(T))], fal, "a %s= a[%d][%d] for %s" % (op, c0, q0, M(T, C, R)), exact=True))
        for Ts in ((("float", "double"), "double"), (("int", "float"), "float"), (("double", "int"), "double"), (("float", "float"), "float")):
            if C > 1 and R > 1:
                us, T = [Ts[0][k % 2] for k in range(C)], Ts[1]
                def fmix(r, o, T=T, us=us, C=C, R=R):
                    yield from elems(r, "r", T, C, R, lambda c, q: o.conv(o.el("c%d" % c, q, us[c]), us[c], T))
                sig = ", ".join("const %s& c%d" % (V(us[c], R), c) for c in range(C)); al = ", ".join("c%d" % c for c in range(C))
                rg = [("c%d" % c, lay(us[c])) for c in range(C)] + [("r", lay(T))]
                W.append(Wit(nm(), sig + ", %s& r" % M(T, C, R), "auto m = Matrix(%s); static_assert(std::is_same_v<decltype(m), %s>); r = m;" % (al, M(T, C, R)), rg, fmix, "Matrix(%s columns) deduced as %s" % ("/".join(Ts[0]), M(T, C, R)), exact=True))
                W.append(Wit(nm(), sig + ", %s& r" % M(T, C, R), "r = %s(%s);" % (M(T, C, R), al), rg, fmix, "%s(%s columns)" % (M(T, C, R), "/".join(Ts[0])), exact=True))
        for T, U in pairs:
            for op in "+-":
                def fb(r, o, T=T, U=U, C=C, R=R, op=op, reg="r"):
                    yield from elems(r, reg, T, C, R, lambda c, q: o.bin(op, o.el("a", c * R + q, T), o.conv(o.el("b", c * R + q, U), U, T), T))
                    yield from untouched(r, ["b"])
                W.append(Wit(nm(), "const %s& a, const %s& b, %s& r" % (M(T, C, R), M(U, C, R), M(T, C, R)), "r = a %s b;" % op, [("a", lay(T)), ("b", lay(U)), ("r", lay(T))], fb, "%s %s %s" % (M(T, C, R), op, M(U, C, R)), exact=True))
                def fbs(r, o, fb=fb):
                    yield from fb(r, o, reg="a"); yield from retptr(r, "p", 0, "a", "returns its left operand")
                W.append(Wit(nm(), "%s& a, const %s& b, %s*& p" % (M(T, C, R), M(U, C, R), M(T, C, R)), "p = &(a %s= b);" % op, [("a", lay(T)), ("b", lay(U)), ("p", ["p"])], fbs, "%s %s= %s" % (M(T, C, R), op, M(U, C, R)), exact=True))
            def fcv(r, o, T=T, U=U, C=C, R=R, reg="r"):
                yield from elems(r, reg, T, C, R, lambda c, q: o.conv(o.el("b", c * R + q, U), U, T)); yield from untouched(r, ["b"])
            W.append(Wit(nm(), "const %s& b, %s& r" % (M(U, C, R), M(T, C, R)), "%s t(b); r = t;" % M(T, C, R), [("b", lay(U)), ("r", lay(T))], fcv, "%s(%s)" % (M(T, C, R), M(U, C, R)), exact=True))
            def fas(r, o, fcv=fcv): yield from fcv(r, o, reg="a"); yield from retptr(r, "p", 0, "a", "returns its left operand")
            W.append(Wit(nm(), "%s& a, const %s& b, %s*& p" % (M(T, C, R), M(U, C, R), M(T, C, R)), "p = &(a = b);", [("a", lay(T)), ("b", lay(U)), ("p", ["p"])], fas, "%s = %s" % (M(T, C, R), M(U, C, R)), exact=True))
        for T, U in pairs + [("float", "int"), ("double", "int")]:
            for op in "+-*/":
                def fb(r, o, T=T, U=U, C=C, R=R, op=op, reg="r"):
                    yield from elems(r, reg, T, C, R, lambda c, q: o.bin(op, o.el("a", c * R + q, T), o.conv(o.el("s", 0, U), U, T), T))
                W.append(Wit(nm(), "const %s& a, %s s, %s& r" % (M(T, C, R), U, M(T, C, R)), "r = a %s s;" % op, [("a", lay(T)), ("s", ("val", U)), ("r", lay(T))], fb, "%s %s %s" % (M(T, C, R), op, U), exact=True))
                def fbs(r, o, fb=fb):
                    yield from fb(r, o, reg="a"); yield from retptr(r, "p", 0, "a", "returns its left operand")
                W.append(Wit(nm(), "%s& a, %s s, %s*& p" % (M(T, C, R), U, M(T, C, R)), "p = &(a %s= s);" % op, [("a", lay(T)), ("s", ("val", U)), ("p", ["p"])], fbs, "%s %s= %s" % (M(T, C, R), op, U), exact=True))
    for T, U in pairs:
        def f34(r, o, T=T, U=U):
            yield from elems(r, "r", T, 4, 4, lambda c, q: o.conv(o.el("b", c * 3 + q, U), U, T) if c < 3 and q < 3 else o.k(1 if c == q else 0, T))
        W.append(Wit(nm(), "const %s& b, %s& r" % (M(U, 3, 3), M(T, 4, 4)), "r = %s(b);" % M(T, 4, 4), [("b", lay(U)), ("r", lay(T))], f34, "%s(%s)" % (M(T, 4, 4), M(U, 3, 3)), exact=True))
    return W
def nans():
    r = []
    for T in ("float", "double"):
        for C, R in ((2, 2), (2, 3), (3, 3), (4, 4)):
            def make(k, v, C=C, R=R, T=T):
                return "%s(%s)" % (M(T, C, R), ", ".join("%s(%s)" % (V(T, R), ", ".join(v if c * R + q == k else "%s(0)" % T for q in range(R))) for c in range(C)))
            r += nan_items(M(T, C, R), T, C * R, make)
    return r
def run(chk, thorough):
    from ..typ import run_types
    run_types(chk, "comparison of special values", H + "#include <limits>\n", nans())
    run_wits(chk, "matrix elements", H, wits(thorough), chunk=50)
    chk.need("matrix elements", 1000)
