from .mathlib import *
H = MH
def wits(thorough):
    W = []
    ft = ["float", "double"] + (["long double"] if thorough else [])
    for T in ft:
        for U in ft:
            reg = [("a", lay(T)), ("b", lay(U)), ("r", lay(T))]
            sig = "const %s& a, const %s& b, %s& r" % (Q(T), Q(U), Q(T))
            for op in "+-":
                def f(r, o, T=T, U=U, op=op):
                    yield from comps(r, "r", T, 4, lambda i: o.bin(op, o.el("a", i, T), o.conv(o.el("b", i, U), U, T), T)); yield from untouched(r, ["a", "b"])
                W.append(Wit(nm(), sig, "r = a %s b;" % op, reg, f, "%s %s %s" % (Q(T), op, Q(U))))
            def fm(r, o, T=T, U=U):
                a = [o.el("a", i, T) for i in range(4)]; b = [o.conv(o.el("b", i, U), U, T) for i in range(4)]
                m = lambda x, y: o.bin("*", x, y, T)
                def s(*ts):
                    acc = ts[0]
                    for k, t in ts[1:]: acc = o.bin(k, acc, t, T)
                    return acc
                W_ = s(m(a[0], b[0]), ("-", m(a[1], b[1])), ("-", m(a[2], b[2])), ("-", m(a[3], b[3])))
                X = s(m(a[0], b[1]), ("+", m(a[1], b[0])), ("+", m(a[2], b[3])), ("-", m(a[3], b[2])))
                Y = s(m(a[0], b[2]), ("-", m(a[1], b[3])), ("+", m(a[2], b[0])), ("+", m(a[3], b[1])))
                Z = s(m(a[0], b[3]), ("+", m(a[1], b[2])), ("-", m(a[2], b[1])), ("+", m(a[3], b[0])))
                yield from comps(r, "r", T, 4, lambda i: [W_, X, Y, Z][i]); yield from untouched(r, ["a", "b"])
            W.append(Wit(nm(), sig, "r = a * b;", reg, fm, "%s * %s" % (Q(T), Q(U))))
        for ats in ([T] * 4, ["int", "float", "double", "short"]):
            def fc(r, o, T=T, ats=ats): yield from comps(r, "r", T, 4, lambda i: o.conv(o.el("a%d" % i, 0, ats[i]), ats[i], T))
            W.append(Wit(nm(), ", ".join("%s a%d" % (t, i) for i, t in enumerate(ats)) + ", %s& r" % Q(T), "r = %s(a0, a1, a2, a3);" % Q(T), [("a%d" % i, ("val", t)) for i, t in enumerate(ats)] + [("r", lay(T))], fc, "%s(%s)" % (Q(T), ", ".join(ats)), exact=True))
        for cst in ("", "const "):
            for i in range(4):
                for ex in ("a[%d]" % i, "a.%s" % "wxyz"[i]):
                    def fi(r, o, i=i, T=T): yield from retptr(r, "r", i * sz(T), "a", "")
                    W.append(Wit(nm(), "%s%s& a, const %s*& r" % (cst, Q(T), T), "r = &%s;" % ex, [("a", lay(T)), ("r", ["p"])], fi, "&%s%s: %s" % (cst, Q(T), ex)))
            for i in range(4):
                def fs(r, o, T=T, i=i): yield from retptr(r, "r", i * sz(T), "a", "")
                W.append(Wit(nm(), "%s%s& a, std::size_t i, const %s*& r" % (cst, Q(T), T), "r = &a[i];", [("a", lay(T)), ("i", ("valk", "std::size_t", i)), ("r", ["p"])], fs, "&%s%s[i] for a run-time i of %d" % (cst, Q(T), i)))
        order_wits(W, Q(T), T, 4, Q(T))
        for eq in ("==", "!="):
            def fe(r, o, T=T, eq=eq):
                e = TRUE
                for i in range(4): e = AND(e, o.fcmp("oeq", o.el("a", i, T), o.el("b", i, T)))
                v, loc = out(r, "r", 0, "bool"); yield "", v, e if eq == "==" else NOT(e), loc
            W.append(Wit(nm(), "const %s& a, const %s& b, bool& r" % (Q(T), Q(T)), "r = a %s b;" % eq, [("a", lay(T)), ("b", lay(T)), ("r", ["bool"])], fe, "%s %s" % (Q(T), eq)))
    for args, T in (("int", "float"), ("float", "float"), ("double", "double"), ("long", "float")):
        def fd(r, o, args=args, T=T): yield from comps(r, "r", T, 4, lambda i: o.conv(o.el("a%d" % i, 0, args), args, T))
        W.append(Wit(nm(), ", ".join("%s a%d" % (args, i) for i in range(4)) + ", %s& r" % Q(T), "auto q = Quaternion(a0, a1, a2, a3); static_assert(std::is_same_v<decltype(q), %s>); r = q;" % Q(T), [("a%d" % i, ("val", args)) for i in range(4)] + [("r", lay(T))], fd, "Quaternion(%s x4) deduced" % args, exact=True))
    return W
def run(chk, thorough):
    from ..typ import run_types
    its = [x for T in ("float", "double") for x in nan_items(Q(T), T, 4, lambda k, v: "%s(%s)" % (Q(T), ", ".join(v if i == k else "%s(0)" % T for i in range(4))))]
    run_types(chk, "comparison of special values", H + "#include <limits>\n#include <xme/math/quaternion.hpp>\n", its)
    run_wits(chk, "quaternion", H, wits(thorough), chunk=15)
    chk.need("quaternion", 100)
