from .mathlib import *
H = VH

def wits(thorough):
    W = []
    types = ["float", "double", "int", "unsigned", "short", "unsigned char", "long"]
    sizes = [2, 3, 4, 1, 5, 6, 7, 8, 9, 12]
    full = {("float", "float"), ("double", "double"), ("int", "int"), ("unsigned", "unsigned"), ("short", "short"), ("unsigned char", "unsigned char"), ("long", "long"),
            ("float", "double"), ("float", "int"), ("int", "float"), ("double", "float"), ("int", "short"), ("unsigned char", "int"), ("long", "int"), ("int", "double")}
    if thorough:
        full |= {(a, b) for a in types + ["long double", "signed char"] for b in types + ["long double", "signed char"]}
    for n in sizes:
        for T, U in sorted(full):
            if n == 1 and T != U: continue
            if n > 5 and T != U and not thorough: continue
            if n > 5 and T not in ("float", "int", "unsigned char") and not thorough: continue
            for op in "+-*/":
                def mk_(form, vec, T=T, U=U, n=n, op=op):
                    def chk(r, o):
                        rhs = (lambda i: o.conv(o.el("b", i, U), U, T)) if vec else (lambda i: o.conv(o.el("s", 0, U), U, T))
                        exp = lambda i: o.bin(op, o.el("a", i, T), rhs(i), T)
                        yield from comps(r, "r" if form == "bin" else "a", T, n, exp)
                        yield from untouched(r, (["a"] if form == "bin" else []) + (["b"] if vec else []))
                        if form == "cmp":
                            p, loc = out(r, "r", 0, "ptr")
                            yield "returns its left operand", p, leaf(P("a", ZERO)), loc
                    b = "const %s& b" % V(U, n) if vec else "%s b" % U
                    breg = ("b", lay(U)) if vec else ("s", ("val", U))
                    if form == "bin":
                        return Wit(nm(), "const %s& a, %s, %s& r" % (V(T, n), b, V(T, n)), "r = a %s b;" % op,
                                   [("a", lay(T)), breg, ("r", lay(T))], chk, "%s %s %s" % (V(T, n), op, V(U, n) if vec else U), exact=True)
                    return Wit(nm(), "%s& a, %s, %s*& r" % (V(T, n), b, V(T, n)), "r = &(a %s= b);" % op,
                               [("a", lay(T)), breg, ("r", ["p"])], chk, "%s %s= %s" % (V(T, n), op, V(U, n) if vec else U), exact=True)
                for form in ("bin", "cmp"):
                    for vec in (True, False):
                        if n == 1 and not vec: continue
                        W.append(mk_(form, vec))
        for T in types + (["long double", "signed char"] if thorough else []):
            if n > 5 and T not in ("float", "int") and not thorough: continue
            def neg(r, o, T=T, n=n):
                yield from comps(r, "r", T, n, lambda i: o.neg(o.el("a", i, T), T))
                yield from untouched(r, ["a"])
            W.append(Wit(nm(), "const %s& a, %s& r" % (V(T, n), V(T, n)), "r = -a;", [("a", lay(T)), ("r", lay(T))], neg, "-" + V(T, n), exact=True))
            for eq in ("==", "!="):
                def eqf(r, o, T=T, n=n, eq=eq):
                    e = TRUE
                    for i in range(n):
                        e = AND(e, o.fcmp("oeq", o.el("a", i, T), o.el("b", i, T)) if isf(T) else o.icmp("eq", o.el("a", i, T), o.el("b", i, T)))
                    v, loc = out(r, "r", 0, "bool")
                    yield "", v, (e if eq == "==" else NOT(e)), loc
                W.append(Wit(nm(), "const %s& a, const %s& b, bool& r" % (V(T, n), V(T, n)), "r = a %s b;" % eq, [("a", lay(T)), ("b", lay(T)), ("r", ["bool"])], eqf, "%s %s" % (V(T, n), eq), exact=True))
            if T in ("float", "int", "unsigned", "short") and n <= 5: order_wits(W, V(T, n), T, n, V(T, n))
            # operand aliasing: the result may be assigned over an operand, an operand may be both sides
            for op in "+-*/":
                def self_(r, o, T=T, n=n, op=op):
                    yield from comps(r, "a", T, n, lambda i: o.bin(op, o.el("a", i, T), o.el("a", i, T), T))
                W.append(Wit(nm(), "%s& a" % V(T, n), "a %s= a;" % op, [("a", lay(T))], self_, "a %s= a for %s" % (op, V(T, n)), exact=True))
                if n > 1:
                    def selfs(r, o, T=T, n=n, op=op):
                        yield from comps(r, "a", T, n, lambda i: o.bin(op, o.el("a", i, T), o.el("a", 0, T), T))
                    W.append(Wit(nm(), "%s& a" % V(T, n), "a %s= a[0];" % op, [("a", lay(T))], selfs, "a %s= a[0] for %s" % (op, V(T, n)), exact=True))
                    def selfl(r, o, T=T, n=n, op=op):
                        yield from comps(r, "a", T, n, lambda i: o.bin(op, o.el("a", i, T), o.el("a", n - 1, T), T))
                    W.append(Wit(nm(), "%s& a" % V(T, n), "a %s= a[%d];" % (op, n - 1), [("a", lay(T))], selfl, "a %s= a[%d] for %s" % (op, n - 1, V(T, n)), exact=True))
    return W

def nans(thorough):
    from .mathlib import nan_items
    r = []
    for T in ("float", "double"):
        for n in (2, 3, 4, 5) + ((8,) if thorough else ()):
            r += nan_items(V(T, n), T, n, lambda k, v: "%s(%s)" % (V(T, n), ", ".join(v if i == k else "%s(0)" % T for i in range(n))))
    return r
def run(chk, thorough):
    from ..typ import run_types
    run_types(chk, "comparison of special values", H + "#include <limits>\n", nans(thorough))
    run_wits(chk, "componentwise", H, wits(thorough), chunk=60)
    chk.need("componentwise", 2000)
