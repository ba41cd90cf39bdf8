from ..val import *
from itertools import permutations
VH = "#include <cstddef>\n#include <type_traits>\n#include <xme/math/vector.hpp>\nusing namespace xme::math;\n"
MH = "#include <cstddef>\n#include <algorithm>\n#include <type_traits>\n#include <xme/math/math.hpp>\nusing namespace xme::math;\n"
_n = [0]
def nm(p="w"):
    _n[0] += 1
    return "%s%d" % (p, _n[0])
def V(T, n): return "Vector<%s, %d>" % (T, n)
def M(T, c, r): return "Matrix<%s, %d, %d>" % (T, c, r)
def Q(T): return "Quaternion<%s>" % T
def comps(r, reg, T, n, exp, what="component %d"):
    for i in range(n):
        v, loc = out(r, reg, i * sz(T), T)
        yield what % i, v, exp(i), loc
def elems(r, reg, T, C, R, exp):
    """matrix: exp(c, r)"""
    for c in range(C):
        for q in range(R):
            v, loc = out(r, reg, (c * R + q) * sz(T), T)
            yield "column %d row %d" % (c, q), v, exp(c, q), loc
def untouched(r, regs):
    for g in regs:
        for off, c in r.mem.get(g, {}).items():
            yield "operand %s is not modified" % g, c[1], leaf("unmodified"), c[2]
def retptr(r, reg, exp, reg_to, desc):
    p, loc = out(r, reg, 0, "ptr")
    yield desc, p, leaf(P(reg_to, exp if isinstance(exp, Poly) else Poly.const(exp))), loc

def lex(o, T, n, op, a="a", b="b"):
    """lexicographic a op b over n elements, for op in < > <= >="""
    x, y = lambda i: o.el(a, i, T), lambda i: o.el(b, i, T)
    cmp = (lambda p, u, v: o.fcmp("o" + p, u, v)) if isf(T) else (lambda p, u, v: o.icmp(("s" if TY[T][1] else "u") + p, u, v))
    eq = (lambda u, v: o.fcmp("oeq", u, v)) if isf(T) else (lambda u, v: o.icmp("eq", u, v))
    s = "lt" if op[0] == "<" else "gt"
    e = TRUE if op.endswith("=") else FALSE
    for i in reversed(range(n)): e = OR(cmp(s, x(i), y(i)), AND(eq(x(i), y(i)), e))
    return e
def order_wits(W, CT, T, n, desc):
    for op in ("<", ">", "<=", ">="):
        def f(r, o, T=T, n=n, op=op):
            v, loc = out(r, "r", 0, "bool"); yield "", v, lex(o, T, n, op), loc
        W.append(Wit(nm(), "const %s& a, const %s& b, bool& r" % (CT, CT), "r = a %s b;" % op, [("a", lay(T)), ("b", lay(T)), ("r", ["bool"])], f, "%s %s" % (desc, op), exact=True))

def nan_items(CT, T, n, make):
    """constant-expression witnesses: a NaN component makes the value unequal and unordered, zeros of either sign are equal;
    make(k, v): C++ expression of a CT whose flat component k is v and whose others are 0"""
    from ..typ import TW
    L = "std::numeric_limits<%s>" % T
    out_ = []
    for k in range(n):
        N = make(k, L + "::quiet_NaN()"); Z = make(k, "%s(0)" % T); NZ = make(k, "-%s(0)" % T)
        out_.append(TW("%s with a NaN component %d" % (CT, k), "constexpr %s a = %s, z = %s, m = %s; static_assert(!(a == a)); static_assert(a != a); static_assert(!(a == z) && !(z == a)); "
                       "static_assert(!(a < a) && !(a <= a) && !(a > a) && !(a >= a)); static_assert(z == m && !(z < m) && z <= m);" % (CT, N, Z, NZ)))
    return out_
