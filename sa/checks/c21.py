from .mathlib import *
from ..typ import TW, run_types
H = """#include <string>
#include <memory>
#include <functional>
#include <xme/container/tuple.hpp>
#include <xme/container/pair.hpp>
template<class T, class U> constexpr bool same = std::is_same_v<T, U>;
struct S { int v; }; struct M { M(); M(M&&) noexcept; M& operator=(M&&) noexcept; }; struct Th { Th(); Th(const Th&); Th& operator=(const Th&); };
"""
CAT = [("&", "std::declval<X&>()", 0, 0), ("const&", "std::declval<const X&>()", 1, 0), ("&&", "std::declval<X>()", 0, 1), ("const&&", "std::declval<const X>()", 1, 1)]
def collapse(T, const, rv):
    """type of get on an element declared T"""
    if T.endswith("&&"): return T if rv else T[:-1]
    if T.endswith("&"): return T
    t = T + " const" if const and not T.startswith("const ") else T
    return t + ("&&" if rv else "&")
ELS = ["int", "S", "int&", "const S&", "int&&", "int*", "const S", "std::unique_ptr<int>", "double&", "std::string"]
MODES = [((), ()), (("-std=c++23",), ("__cpp_explicit_this_parameter=202110L",))]
def types():
    W = []
    for fl, df in MODES:
        md = " (C++23 deducing this)" if fl else ""
        for n in (1, 2, 3, 5):
            for rot in range(0, len(ELS), 1 if n > 1 else 1):
                ts = [ELS[(rot + 3 * k) % len(ELS)] for k in range(n)]
                X = "xme::Tuple<%s>" % ", ".join(ts)
                c = "using X = %s; " % X
                for cat, obj, k, rv in CAT:
                    for i, t in enumerate(ts):
                        c += "static_assert(same<decltype(get<%d>(%s)), %s>); " % (i, obj, collapse(t, k, rv))
                        c += "static_assert(same<decltype(%s[std::integral_constant<std::size_t, %d>{}]), %s>); " % (obj, i, collapse(t, k, rv))
                for i, t in enumerate(ts): c += "static_assert(same<std::tuple_element_t<%d, X>, %s>); " % (i, t)
                c += "static_assert(std::tuple_size_v<X> == %d && std::tuple_size_v<const X> == %d && X::size == %d); static_assert(xme::CTupleLike<X> && xme::CTupleLike<const X&>);" % (n, n, n)
                W.append(TW("element types of Tuple<%s>%s" % (", ".join(ts), md), c, flags=fl, defs=df))
                if n == 2:
                    W.append(TW("element types of Pair<%s>%s" % (", ".join(ts), md), c.replace("xme::Tuple<", "xme::Pair<").replace(" && X::size == 2", "") + "static_assert(same<decltype(X::first), %s> && same<decltype(X::second), %s>);" % tuple(ts), flags=fl, defs=df))
        W.append(TW("forwarding functions" + md, """using X = decltype(xme::tie(std::declval<int&>(), std::declval<const S&>())); static_assert(same<X, xme::Tuple<int&, const S&>>);
            static_assert(same<decltype(xme::make_tuple(1, std::declval<const S&>(), "abc", std::ref(std::declval<int&>()), std::cref(std::declval<S&>()))), xme::Tuple<int, S, const char*, int&, const S&>>);
            static_assert(same<decltype(xme::make_pair(std::declval<const S&>(), std::ref(std::declval<int&>()))), xme::Pair<S, int&>>);
            static_assert(same<decltype(xme::forward_as_tuple(1, std::declval<S&>(), std::declval<const S&>(), std::declval<const S>())), xme::Tuple<int&&, S&, const S&, const S&&>>);
            static_assert(same<decltype(xme::Tuple{1, S{}, std::ref(std::declval<int&>())}), xme::Tuple<int, S, int&>>); static_assert(same<decltype(xme::Pair{1, S{}}), xme::Pair<int, S>>);""", flags=fl, defs=df))
        cats = [("", "xme::Tuple<>"), ("xme::Tuple<int, S&>", "xme::Tuple<int, S&>"), ("xme::Tuple<int>&, const xme::Tuple<S, long>&", "xme::Tuple<int, S, long>"), ("xme::Tuple<>, xme::Tuple<int>, xme::Tuple<>, xme::Tuple<double, char>, xme::Tuple<short>", "xme::Tuple<int, double, char, short>"),
                ("xme::Pair<int, S>, xme::Tuple<char>", "xme::Tuple<int, S, char>"), ("xme::Tuple<std::unique_ptr<int>>, xme::Pair<M, int&>&&", "xme::Tuple<std::unique_ptr<int>, M, int&>")]
        for a, r in cats:
            W.append(TW("tuple_cat(%s)%s" % (a, md), "static_assert(same<decltype(xme::tuple_cat(%s)), %s>); inline auto f() { return &xme::tuple_cat<%s>; }" % (", ".join("std::declval<%s>()" % x.strip() for x in a.split(", xme") if False) if not a else ", ".join("std::declval<%s>()" % x for x in split(a)), r, a), flags=fl, defs=df))
        for cat, obj, k, rv in CAT:
            for cont in ("xme::Tuple<int, S&, std::string>", "xme::Tuple<>", "xme::Pair<S, int&&>"):
                ts = split(cont[cont.index("<") + 1:-1])
                W.append(TW("apply on %s %s%s" % (cont, cat, md), "template<class... T> struct L {}; struct F { template<class... T> L<T&&...> operator()(T&&...) const; }; using X = %s; static_assert(same<decltype(xme::apply(F{}, %s)), L<%s>>);" % (cont, obj, ", ".join(collapse(t, k, rv) for t in ts)), flags=fl, defs=df))
        W.append(TW("apply keeps the result type and noexcept" + md, """using X = xme::Tuple<int>; struct R { int& operator()(int&) noexcept; const int operator()(const int&) noexcept(false); };
            static_assert(same<decltype(xme::apply(R{}, std::declval<X&>())), int&>); static_assert(noexcept(xme::apply(std::declval<R&>(), std::declval<X&>()))); static_assert(!noexcept(xme::apply(std::declval<R&>(), std::declval<const X&>())));""", flags=fl, defs=df))
        for d, c in (
            ("apply calls the callable with its own category", "struct Q { int operator()(int)&; long operator()(int) const&; short operator()(int)&&; char operator()(int) const&&; }; using X = xme::Tuple<int>&; static_assert(same<decltype(xme::apply(std::declval<Q&>(), std::declval<X>())), int>); static_assert(same<decltype(xme::apply(std::declval<const Q&>(), std::declval<X>())), long>); static_assert(same<decltype(xme::apply(Q{}, std::declval<X>())), short>); static_assert(same<decltype(xme::apply(std::declval<const Q>(), std::declval<X>())), char>);"),
            ("apply calls a callable that is only callable as an rvalue", "struct Q { int operator()(int)&&; }; inline int f(xme::Tuple<int>& t) { return xme::apply(Q{}, t); }"),
            ("deduction unwraps reference wrappers and decays", "inline int i; struct S {}; static_assert(same<decltype(xme::Pair(std::ref(i), 1L)), xme::Pair<int&, long>>); static_assert(same<decltype(xme::Pair(1L, std::cref(i))), xme::Pair<long, const int&>>); static_assert(same<decltype(xme::Pair(\"ab\", S{})), xme::Pair<const char*, S>>); static_assert(same<decltype(xme::Tuple{std::ref(i), 1L, std::cref(i), \"ab\"}), xme::Tuple<int&, long, const int&, const char*>>); static_assert(same<decltype(xme::make_pair(std::ref(i), \"ab\")), xme::Pair<int&, const char*>>); static_assert(same<decltype(xme::make_tuple(std::ref(i), \"ab\")), xme::Tuple<int&, const char*>>);"),
            ("swap uses the elements' own swap", "struct A { A() = default; A(A&&) = delete; friend void swap(A&, A&) noexcept {} }; inline void f(xme::Tuple<int, A>& t, xme::Tuple<int, A>& u, xme::Pair<A, A>& p, xme::Pair<A, A>& q) { t.swap(u); xme::swap(t, u); p.swap(q); xme::swap(p, q); }"),
            ("elements that are only equality comparable", "struct A { bool operator==(const A&) const = default; }; inline bool f(const xme::Tuple<int, A>& t, const xme::Pair<A, int>& p) { return t == t && p == p && !(t != t) && !(p != p); }"),
            ("the common type is taken element by element", "static_assert(same<std::common_type_t<xme::Tuple<int, float>, xme::Tuple<long, double>>, xme::Tuple<long, double>>); static_assert(same<std::common_type_t<xme::Tuple<long, float>, xme::Tuple<int, double>>, xme::Tuple<long, double>>);"),
            ("the common reference is taken element by element, with the tuples' qualifiers", "struct B {}; struct Dv : B {}; static_assert(same<std::common_reference_t<xme::Tuple<B, int>&, xme::Tuple<Dv, long>&>, xme::Tuple<B&, long>>); static_assert(same<std::common_reference_t<xme::Tuple<B, int>&, const xme::Tuple<Dv, long>&>, xme::Tuple<const B&, long>>); static_assert(same<std::common_reference_t<xme::Tuple<Dv>&, xme::Tuple<B>&>, xme::Tuple<B&>>);")):
            W.append(TW(d + md, c, flags=fl, defs=df))
        W.append(TW("swap and assignment noexcept" + md, """struct NS { NS(NS&&) noexcept; NS& operator=(NS&&) noexcept; }; struct TS { TS(TS&&); TS& operator=(TS&&); };
            static_assert(noexcept(std::declval<xme::Tuple<int, NS>&>().swap(std::declval<xme::Tuple<int, NS>&>()))); static_assert(!noexcept(std::declval<xme::Tuple<int, TS>&>().swap(std::declval<xme::Tuple<int, TS>&>())));
            static_assert(noexcept(xme::swap(std::declval<xme::Pair<int, NS>&>(), std::declval<xme::Pair<int, NS>&>()))); static_assert(!noexcept(xme::swap(std::declval<xme::Pair<TS, int>&>(), std::declval<xme::Pair<TS, int>&>())));
            static_assert(!std::is_nothrow_assignable_v<xme::Pair<std::string, int>&, xme::Pair<const char*, int>>); static_assert(std::is_nothrow_assignable_v<xme::Pair<long, int>&, xme::Pair<int, int>>);""", flags=fl, defs=df))
    return W
def split(a):
    out = []; d = 0; cur = ""
    for ch in a:
        d += (ch == "<") - (ch == ">")
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
HV = """#include <xme/container/tuple.hpp>
#include <xme/container/pair.hpp>
extern "C" void cc(const void*, const void*); extern "C" void mc(const void*, const void*); extern "C" void ca(const void*, const void*); extern "C" void ma(const void*, const void*);
struct E { int v; E() = default; E(int x) : v(x) {} E(const E& o) : v(o.v) { cc(this, &o); } E(E&& o) noexcept : v(o.v) { mc(this, &o); } E& operator=(const E& o) { v = o.v; ca(this, &o); return *this; } E& operator=(E&& o) noexcept { v = o.v; ma(this, &o); return *this; } };
extern "C" void sink(int, int, int, int);
"""
I32 = ["i", 32]
def wits():
    W = []
    A = ["a", "b", "c", "d", "e"]
    vals = [(x, ("val", "int")) for x in A]
    def body(n, kind="Tuple"): return "xme::%s<%s>" % (kind, ", ".join(["int"] * n))
    for kind, ns in (("Tuple", (1, 2, 3, 4, 5)), ("Pair", (2,))):
        for n in ns:
            T = body(n, kind); init = ", ".join(A[:n]); sig = ", ".join("int " + x for x in A[:n])
            # construction then get
            for how, txt in [("construction", "%s t{%s};" % (T, init)), ("copy", "%s t0{%s}; auto t = t0;" % (T, init)), ("assignment", "%s t0{%s}; %s t; t = t0;" % (T, init, T)), ("move assignment", "%s t0{%s}; %s t; t = std::move(t0);" % (T, init, T)),
                             ("make_" + kind.lower(), "auto t = xme::make_%s(%s);" % (kind.lower(), init))] + \
                            ([("tie", "auto t0 = xme::tie(%s); %s t = t0;" % (init, T)), ("forward_as_tuple", "%s t = xme::forward_as_tuple(%s);" % (T, init)), ("deduction", "xme::Tuple t{%s};" % init)] if kind == "Tuple" else [("deduction", "xme::Pair t{%s};" % init)]) + \
                            ([("converting assignment", "xme::%s<%s> t0{%s}; %s t; t = t0;" % (kind, ", ".join(["long"] * n), init, T)), ("converting move assignment", "xme::%s<%s> t0{%s}; %s t; t = std::move(t0);" % (kind, ", ".join(["short"] * n), ", ".join("(short)" + x for x in A[:n]), T))] if n > 1 or kind == "Tuple" else []):
                def f(r, o, n=n, how=how):
                    for i in range(n):
                        v, loc = out(r, "r", 4 * i, "int")
                        w = o.el(A[i], 0, "int")
                        if "short" in how or how == "converting move assignment": w = o.conv(o.conv(w, "int", "short"), "short", "int")
                        yield "element %d" % i, v, w, loc
                W.append(Wit(nm(), sig + ", int* r", txt + "".join(" r[%d] = get<%d>(t);" % (i, i) for i in range(n)), vals[:n] + [("r", I32)], f, "%s of %s: get" % (how, T)))
            # get designates a distinct element: writing one leaves the others
            for i in range(n):
                def f(r, o, n=n, i=i):
                    for j in range(n):
                        v, loc = out(r, "r", 4 * j, "int"); yield "element %d after writing element %d" % (j, i), v, o.el("x" if i == j else A[j], 0, "int"), loc
                W.append(Wit(nm(), sig + ", int x, int* r", "%s t{%s}; get<%d>(t) = x;" % (T, init, i) + "".join(" r[%d] = get<%d>(std::as_const(t));" % (k, k) for k in range(n)), vals[:n] + [("x", ("val", "int")), ("r", I32)], f, "get<%d> of %s is a distinct element" % (i, T)))
            # swap
            for how in ("t.swap(u)", "xme::swap(t, u)"):
                def f(r, o, n=n):
                    for j in range(n):
                        v, loc = out(r, "r", 4 * j, "int"); yield "element %d of the left" % j, v, o.el("q", j, "int"), loc
                        v, loc = out(r, "s", 4 * j, "int"); yield "element %d of the right" % j, v, o.el(A[j], 0, "int"), loc
                W.append(Wit(nm(), sig + ", const int* q, int* r, int* s", "%s t{%s}; %s u{%s}; %s;" % (T, init, T, ", ".join("q[%d]" % k for k in range(n)), how) + "".join(" r[%d] = get<%d>(t); s[%d] = get<%d>(u);" % (k, k, k, k) for k in range(n)),
                             vals[:n] + [("q", I32), ("r", I32), ("s", I32)], f, "%s of %s" % (how, T)))
            # comparison
            for op in ("==", "!=", "<", ">", "<=", ">="):
                def f(r, o, n=n, op=op):
                    v, loc = out(r, "r", 0, "bool")
                    eq = TRUE; lt = FALSE; gt = FALSE
                    for j in range(n):
                        x, y = o.el(A[j], 0, "int"), o.el("q", j, "int")
                        lt = OR(lt, AND(eq, o.icmp("slt", x, y))); gt = OR(gt, AND(eq, o.icmp("sgt", x, y))); eq = AND(eq, o.icmp("eq", x, y))
                    e = {"==": eq, "!=": NOT(eq), "<": lt, ">": gt, "<=": OR(lt, eq), ">=": OR(gt, eq)}[op]
                    yield "is lexicographic", v, e, loc
                W.append(Wit(nm(), sig + ", const int* q, bool& r", "%s t{%s}; %s u{%s}; r = t %s u;" % (T, init, T, ", ".join("q[%d]" % k for k in range(n)), op), vals[:n] + [("q", I32), ("r", ["i", 8])], f, "%s %s %s" % (T, op, T)))
            # conversion
            if n > 1 or kind == "Tuple":
                if kind == "Tuple":
                    def f(r, o, n=n):
                        for i in range(n):
                            v, loc = out(r, "r", 8 * i, "long"); yield "element %d" % i, v, o.conv(o.el(A[i], 0, "int"), "int", "long"), loc
                    W.append(Wit(nm(), sig + ", long* r", "const %s t{%s}; xme::Tuple<%s> u = t;" % (T, init, ", ".join(["long"] * n)) + "".join(" r[%d] = get<%d>(u);" % (k, k) for k in range(n)), vals[:n] + [("r", ["i", 64])], f, "conversion of %s" % T))
                    def f(r, o, n=n):
                        for i in range(n):
                            v, loc = out(r, "r", 4 * i, "int"); yield "member %d" % i, v, o.el(A[i], 0, "int"), loc
                    W.append(Wit(nm(), sig + ", int* r", "struct Ag { %s }; const %s t{%s}; Ag u = t;" % (" ".join("int m%d;" % k for k in range(n)), T, init) + "".join(" r[%d] = u.m%d;" % (k, k) for k in range(n)), vals[:n] + [("r", I32)], f, "conversion of %s to an aggregate" % T))
            # apply
            if n <= 4:
                def f(r, o, n=n):
                    s = [e for e in r.events if e.name == "sink"]
                    yield "the callable is called exactly once", leaf(len(s)), leaf(1), None
                    if len(s) == 1:
                        for i in range(n): yield "argument %d" % i, s[0].args[i], o.el(A[i], 0, "int"), s[0].loc
                for c in ("t", "std::as_const(t)", "std::move(t)"):
                    W.append(Wit(nm(), sig, "%s t{%s}; xme::apply([](auto&&... x) { %s }, %s);" % (T, init, "[](int p, int q = 0, int r = 0, int s = 0) { sink(p, q, r, s); }(x...);", c), vals[:n], f, "apply on %s (%s)" % (T, c)))
    # tuple_cat: order and element identity
    for shape in [(1, 1), (2, 3), (3, 2), (0, 2), (2, 0, 1), (1, 1, 1, 1), (1, 0, 2, 2), (2,), (5,), ("P", 1), (1, "P"), ("P", "P", 1)]:
        k = 0; objs = []; names = []
        for i, m in enumerate(shape):
            cnt = 2 if m == "P" else m
            objs.append("xme::%s<%s> t%d{%s};" % ("Pair" if m == "P" else "Tuple", ", ".join(["int"] * cnt), i, ", ".join("a[%d]" % (k + j) for j in range(cnt)))); k += cnt
        for mv in ("t%d", "std::move(t%d)", "std::as_const(t%d)"):
            def f(r, o, k=k):
                for i in range(k):
                    v, loc = out(r, "r", 4 * i, "int"); yield "element %d" % i, v, o.el("a", i, "int"), loc
            W.append(Wit(nm(), "const int* a, int* r", " ".join(objs) + " auto x = xme::tuple_cat(%s); static_assert(decltype(x)::size == %d);" % (", ".join(mv % i for i in range(len(shape))), k) + "".join(" r[%d] = get<%d>(x);" % (i, i) for i in range(k)), [("a", I32), ("r", I32)], f, "tuple_cat of shapes %s (%s)" % (shape, mv % 0)))
    # elements are moved at most once, and only from rvalues
    def ev(r): return [(e.name, e.args) for e in r.events if e.name in ("cc", "mc", "ca", "ma")]
    def exp_events(want):
        """want: list of (name, source offset in region s, destination (region, offset) or None)"""
        def f(r, o):
            es = [e for e in r.events if e.name in ("cc", "mc", "ca", "ma")]
            got = sorted((e.name, off(e.args[1], "s")) for e in es)
            yield "copies and moves (kind, source element)", leaf(tuple(got)), leaf(tuple(sorted((k, s) for k, s, _ in want))), es[0].loc if es else None
            for k, s, d in want:
                if d is None: continue
                m = [e for e in es if off(e.args[1], "s") == s]
                if len(m) == 1: yield "destination of element %d" % (s // 4), m[0].args[0], leaf(P(d[0], Poly.const(d[1]))), m[0].loc
        return f
    def off(d, reg):
        if isinstance(d, list) or d.var is not None or not isinstance(d.leaf, P) or d.leaf.reg != reg or not d.leaf.off.is_const(): return "other"
        return int(d.leaf.off.cval())
    reg2 = [("s", I32), ("d", I32)]
    for cont in ("xme::Tuple<E, E, E>", "xme::Pair<E, E>"):
        n = 3 if "Tuple" in cont else 2
        sig = "%s& s, %s& d" % (cont, cont)
        for txt, k, dst in [("new(&d) %s(s);" % cont, "cc", 1), ("new(&d) %s(std::move(s));" % cont, "mc", 1), ("d = s;", "ca", 1), ("d = std::as_const(s);", "ca", 1), ("d = std::move(s);", "ma", 1)]:
            W.append(Wit(nm(), sig, txt, reg2, exp_events([(k, 4 * i, ("d", 4 * i)) for i in range(n)]), "element operations of '%s' on %s" % (txt.replace(cont, ""), cont)))
        if n == 2:
            W.append(Wit(nm(), "xme::Tuple<E, E>& s, %s& d" % cont, "d = std::move(s);", reg2, exp_events([("ma", 0, ("d", 0)), ("ma", 4, ("d", 4))]), "Pair assigned from an rvalue Tuple"))
            W.append(Wit(nm(), "xme::Tuple<E, E>& s, %s& d" % cont, "d = s;", reg2, exp_events([("ca", 0, ("d", 0)), ("ca", 4, ("d", 4))]), "Pair assigned from an lvalue Tuple"))
            W.append(Wit(nm(), "%s& s, xme::Tuple<E, E>& d" % cont, "d = std::move(s);", reg2, exp_events([("ma", 0, ("d", 0)), ("ma", 4, ("d", 4))]), "Tuple assigned from an rvalue Pair"))
            W.append(Wit(nm(), "%s& s, xme::Tuple<E, E>& d" % cont, "d = std::as_const(s);", reg2, exp_events([("ca", 0, ("d", 0)), ("ca", 4, ("d", 4))]), "Tuple assigned from a const Pair"))
    for txt, k in [("s", "cc"), ("std::move(s)", "mc"), ("std::as_const(s)", "cc")]:
        W.append(Wit(nm(), "xme::Tuple<E, E>& s, xme::Tuple<E, E, int>& d", "xme::Tuple<int> t{1}; new(&d) xme::Tuple<E, E, int>(xme::tuple_cat(%s, t));" % txt, reg2, exp_events([(k, 0, None), (k, 4, None)]), "elements taken by tuple_cat(%s, ...)" % txt))
        W.append(Wit(nm(), "E& s, E& d", "auto t = xme::make_tuple(%s);" % txt, reg2, exp_events([(k, 0, None)]), "elements taken by make_tuple(%s)" % txt))
        W.append(Wit(nm(), "E& s, E& d", "auto t = xme::make_pair(1, %s);" % txt, reg2, exp_events([(k, 0, None)]), "elements taken by make_pair(1, %s)" % txt))
        W.append(Wit(nm(), "E& s, E& d", "auto t = xme::forward_as_tuple(%s);" % txt, reg2, exp_events([]), "forward_as_tuple(%s) takes no element" % txt))
    for txt, src in (("lvalue Tuple", "xme::Tuple<int, int> t{x, y}; xme::tie(r[0], r[1]) = t;"), ("rvalue Tuple", "xme::tie(r[0], r[1]) = xme::Tuple<int, int>{x, y};"), ("Pair", "xme::tie(r[0], r[1]) = xme::Pair<int, int>{x, y};")):
        def f(r, o):
            for j, a in enumerate("xy"):
                v, loc = out(r, "r", 4 * j, "int"); yield "referent %d" % j, v, o.el(a, 0, "int"), loc
        W.append(Wit(nm(), "int x, int y, int* r", src, [("x", ("val", "int")), ("y", ("val", "int")), ("r", I32)], f, "assignment to tie from " + txt))
    for kind in ("Tuple", "Pair"):
        def f(r, o):
            for j, (a, b) in enumerate((("p", "q"), ("q", "p"))):
                for k in (0, 1):
                    v, loc = out(r, a, 4 * k, "int"); yield "referent %d of the %s" % (k, "left" if j == 0 else "right"), v, o.el(b, k, "int"), loc
        W.append(Wit(nm(), "int* p, int* q", "xme::%s<int&, int&> t{p[0], p[1]}, u{q[0], q[1]}; t.swap(u);" % kind, [("p", I32), ("q", I32)], f, "swap of references in a " + kind))
    W.append(Wit(nm(), "E& s, E& d", "auto t = xme::tie(s, d);", reg2, exp_events([]), "tie takes no element"))
    def f(r, o): yield from retptr(r, "r", 0, "s", "get<0> of tie designates the object")
    W.append(Wit(nm(), "E& s, E& d, E*& r", "auto t = xme::tie(s, d); r = &get<0>(t);", reg2 + [("r", ["p"])], f, "tie"))
    def f(r, o): yield from retptr(r, "r", 0, "d", "get<1> of forward_as_tuple designates the object")
    W.append(Wit(nm(), "E& s, E& d, const E*& r", "auto t = xme::forward_as_tuple(std::move(s), std::move(d)); auto&& q = get<1>(std::move(t)); r = &q;", reg2 + [("r", ["p"])], f, "forward_as_tuple"))
    return W
def run(chk, thorough):
    run_types(chk, "element category (types)", H, types())
    run_wits(chk, "element mapping (values)", HV, wits())
    chk.need("element category (types)", 100); chk.need("element mapping (values)", 300)
