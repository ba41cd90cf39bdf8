"""C24: ArrayView. Every way to make a view and every subview designate the requested elements of the storage, for all sizes,
offsets and counts; in an assertion build a request outside the view never produces a view; static extents reject it."""
from .itlib import *
from ..typ import TW, run_types, errs
R1 = "a view designates exactly the elements it was given"
R2 = "a subview designates exactly the requested elements"
R3 = "a request outside the view is rejected by the assertion, one inside is not"
R4 = "a request outside a static extent is rejected by the compiler, one inside is accepted"
R5 = "extents, element types and conversions"
M = L.v("m")
HDR = ITERS + r'''
#include <span>
#include <array>
#include <xme/container/array_view.hpp>
#include <xme/container/array.hpp>
template<class T, std::size_t N = static_cast<std::size_t>(-1)> using V = xme::ArrayView<T, N>;
struct B12 { int a, b, c; }; struct B20 : B12 { int d, e; };
static_assert(sizeof(B12) == 12);
'''
ESIZE = {"int": 4, "char": 1, "B12": 12, "E": ESZ, "double": 8, "short": 2}
class Dbg(Interp):
    def x___assert_fail(self, st, i, a): raise Terminate()
def base(T): return T.replace("const ", "")
def esz(T): return ESIZE[base(T)]
def state(T, size=None, so=1, sc=1, valid=None, lim=1 << 40, unrelated=False):
    """p = a + i, m elements from there; offset o and count c of the given signs (negative: 2^64 - x)"""
    def init():
        st = State(); e = esz(T)
        for x in ("n", "i", "m", "o", "c"): st.cons.add_ge(L.v(x)); st.cons.add_ge(-L.v(x) + (lim if x in "nim" else 1 << 62))
        if so < 0: st.cons.add_ge(L.v("o") + (-1))
        if sc < 0: st.cons.add_ge(L.v("c") + (-1))
        m = M if size is None else L.k(size)
        if size is not None and not unrelated: st.cons.add_eq(M - size)
        st.cons.add_ge(N - i_ - M); st.cons.add_ge(N - i_ - m)
        o, c = L.v("o") * so, L.v("c") * sc
        if valid:
            for x in valid(o, c, m): st.cons.add_ge(x)
        region(st, "a", e, N)
        return st, [Pt("a", i_ * e), I(M), I(o), I(c)], ["n", "i", "m", "o", "c"]
    return init
def dbg_post(valid, exp):
    """valid: list of expressions that must all be >= 0; exp: post condition of an accepted request"""
    def post(o, it):
        ok = all(o.st.ge(v) for v in valid)
        if o.kind == "term": return [("content", "rejects a request inside the view")] if ok else []
        if not ok: return [("content", "accepts a request outside the view")]
        return exp(o, it)
    return post
def suite_release():
    S = Suite(HDR); Sg = "(%s* p, std::size_t m, std::size_t o, std::size_t c)"
    def obs(rule, desc, T, view, init, first, count, elem=None, outT=None, pre=""):
        """all the observers of one view"""
        e = elem or esz(T)
        b, n = first, count
        for d, body, post in (("data", "return (const volatile void*)v.data();", ptr_is(b)), ("begin", "return (const volatile void*)std::to_address(v.begin());", ptr_is(b)), ("end", "return (const volatile void*)std::to_address(v.end());", ptr_is(b + n * e)),
                              ("const begin", "const auto& w = v; return (const volatile void*)std::to_address(w.begin());", ptr_is(b)), ("const end", "const auto& w = v; return (const volatile void*)std::to_address(w.end());", ptr_is(b + n * e)), ("const data", "const auto& w = v; return (const volatile void*)w.data();", ptr_is(b)), ("data of a copy", "auto w = v; return (const volatile void*)w.data();", ptr_is(b)), ("end after assignment", "auto w = v; auto u = w; u = v; return (const volatile void*)u.end();", ptr_is(b + n * e))):
            S.add(rule, "%s: %s" % (desc, d), S.fn("const volatile void* @" + Sg % T, "%s auto v = %s; %s" % (pre, view, body)), init, post)
        for d, body, post in (("size", "return v.size();", int_is(n)), ("size_bytes", "return v.size_bytes();", int_is(n * e)), ("end - begin", "return v.end() - v.begin();", int_is(n)), ("std::ranges::size", "return std::ranges::size(v);", int_is(n))):
            S.add(rule, "%s: %s" % (desc, d), S.fn("std::size_t @" + Sg % T, "%s auto v = %s; %s" % (pre, view, body)), init, post)
    for T in ("int", "const int", "char", "B12", "E", "const E"):
        e = esz(T); P = i_ * e; st = state(T)
        D = "V<%s>" % T
        obs(R1, "%s(p, n)" % D, T, "%s(p, m)" % D, st, P, M)
        obs(R1, "%s(p, p + n)" % D, T, "%s(p, p + m)" % D, st, P, M)
        obs(R1, "%s(span)" % D, T, "%s(s)" % D, st, P, M, pre="std::span<%s> s(p, m);" % T)
        obs(R1, "deduced from (p, p + n), %s" % T, T, "xme::ArrayView(p, p + m)", st, P, M)
        obs(R1, "deduced from (p, n), %s" % T, T, "xme::ArrayView(p, m)", st, P, M)
        obs(R1, "deduced from a span, %s" % T, T, "xme::ArrayView(s)", st, P, M, pre="std::span<%s> s(p, m);" % T)
        obs(R1, "V<%s, 5>(p, 5)" % T, T, "V<%s, 5>(p, 5)" % T, state(T, 5), P, L.k(5))
        obs(R1, "V<%s, 5>(p, p + 5)" % T, T, "V<%s, 5>(p, p + 5)" % T, state(T, 5), P, L.k(5))
        obs(R1, "V<%s> of an array" % T, T, "V<%s>(r)" % T, state(T, 5), P, L.k(5), pre="auto& r = *(%s(*)[5])p;" % T)
        obs(R1, "V<%s, 5> of an array" % T, T, "V<%s, 5>(r)" % T, state(T, 5), P, L.k(5), pre="auto& r = *(%s(*)[5])p;" % T)
        obs(R1, "deduced from an array of %s" % T, T, "xme::ArrayView(r)", state(T, 5), P, L.k(5), pre="auto& r = *(%s(*)[5])p;" % T)
        for cv in (("",) if "const" not in T else ("", "const ")):
            A = "%sstd::array<%s, 5>" % (cv, base(T))
            for v in (("V<%s>(r)" % T), ("V<%s, 5>(r)" % T)):
                obs(R1, "%s of %s" % (v[:-3], A), T, v, state(T, 5), P, L.k(5), pre="auto& r = *(%s*)p;" % A)
            if (cv == "const ") == ("const" in T): obs(R1, "deduced from %s" % A, T, "xme::ArrayView(r)", state(T, 5), P, L.k(5), pre="auto& r = *(%s*)p;" % A)
        if "const" in T:
            obs(R1, "V<%s> from a mutable pointer" % T, T, "V<%s>(q, m)" % T, st, P, M, pre="auto q = const_cast<%s*>(p);" % base(T))
            obs(R1, "V<%s> from a mutable array" % T, T, "V<%s>(r)" % T, state(T, 5), P, L.k(5), pre="auto& r = *(%s(*)[5])p;" % base(T))
            obs(R1, "V<%s> from a mutable span" % T, T, "V<%s>(s)" % T, st, P, M, pre="std::span<%s> s(const_cast<%s*>(p), m);" % (base(T), base(T)))
        # bytes
        obs(R2, "as_bytes(%s)" % D, T, "xme::as_bytes(%s(p, m))" % D, st, P, M * e, 1)
        obs(R2, "as_bytes(V<%s, 5>)" % T, T, "xme::as_bytes(V<%s, 5>(p, 5))" % T, state(T, 5), P, L.k(5 * e), 1)
        if "const" not in T:
            obs(R2, "as_writable_bytes(%s)" % D, T, "xme::as_writable_bytes(%s(p, m))" % D, st, P, M * e, 1)
            obs(R2, "as_writable_bytes(V<%s, 5>)" % T, T, "xme::as_writable_bytes(V<%s, 5>(p, 5))" % T, state(T, 5), P, L.k(5 * e), 1)
        # parts, with run time offsets and counts
        O, C = L.v("o"), L.v("c")
        for src, size in (("%s(p, m)" % D, None), ("V<%s, 5>(p, 5)" % T, 5), ("V<%s, 0>(p, 0)" % T, 0)):
            m = M if size is None else L.k(size)
            obs(R2, "%s.subview(o, c)" % src, T, "%s.subview(o, c)" % src, state(T, size, valid=lambda o, c, m: [m - o - c]), P + O * e, C)
            obs(R2, "%s.first(c)" % src, T, "%s.first(c)" % src, state(T, size, valid=lambda o, c, m: [m - c]), P, C)
            obs(R2, "%s.last(c)" % src, T, "%s.last(c)" % src, state(T, size, valid=lambda o, c, m: [m - c]), P + (m - C) * e, C)
        # with offsets and counts fixed by the program
        for size in (None, 0, 1, 5) if T in ("int", "B12") else (None, 5):
            src = "%s(p, m)" % D if size is None else "V<%s, %d>(p, %d)" % (T, size, size)
            m = M if size is None else L.k(size)
            for o in (0, 1, 2, 5):
                for c in (0, 1, 3, 5):
                    if size is not None and o + c > size: continue
                    obs(R2, "%s.subview<%d, %d>()" % (src, o, c), T, "%s.template subview<%d, %d>()" % (src, o, c), state(T, size, valid=lambda _, __, m, k=o + c: [m - k]), P + L.k(o * e), L.k(c))
            for c in (0, 1, 3, 5):
                if size is not None and c > size: continue
                obs(R2, "%s.first<%d>()" % (src, c), T, "%s.template first<%d>()" % (src, c), state(T, size, valid=lambda _, __, m, k=c: [m - k]), P, L.k(c))
                obs(R2, "%s.last<%d>()" % (src, c), T, "%s.template last<%d>()" % (src, c), state(T, size, valid=lambda _, __, m, k=c: [m - k]), P + (m - c) * e, L.k(c))
    # other iterators and ranges
    P = i_ * 4; st = state("int")
    for t, v, pre in (("a pointer and a sized sentinel", "V<int>(p, SsP{p + m})", ""),
                      ("subrange", "V<int>(s)", "std::ranges::subrange s(p, p + m);"), ("const subrange", "V<const int>(s)", "const std::ranges::subrange s(p, p + m);"), ("a container", "V<int>(s)", "PR s{p, p + m};"), ("a constant container", "V<const int>(s)", "const PR s{p, p + m};"), ("a container as constant", "V<const int>(s)", "PR s{p, p + m};"), ("deduced from a container", "xme::ArrayView(s)", "PR s{p, p + m};"), ("deduced from a constant container", "xme::ArrayView(s)", "const PR s{p, p + m};"), ("rvalue span", "V<int>(std::span<int>(p, m))", ""), ("const span of static extent", "V<const int>(s)", "const std::span<int, 5> s(p, 5);"),
                      ("deduced from a subrange", "xme::ArrayView(s)", "std::ranges::subrange s(p, p + m);")):
        fixed = "static extent" in t
        obs(R1, t, "int", v, state("int", 5) if fixed else st, P, L.k(5) if fixed else M, pre=pre)
    S.src = S.src.replace("struct B12", "struct PR { int *f, *l; int* begin() { return f; } int* end() { return l; } const int* begin() const { return f; } const int* end() const { return l; } };\nstruct SsP { int* e; friend bool operator==(int* p, SsP s) { return p == s.e; } friend std::ptrdiff_t operator-(SsP s, int* p) { return s.e - p; } friend std::ptrdiff_t operator-(int* p, SsP s) { return p - s.e; } };\nstruct B12", 1)
    # the default view
    S.add(R1, "V<int>() is empty: size", S.fn("std::size_t @" + Sg % "int", "V<int> v; return v.size();"), st, int_is(LZ)); S.add(R1, "V<int>() is empty: end - begin", S.fn("std::size_t @" + Sg % "int", "V<int> v; return v.end() - v.begin();"), st, int_is(LZ)); S.add(R1, "V<int, 0>() is empty", S.fn("std::size_t @" + Sg % "int", "V<int, 0> v; return v.size() + (v.end() - v.begin());"), st, int_is(LZ))
    # elements
    for T in ("int", "E"):
        e = esz(T); P = i_ * e; D = "V<%s>(p, m)" % T
        el = lambda o, c, m: [m - o + (-1)]
        for d, body, exp in (("v[o]", "return &v[o];", P + L.v("o") * e), ("const v[o]", "const auto& w = v; return &w[o];", P + L.v("o") * e), ("front", "return &v.front();", P), ("back", "return &v.back();", P + (M - 1) * e), ("const front", "const auto& w = v; return &w.front();", P), ("const back", "const auto& w = v; return &w.back();", P + (M - 1) * e)):
            S.add(R1, "V<%s>: %s" % (T, d), S.fn("const %s* @%s" % (T, Sg % T), "auto v = %s; %s" % (D, body)), state(T, valid=el), ptr_is(exp))
        S.add(R1, "V<%s>: empty" % T, S.fn("bool @" + Sg % T, "auto v = %s; return v.empty();" % D), state(T), rel_is("==", M))
    return S
def suite_debug():
    S = Suite(HDR); Sg = "(%s* p, std::size_t m, std::size_t o, std::size_t c)"
    class DS:
        pass
    def req(rule, desc, T, view, valid, first, count, size=None, signs=((1, 1),), unrelated=False):
        e = esz(T)
        fp = S.fn("const volatile void* @" + Sg % T, "auto v = %s; return (const volatile void*)v.data();" % view); fn = S.fn("std::size_t @" + Sg % T, "auto v = %s; return v.size();" % view)
        for so, sc in signs:
            o, c = L.v("o") * so, L.v("c") * sc
            t = "" if (so, sc) == (1, 1) else " with %s near 2^64" % " and ".join(x for x, s in (("o", so), ("c", sc)) if s < 0)
            ok = valid(o, c) + ([L.k(-1)] if (so < 0 or sc < 0) else [])
            if (so < 0 or sc < 0) and any(x.const() and x.c < 0 for x in ok): ok = [L.k(-1)]
            S.add(rule, "%s%s: storage" % (desc, t), fp, state(T, size, so, sc, unrelated=unrelated), dbg_post(ok, ptr_is(first(o, c))), interp=(Dbg, {}))
            S.add(rule, "%s%s: size" % (desc, t), fn, state(T, size, so, sc, unrelated=unrelated), dbg_post(ok, int_is(count(o, c))), interp=(Dbg, {}))
    both = ((1, 1), (-1, 1), (1, -1), (-1, -1)); conly = ((1, 1), (1, -1))
    for T in ("int", "const int", "B12", "E"):
        e = esz(T); P = i_ * e; D = "V<%s>" % T
        for src, size in (("%s(p, m)" % D, None), ("V<%s, 5>(p, 5)" % T, 5), ("V<%s, 0>(p, 0)" % T, 0)):
            m = M if size is None else L.k(size)
            req(R3, "%s.subview(o, c)" % src, T, "%s.subview(o, c)" % src, lambda o, c: [m - o - c], lambda o, c: P + o * e, lambda o, c: c, size, both)
            req(R3, "%s.first(c)" % src, T, "%s.first(c)" % src, lambda o, c: [m - c], lambda o, c: P, lambda o, c: c, size, conly)
            req(R3, "%s.last(c)" % src, T, "%s.last(c)" % src, lambda o, c: [m - c], lambda o, c: P + (m - c) * e, lambda o, c: c, size, conly)
        big = (1 << 64) - 1
        for o in (0, 1, 2, 5, big - 1):
            for c in (0, 1, 3, 5, big - 1):
                nm = lambda x: str(x) if x < 99 else "2^64-2"
                ok = (lambda o, c: (lambda *_: [M - (o + c)] if o < 99 and c < 99 else [L.k(-1)]))(o, c)
                if c < 99: req(R3, "%s(p, m).subview<%s, %s>()" % (D, nm(o), nm(c)), T, "%s(p, m).template subview<%du, %du>()" % (D, o, c), ok, lambda *_, o=o: P + L.k(o * e), lambda *_, c=c: L.k(c))
        for c in (0, 1, 3, 5):
            req(R3, "%s(p, m).first<%d>()" % (D, c), T, "%s(p, m).template first<%d>()" % (D, c), lambda *_: [M - c], lambda *_: P, lambda *_: L.k(c))
            req(R3, "%s(p, m).last<%d>()" % (D, c), T, "%s(p, m).template last<%d>()" % (D, c), lambda *_: [M - c], lambda *_: P + (M - c) * e, lambda *_: L.k(c))
        # a static view over a run-time size: the sizes must agree
        for k in (0, 1, 5):
            for d, v in (("(p, m)", "(p, m)"), ("(p, p + m)", "(p, p + m)"), ("(span)", "(std::span<%s>(p, m))" % T)):
                req(R3, "V<%s, %d>%s" % (T, k, d), T, "V<%s, %d>%s" % (T, k, v), lambda *_: [M - k, -M + k], lambda *_: P, lambda *_: L.k(k))
        req(R3, "%s(p, m)" % D, T, "%s(p, m)" % D, lambda *_: [], lambda *_: P, lambda *_: M); req(R3, "%s(span)" % D, T, "%s(std::span<%s>(p, m))" % (D, T), lambda *_: [], lambda *_: P, lambda *_: M)
    return S
def types(chk):
    T = []
    H = HDR + r'''
int arr3[3]; const int carr3[3] = {}; std::array<int, 3> sa3; const std::array<int, 3> csa3{}; int* ip; const int* cip; xme::Array<int> xa; const xme::Array<int> cxa; std::span<int> sp; std::span<const int> csp; B20* b20; B20 barr[3]; std::array<B20, 3> bsa; Bi<int> bi; Ra<int> ra;
template<class T> T mk(); template<class A, class... As> concept From = requires { A(mk<As>()...); };
'''
    BIG = "static_cast<std::size_t>(-1)"
    # static extents: every request with offset and count up to 6 (and huge ones)
    for size in (0, 1, 3, 5):
        for o in (0, 1, 2, 3, 4, 5, 6, -1, -2):
            for c in (0, 1, 2, 3, 4, 5, 6, -1, -2):
                u = lambda x: str(x) if x >= 0 else "std::size_t(%d)" % x
                good = o >= 0 and c >= 0 and o + c <= size
                code = "int* p; auto r = V<int, %d>(p, %d).subview<@@, %s>();" % (size, size, u(c))
                if good: T.append(TW("V<int, %d>: subview<%d, %d> is accepted" % (size, o, c), code.replace("@@", u(o))))
                elif c >= 0 and c <= size and (o + c in (size + 1, -1, 0, 1) or o in (-1, -2)) : T.append(TW("V<int, %d>: subview<%s, %s> is rejected" % (size, u(o), u(c)), code, u(o), "0", header=H))
                elif c < 0 or c == size + 1: T.append(TW("V<int, %d>: subview<%s, %s> is rejected" % (size, u(o), u(c)), "int* p; auto r = V<int, %d>(p, %d).subview<%s, @@>();" % (size, size, "0" if o < 0 else u(min(o, size))), u(c), "0", header=H)) if o in (0, 1, -1) and (o <= size) else None
        for f in ("first", "last"):
            for c in (0, 1, 3, 5, 6, -1):
                u = str(c) if c >= 0 else "std::size_t(%d)" % c
                code = "int* p; auto r = V<int, %d>(p, %d).%s<@@>();" % (size, size, f)
                if 0 <= c <= size: T.append(TW("V<int, %d>: %s<%d> is accepted" % (size, f, c), code.replace("@@", u)))
                else: T.append(TW("V<int, %d>: %s<%s> is rejected" % (size, f, u), code, u, "0", header=H))
    same = lambda d, e, t: T.append(TW(d, "static_assert(std::is_same_v<decltype(%s), %s>);" % (e, t)))
    for v, t in (("V<int>(ip, 3)", "int"), ("V<int, 5>(ip, 5)", "int"), ("V<const int>(ip, 3)", "const int"), ("V<const int, 5>(ip, 5)", "const int")):
        same("%s.subview<1, 2>() has a static extent" % v, "%s.subview<1, 2>()" % v, "V<%s, 2>" % t); same("%s.subview(o, c) has a dynamic extent" % v, "%s.subview(1, 2)" % v, "V<%s>" % t)
        for f in ("first", "last"): same("%s.%s<2>()" % (v, f), "%s.%s<2>()" % (v, f), "V<%s, 2>" % t); same("%s.%s(2)" % (v, f), "%s.%s(2)" % (v, f), "V<%s>" % t)
    for v, e in (("V<int>", "V<const std::byte>"), ("V<int, 5>", "V<const std::byte, 20>"), ("V<const B12, 2>", "V<const std::byte, 24>"), ("V<const char>", "V<const std::byte>"), ("V<int, 0>", "V<const std::byte, 0>")): same("as_bytes(%s)" % v, "xme::as_bytes(mk<%s>())" % v, e)
    for v, e in (("V<int>", "V<std::byte>"), ("V<int, 5>", "V<std::byte, 20>"), ("V<B12, 2>", "V<std::byte, 24>")): same("as_writable_bytes(%s)" % v, "xme::as_writable_bytes(mk<%s>())" % v, e)
    for v in ("V<const int>", "V<const int, 5>"): T.append(TW("as_writable_bytes(%s) is rejected" % v, "auto x = xme::as_writable_bytes(mk<@@>());", v, v.replace("const ", ""), header=H))
    for a, t in (("arr3", "V<int, 3>"), ("carr3", "V<const int, 3>"), ("sa3", "V<int, 3>"), ("csa3", "V<const int, 3>"), ("ip, 3", "V<int>"), ("cip, 3", "V<const int>"), ("ip, ip", "V<int>"), ("cip, cip", "V<const int>"), ("sp", "V<int>"), ("csp", "V<const int>"), ("xa", "V<int>"), ("cxa", "V<const int>")):
        same("deduced from (%s)" % a, "xme::ArrayView(%s)" % a, t)
    for v in ("V<int>", "V<const int>", "V<int, 4>", "V<const int, 0>"):
        c = "const int" if "const" in v else "int"
        T.append(TW("element access of %s" % v, "static_assert(std::is_same_v<decltype(mk<%s&>()[0]), %s&> && std::is_same_v<decltype(mk<const %s&>()[0]), const int&> && std::is_same_v<decltype(mk<%s&>().data()), %s*> && std::is_same_v<decltype(mk<const %s&>().data()), const int*> && std::is_same_v<decltype(mk<%s&>().begin()), %s*> && std::is_same_v<decltype(mk<const %s&>().begin()), const int*>);" % (v, c, v, v, c, v, v, c, v)))
        T.append(TW("%s is a cheap value" % v, "static_assert(std::is_trivially_copyable_v<%s> && sizeof(%s) == %d && std::is_nothrow_copy_constructible_v<%s> && std::is_nothrow_move_assignable_v<%s>);" % (v, v, 16 if ", " not in v else 8, v, v)))
        T.append(TW("%s is a borrowed contiguous sized range" % v, "static_assert(std::ranges::contiguous_range<%s> && std::ranges::sized_range<%s> && std::ranges::borrowed_range<%s> && std::ranges::view<%s> && std::ranges::common_range<%s>);" % ((v,) * 5)))
        T.append(TW("%s default construction" % v, "static_assert(std::is_default_constructible_v<%s> == %s);" % (v, "false" if "4" in v else "true")))
    T.append(TW("only writable views have writable bytes", "template<class X> concept WB = requires(X x) { xme::as_writable_bytes(x); }; static_assert(WB<V<int>> && WB<V<int, 3>> && !WB<V<const int>> && !WB<V<const int, 3>>);"))
    # what may and may not be viewed
    for v, a, y in (("V<int>", "int*, std::size_t", 1), ("V<const int>", "int*, std::size_t", 1), ("V<int>", "const int*, std::size_t", 0), ("V<B12>", "B20*, std::size_t", 0), ("V<const B12>", "B20*, std::size_t", 0), ("V<B12>", "B20*, B20*", 0), ("V<double>", "int*, std::size_t", 0), ("V<unsigned>", "int*, std::size_t", 0), ("V<short>", "int*, int*", 0), ("V<int>", "Ra<int>, std::size_t", 0), ("V<int>", "Bi<int>, std::size_t", 0), ("V<int>", "Ra<int>, Ra<int>", 0),
                    ("V<int>", "int(&)[3]", 1), ("V<int>", "const int(&)[3]", 0), ("V<const int>", "int(&)[3]", 1), ("V<const int>", "const int(&)[3]", 1), ("V<int, 3>", "int(&)[3]", 1), ("V<int, 4>", "int(&)[3]", 0), ("V<int, 2>", "int(&)[3]", 0), ("V<B12>", "B20(&)[3]", 0), ("V<double>", "int(&)[3]", 0),
                    ("V<int>", "std::array<int, 3>&", 1), ("V<int>", "const std::array<int, 3>&", 0), ("V<const int>", "std::array<int, 3>&", 1), ("V<const int>", "const std::array<int, 3>&", 1), ("V<int, 3>", "std::array<int, 3>&", 1), ("V<int, 4>", "std::array<int, 3>&", 0), ("V<const int, 2>", "const std::array<int, 3>&", 0), ("V<int, 2>", "std::array<int, 3>&", 0), ("V<const int, 2>", "std::array<int, 3>&", 0), ("V<const int, 4>", "const std::array<int, 3>&", 0), ("V<const int, 3>", "std::array<int, 3>&", 1), ("V<const int, 2>", "const int(&)[3]", 0), ("V<const int, 2>", "int(&)[3]", 0), ("V<int>", "std::array<int, 3>&&", 0), ("V<B12>", "std::array<B20, 3>&", 0), ("V<const B12>", "const std::array<B20, 3>&", 0), ("V<int>", "std::array<const int, 3>&", 0),
                    ("V<int>", "xme::Array<int>&", 1), ("V<const int>", "xme::Array<int>&", 1), ("V<const int>", "const xme::Array<int>&", 1), ("V<int>", "const xme::Array<int>&", 0), ("V<int>", "xme::Array<int>&&", 0), ("V<const int>", "xme::Array<int>&&", 0), ("V<int>", "std::span<int>&", 1), ("V<int>", "std::span<int>", 1), ("V<int>", "std::span<const int>", 0), ("V<B12>", "std::span<B20>", 0), ("V<char>", "std::span<int>", 0)):
        T.append(TW("%s %s made from (%s)" % (v, "can be" if y else "cannot be", a), "static_assert(%sFrom<%s, %s>);" % ("" if y else "!", v, a)))
    run_types(chk, R4, H, [t for t in T if "subview" in t.desc or "first" in t.desc or "last" in t.desc])
    run_types(chk, R5, H, [t for t in T if not ("subview" in t.desc or "first" in t.desc or "last" in t.desc)])
def run(chk, thorough):
    for S, nd in ((suite_release(), True), (suite_debug(), False)):
        try: S.run(chk, None, ndebug=nd)
        except ir.BuildError as e: chk.fail(R1, "operations in %s build" % ("a release" if nd else "an assertion"), *errs(e.out))
    types(chk)
    for r, n in ((R1, 700), (R2, 1200), (R3, 200), (R4, 60), (R5, 60)): chk.need(r, n)
