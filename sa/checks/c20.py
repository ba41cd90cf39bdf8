from .mathlib import *
from ..typ import TW, run_types
H = """#include <string>
#include <xme/core/functional/bind.hpp>
template<class... T> struct list {};
struct B0 { int v; }; struct B1 { int v; }; struct B2 { int v; };
struct A0 {}; struct A1 {}; struct A2 {};
template<int Q, class... T> struct rec {};
// reports how it was called: its own value category and every argument with its category
struct F {
    template<class... T> rec<0, T&&...> operator()(T&&...) &; template<class... T> rec<1, T&&...> operator()(T&&...) const&;
    template<class... T> rec<2, T&&...> operator()(T&&...) &&; template<class... T> rec<3, T&&...> operator()(T&&...) const&&; };
template<class T, class U> constexpr bool same = std::is_same_v<T, U>;
// call noexcept depends on the category of the callable and of the bound argument
struct N { template<class... T> void operator()(T&&...) & noexcept(false); template<class... T> void operator()(T&&...) const& noexcept(true);
           template<class... T> void operator()(T&&...) && noexcept(true); template<class... T> void operator()(T&&...) const&& noexcept(false); };
struct NB { void operator()(B0&, int) const noexcept(true); void operator()(const B0&, int) const noexcept(false); void operator()(B0&&, int) const noexcept(false); void operator()(const B0&&, int) const noexcept(true);
            void operator()(int, B0&) const noexcept(true); void operator()(int, const B0&) const noexcept(false); void operator()(int, B0&&) const noexcept(false); void operator()(int, const B0&&) const noexcept(true); };
struct NC { void operator()(int, int) const noexcept(true); void operator()(int, long) const noexcept(false); };
// nothrow from rvalues only / from const lvalues only / convertible
struct Mv { Mv(); Mv(const Mv&) noexcept(false); Mv(Mv&&) noexcept(true); void operator()() const; };
struct Cp { Cp(); Cp(const Cp&) noexcept(true); Cp(Cp&&) noexcept(false); void operator()() const; };
struct Th { Th(); Th(const Th&) noexcept(false); Th(Th&&) noexcept(false); void operator()() const; };
struct Src {};
struct From { From(Src) noexcept(true); From(int) noexcept(false); From(const From&) noexcept; From(From&&) noexcept; };
struct Back { Back(const Back&) noexcept; operator From() const noexcept(false); };
"""
CAT = [("&", "std::declval<X&>()", "%s&", 0), ("const&", "std::declval<const X&>()", "const %s&", 1), ("&&", "std::declval<X>()", "%s&&", 2), ("const&&", "std::declval<const X>()", "const %s&&", 3)]
ARGS = ["A0&", "const A1&", "A2&&", "const A0&&", "A1&"]
def types():
    W = []
    for kind in ("front", "back"):
        for nb in range(0, 4):
            bt = ["B%d" % i for i in range(nb)]
            for na in (0, 1, 3, 5):
                call = ", ".join("std::declval<%s>()" % a for a in ARGS[:na])
                for c, obj, q, n in CAT:
                    bound = [q % b for b in bt]; args = ARGS[:na]
                    exp = bound + args if kind == "front" else args + bound
                    W.append(TW("bind_%s of %d bound arguments called with %d arguments on %s binder" % (kind, nb, na, c),
                        "using X = decltype(xme::bind_%s(%s)); static_assert(same<decltype(%s(%s)), rec<%s>>);" % (kind, ", ".join(["F{}"] + ["std::declval<%s>()" % b for b in bt]), obj, call, ", ".join([str(n)] + exp))))
        # decay copies
        W.append(TW("bind_%s stores decayed copies" % kind, "inline int arr[3]; using X = decltype(xme::bind_%s(std::declval<const F&>(), std::declval<const B0&>(), \"abc\", arr)); static_assert(same<decltype(std::declval<X&>()()), rec<0, B0&, const char*&, int*&>>);" % kind))
        W.append(TW("bind_%s keeps reference wrappers" % kind, "using X = decltype(xme::bind_%s(F{}, std::ref(std::declval<B0&>()))); static_assert(same<decltype(std::declval<X&>()()), rec<0, std::reference_wrapper<B0>&>>);" % kind))
        W.append(TW("bind_%s binds two arguments of one type" % kind, "using X = decltype(xme::bind_%s(F{}, 1, 2, B0{})); static_assert(same<decltype(std::declval<const X&>()()), rec<1, const int&, const int&, const B0&>>);" % kind))
        W.append(TW("bind_%s of a member function" % kind, "struct S { int f(long) &; double g() const; }; using X = decltype(xme::bind_%s(&S::f)); static_assert(same<decltype(std::declval<X&>()(std::declval<S&>(), 1L)), int>); using Y = decltype(xme::bind_%s(&S::g, std::declval<S>())); static_assert(same<decltype(std::declval<const Y&>()()), double>);" % (kind, kind)))
        W.append(TW("bind_%s returns a reference when the callable does" % kind, "struct R { int& operator()(int); }; using X = decltype(xme::bind_%s(R{}, 1)); static_assert(same<decltype(std::declval<X&>()()), int&>);" % kind))
        # noexcept of calls
        for c, obj, q, n in CAT:
            for na, args in ((0, ""), (1, "1")):
                W.append(TW("bind_%s call on %s binder is noexcept exactly when the callable is (%d args)" % (kind, c, na), "using X = decltype(xme::bind_%s(N{}, B0{})); static_assert(noexcept(%s(%s)) == %s);" % (kind, obj, args, "true" if n in (1, 2) else "false")))
            W.append(TW("bind_%s call on %s binder is noexcept by the category of the bound argument" % (kind, c), "using X = decltype(xme::bind_%s(NB{}, B0{})); static_assert(noexcept(%s(1)) == %s);" % (kind, obj, "true" if n in (0, 3) else "false")))
            for a, r in (("1", 1), ("1L", 0)):
                if kind == "front": W.append(TW("bind_front call on %s binder is noexcept by the call argument (%s)" % (c, a), "using X = decltype(xme::bind_front(NC{}, 1)); static_assert(noexcept(%s(%s)) == %s);" % (obj, a, "true" if r else "false")))
                else: W.append(TW("bind_back call on %s binder is noexcept by the bound argument (%s)" % (c, a), "using X = decltype(xme::bind_back(NC{}, %s)); static_assert(noexcept(%s(1)) == %s);" % (a, obj, "true" if r else "false")))
        # noexcept of construction
        K = "xme::detail::Bind" + kind.capitalize()
        for st, t, arg, e in [("Mv", "Mv", "Mv", 1), ("Mv", "Mv", "const Mv&", 0), ("Cp", "Cp", "const Cp&", 1), ("Cp", "Cp", "Cp", 0), ("Th", "Th", "Th", 0), ("From", "From", "Src", 1), ("From", "From", "int", 0), ("From", "From", "Back", 0), ("std::string", "std::string", "const char*", 0), ("std::string", "std::string", "std::string", 1), ("std::string", "std::string", "const std::string&", 0), ("int", "int", "long", 1)]:
            W.append(TW("constructing %s with a bound %s from %s is noexcept exactly when the stored object's construction is" % (K, st, arg), "static_assert(std::is_nothrow_constructible_v<%s<F, %s>, F, %s> == %s); static_assert(std::is_nothrow_constructible_v<%s<F, int, %s, B0>, F, int, %s, B0> == %s);" % (K, t, arg, "true" if e else "false", K, t, arg, "true" if e else "false")))
        for fn, arg, e in [("Mv", "Mv", 1), ("Mv", "const Mv&", 0), ("Cp", "const Cp&", 1), ("Cp", "Cp", 0), ("Th", "Th", 0)]:
            W.append(TW("constructing %s with callable %s from %s is noexcept exactly when the stored object's construction is" % (K, fn, arg), "static_assert(std::is_nothrow_constructible_v<%s<%s, int>, %s, int> == %s);" % (K, fn, arg, "true" if e else "false")))
        for fn, cn, mn in [("F", 1, 1), ("Mv", 0, 1), ("Cp", 1, 0), ("Th", 0, 0), ("std::string", 0, 1)]:
            W.append(TW("copying and moving %s with a bound %s is noexcept exactly when it is for the bound object" % (K, fn), "static_assert(std::is_nothrow_copy_constructible_v<%s<F, %s>> == %s); static_assert(std::is_nothrow_move_constructible_v<%s<F, %s>> == %s);" % (K, fn, "true" if cn else "false", K, fn, "true" if mn else "false")))
        # binders carry move-only objects, and copy/move construct and assign as their stored objects do
        MO = "struct MO { MO() = default; MO(MO&&) noexcept = default; MO& operator=(MO&&) noexcept = default; }; struct MF { MF() = default; MF(MF&&) noexcept = default; MF& operator=(MF&&) noexcept = default; template<class... T> rec<5, T&&...> operator()(T&&...); }; "
        for call, what in (("F{}, MO{}", "a bound"), ("F{}, 1, MO{}", "a second bound"), ("MF{}, 1", "a callable")):
            W.append(TW("bind_%s with %s move-only object moves" % (kind, what), MO + "using X = decltype(xme::bind_%s(%s)); static_assert(std::is_nothrow_move_constructible_v<X>); static_assert(std::is_move_assignable_v<X>); static_assert(!std::is_copy_constructible_v<X>); static_assert(!std::is_copy_assignable_v<X>);" % (kind, call)))
        W.append(TW("bind_%s with a move-only object can be made and moved (run by the compiler)" % kind, MO + "inline void go() { auto x = xme::bind_%s(MF{}, MO{}); auto y = std::move(x); x = std::move(y); auto z = xme::bind_%s(F{}, MO{}, 1); auto w = std::move(z); z = std::move(w); }" % (kind, kind)))
        W.append(TW("bind_%s hands a move-only bound object to the callable on rvalue binders" % kind, MO + "struct Take { int operator()(MO, int); int operator()(int, MO); }; using X = decltype(xme::bind_%s(Take{}, MO{})); static_assert(same<decltype(std::declval<X>()(1)), int>);" % kind))
        W.append(TW("bind_%s of copyable objects copies and assigns" % kind, "using X = decltype(xme::bind_%s(F{}, B0{}, 1)); static_assert(std::is_copy_constructible_v<X> && std::is_copy_assignable_v<X> && std::is_move_constructible_v<X> && std::is_move_assignable_v<X>);" % kind))
        W.append(TW("bind_%s accepts a callable and arguments that can only be moved, once each" % kind, MO + "template<class... A> concept binds = requires { xme::bind_%s(std::declval<A>()...); }; static_assert(binds<MF, MO>); static_assert(same<decltype(xme::bind_%s(MF{}, MO{}, MO{}, MO{})()), rec<5, MO&&, MO&&, MO&&>>);" % (kind, kind)))
        # non-type callable form (deducing this)
        nt = "bind" + kind.capitalize()
        for na in (0, 2):
            for c, obj, q, n in CAT:
                bound = [q % b for b in ("B0", "B1")]; args = ARGS[:na]
                exp = bound + args if kind == "front" else args + bound
                W.append(TW("%s<f> called with %d arguments on %s binder (deducing this)" % (nt, na, c),
                    "struct G { template<class... T> constexpr rec<9, T&&...> operator()(T&&...) const { return {}; } }; using X = decltype(xme::%s<G{}>(B0{}, B1{})); static_assert(same<decltype(%s(%s)), rec<9, %s>>);" % (nt, obj, ", ".join("std::declval<%s>()" % a for a in args), ", ".join(exp)),
                    flags=("-std=c++23",), defs=("__cpp_explicit_this_parameter=202110L",)))
    return W
HE = """#include <xme/core/functional/bind.hpp>
extern "C" void sink(int, int, int, int, int);
extern "C" void ev_copy(const void*, const void*); extern "C" void ev_move(const void*, const void*);
struct T { int v; T(int x) : v(x) {} T(const T& o) : v(o.v) { ev_copy(this, &o); } T(T&& o) noexcept : v(o.v) { ev_move(this, &o); } T& operator=(const T& o) { v = o.v; ev_copy(this, &o); return *this; } T& operator=(T&& o) noexcept { v = o.v; ev_move(this, &o); return *this; } };
struct G { int k; void operator()(int a, int b, int c, int d) const { sink(k, a, b, c, d); } };
extern "C" void sinkt(int, int);
struct GT { void operator()(const T& a, const T& b) const { sinkt(a.v, b.v); } };
"""
def wits():
    W = []
    B = "b0 b1 b2 b3".split(); A = "a0 a1 a2 a3".split()
    for kind in ("front", "back"):
        for nb in range(0, 5):
            na = 4 - nb
            b, a = B[:nb], A[:na]
            order = b + a if kind == "front" else a + b
            for c, pre in [("&", "auto x = %s; x(%s);"), ("const&", "const auto x = %s; x(%s);"), ("&&", "auto x = %s; std::move(x)(%s);"), ("const&&", "const auto x = %s; std::move(x)(%s);"), ("& copy", "auto y = %s; auto x = y; x(%s);"), ("& moved", "auto y = %s; auto x = std::move(y); x(%s);")]:
                def f(r, o, order=order):
                    evs = [e for e in r.events if e.name == "sink"]
                    yield "the callable is called exactly once", leaf(len([e for e in evs])), leaf(1), evs[0].loc if evs else None
                    if len(evs) == 1:
                        yield "the call is unconditional", evs[0].cond, TRUE, evs[0].loc
                        for i, n in enumerate(["k"] + order): yield "argument %d of the callable" % i, evs[0].args[i], o.el(n, 0, "int"), evs[0].loc
                sig = ", ".join("int " + x for x in ["k"] + b + a)
                W.append(Wit(nm(), sig, pre % ("xme::bind_%s(%s)" % (kind, ", ".join(["G{k}"] + b)), ", ".join(a)), [(x, ("val", "int")) for x in ["k"] + b + a], f, "bind_%s of %d bound arguments on %s binder" % (kind, nb, c)))
        # bound objects are copied or moved exactly once, and not again by calling
        for cat, ev in (("t", "ev_copy"), ("std::move(t)", "ev_move")):
            def f(r, o, ev=ev):
                evs = [e for e in r.events if e.name in ("ev_copy", "ev_move")]
                yield "copies and moves of the bound object", leaf(tuple(e.name for e in evs)), leaf((ev,)), evs[0].loc if evs else None
                if len(evs) == 1: yield "source of the stored object", evs[0].args[1], leaf(P("t", ZERO)), evs[0].loc
                s = [e for e in r.events if e.name == "sinkt"]
                yield "the callable is called exactly once", leaf(len(s)), leaf(1), None
                if len(s) == 1:
                    for i in (0, 1):
                        want = o.el("t", 0, "int") if (i == 0) == (kind0 == "front") else o.el("u", 0, "int")
                        yield "argument %d" % i, s[0].args[i], want, s[0].loc
            kind0 = "front"
            # assignment reaches the stored object, by copy or by move
            for acat, aev in (("y", "ev_copy"), ("std::move(y)", "ev_move")):
                def g(r, o, aev=aev, kind=kind):
                    evs = [e for e in r.events if e.name in ("ev_copy", "ev_move")]
                    yield "copies and moves of the bound objects", leaf(tuple(e.name for e in evs)), leaf(("ev_copy", "ev_copy", aev)), evs[-1].loc if evs else None
                    s = [e for e in r.events if e.name == "sinkt"]
                    yield "the callable is called exactly once", leaf(len(s)), leaf(1), None
                    if len(s) == 1: yield "the assigned bound object", s[0].args[0 if kind == "front" else 1], o.el("u", 0, "int"), s[0].loc
                if cat == "t": W.append(Wit(nm(), "T& t, T& u", "auto x = xme::bind_%s(GT{}, t); auto y = xme::bind_%s(GT{}, u); x = %s; x(t);" % (kind, kind, acat), [("t", ["i", 32]), ("u", ["i", 32])], g, "bind_%s: %s assignment replaces the bound object" % (kind, aev[3:])))
            W.append(Wit(nm(), "T& t, T& u", "auto x = xme::bind_%s(GT{}, %s); x(u);" % (kind, cat), [("t", ["i", 32]), ("u", ["i", 32])], f if kind == "front" else (lambda r, o, ev=ev: _back(r, o, ev)), "bind_%s stores %s once" % (kind, "a copy of an lvalue" if cat == "t" else "an rvalue by moving it")))
    return W
def _back(r, o, ev):
    evs = [e for e in r.events if e.name in ("ev_copy", "ev_move")]
    yield "copies and moves of the bound object", leaf(tuple(e.name for e in evs)), leaf((ev,)), evs[0].loc if evs else None
    s = [e for e in r.events if e.name == "sinkt"]
    yield "the callable is called exactly once", leaf(len(s)), leaf(1), None
    if len(s) == 1:
        yield "argument 0", s[0].args[0], o.el("u", 0, "int"), s[0].loc
        yield "argument 1", s[0].args[1], o.el("t", 0, "int"), s[0].loc
def run(chk, thorough):
    run_types(chk, "category, order and noexcept (types)", H, types())
    run_wits(chk, "argument order (values)", HE, wits())
    chk.need("category, order and noexcept (types)", 150); chk.need("argument order (values)", 150)
