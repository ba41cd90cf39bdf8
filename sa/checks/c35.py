"""The concepts that gate the containers, and AlignedData's storage."""
from .mathlib import *
from ..typ import TW, run_types
H = """#include <array>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
#include <ranges>
#include <xme/container/concepts.hpp>
#include <xme/container/container_policy.hpp>
#include <xme/container/aligned_data.hpp>
#include <xme/container/tuple.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/array.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/core/concepts/constant_iterator.hpp>
#include <xme/core/iterators/iterator_traits.hpp>
template<class T, class U> constexpr bool same = std::is_same_v<T, U>;
struct Mo { Mo() = default; Mo(Mo&&) = default; };
struct Abs { virtual void f() = 0; };
struct Al0 { using value_type = int; using size_type = std::size_t; using difference_type = std::ptrdiff_t; int* allocate(std::size_t); void deallocate(int*, std::size_t); };
"""
AL = [("int* allocate(std::size_t);", "void* allocate(std::size_t);", "allocate that returns an untyped pointer"), ("int* allocate(std::size_t);", "const int* allocate(std::size_t);", "allocate that returns a pointer to constant"), ("int* allocate(std::size_t);", "long* allocate(std::size_t);", "allocate that returns a pointer to something else"),
      ("int* allocate(std::size_t);", "", "no allocate"), ("int* allocate(std::size_t);", "int* allocate();", "allocate without a count"), ("int* allocate(std::size_t);", "int* allocate(std::size_t, int);", "allocate with a mandatory hint"), ("int* allocate(std::size_t);", "private: int* allocate(std::size_t); public:", "a private allocate"),
      ("void deallocate(int*, std::size_t);", "", "no deallocate"), ("void deallocate(int*, std::size_t);", "void deallocate(int*);", "deallocate without a count"), ("void deallocate(int*, std::size_t);", "void deallocate(long*, std::size_t);", "deallocate for another type"), ("void deallocate(int*, std::size_t);", "private: void deallocate(int*, std::size_t); public:", "a private deallocate"),
      ("using value_type = int; ", "", "no value_type"), ("using size_type = std::size_t; ", "", "no size_type"), ("using difference_type = std::ptrdiff_t; ", "", "no difference_type")]
ALOK = [("int* allocate(std::size_t);", "int* allocate(std::size_t, const void* = nullptr);", "an optional hint"), ("int* allocate(std::size_t);", "static int* allocate(std::size_t);", "static functions"), ("void deallocate(int*, std::size_t);", "int deallocate(void*, long);", "a convertible deallocate"), ("using size_type = std::size_t;", "using size_type = unsigned;", "a narrow size_type"), ("void deallocate(int*, std::size_t);", "void deallocate(int*, std::size_t) noexcept;", "a noexcept deallocate")]
AD = "struct Al { using value_type = int; using size_type = std::size_t; using difference_type = std::ptrdiff_t; int* allocate(std::size_t); void deallocate(int*, std::size_t); };\n"
TL = [("std::tuple<>", 0), ("std::tuple<int>", 1), ("std::tuple<int, long>", 2), ("std::tuple<int&, const long&>", 2), ("std::tuple<int, long, char>", 3), ("std::pair<int, std::string>", 2), ("std::pair<int&, int&&>", 2), ("std::array<int, 2>", 2), ("std::array<int, 5>", 5), ("xme::Tuple<int>", 1), ("xme::Tuple<int, std::string>", 2), ("xme::Tuple<int, int, int>", 3), ("xme::Pair<int, long>", 2), ("xme::Pair<Mo, Mo>", 2), ("std::tuple<Mo, Mo>", 2), ("std::tuple<std::tuple<int>, std::pair<int, int>>", 2), ("xme::Tuple<xme::Pair<int, int>, int>", 2)]
NTL = ["int", "void", "int*", "int[2]", "std::string", "std::vector<int>", "std::initializer_list<int>", "Mo", "xme::Array<int>", "std::map<int, int>", "std::span<int, 2>", "int(int)", "std::unique_ptr<int>", "std::integral_constant<int, 2>", "Abs"]
CUST = """struct X { int a; long b; };
} namespace std { template<> struct tuple_size<%(ns)s::X> %(size)s; template<> struct tuple_element<0, %(ns)s::X> { using type = int; }; %(second)s } namespace %(ns)s {
%(get)s
static_assert(%(neg)sxme::CTupleLike<X>); static_assert(%(neg)sxme::CTupleLike<X&>); static_assert(%(negp)sxme::CPairLike<const X&>);"""
def cust(desc, neg, size=": integral_constant<size_t, 2> {}", second="template<> struct tuple_element<1, %(ns)s::X> { using type = long; };", get="template<std::size_t I> std::tuple_element_t<I, X> get(const X&);", k=[0]):
    k[0] += 1; ns = "own%d" % k[0]; g = dict(ns=ns)
    return TW(desc, "namespace %s {\n" % ns + CUST % dict(ns=ns, size=size, second=second % g, get=get, neg="!" if neg else "", negp="!" if neg else "") + "\n}", solo=True)
IT = [("const int*", 1), ("int*", 0), ("std::vector<int>::const_iterator", 1), ("std::vector<int>::iterator", 0), ("std::string_view::iterator", 1), ("std::string::iterator", 0), ("std::set<int>::iterator", 1), ("std::list<long>::iterator", 0), ("std::list<long>::const_iterator", 1), ("std::map<int, int>::iterator", 0), ("std::map<int, int>::const_iterator", 1), ("std::istream_iterator<int>", 1), ("std::vector<bool>::const_iterator", 1), ("std::move_iterator<int*>", 0), ("std::move_iterator<const int*>", 1),
      ("std::reverse_iterator<const int*>", 1), ("std::reverse_iterator<int*>", 0), ("xme::Array<int>::const_iterator", 1), ("xme::Array<int>::iterator", 0), ("const std::string*", 1), ("std::string*", 0), ("int", 0), ("std::string", 0), ("std::unique_ptr<const int>", 0), ("std::shared_ptr<const std::string>", 0), ("void*", 0), ("std::back_insert_iterator<std::vector<int>>", 0), ("std::ranges::iterator_t<std::ranges::iota_view<int, int>>", 1), ("const Mo*", 1), ("Mo*", 0)]
CR = [("int*", "const int&"), ("const int*", "const int&"), ("std::string*", "const std::string&"), ("std::move_iterator<int*>", "const int&&"), ("std::move_iterator<const std::string*>", "const std::string&&"), ("std::ranges::iterator_t<std::ranges::iota_view<int, int>>", "int"), ("std::vector<bool>::iterator", "bool"), ("std::istream_iterator<long>", "const long&"), ("xme::Array<long>::iterator", "const long&"), ("std::vector<int>::iterator", "const int&")]
def types():
    W = []
    for t in ("std::allocator<int>", "std::allocator<std::string>", "std::allocator<Mo>", "Al0"): W.append(TW("CAllocator accepts %s" % t, "static_assert(xme::CAllocator<%s>);" % t))
    for t in ("int", "std::string", "std::vector<int>", "std::unique_ptr<int>", "xme::Capacity<4>", "int*"): W.append(TW("CAllocator rejects %s" % t, "static_assert(!xme::CAllocator<%s>);" % t))
    for a, b, d in AL:
        assert a in AD; W.append(TW("CAllocator rejects %s" % d, AD.replace(a, b) + "static_assert(!xme::CAllocator<Al>);"))
    for a, b, d in ALOK: W.append(TW("CAllocator accepts %s" % d, AD.replace(a, b) + "static_assert(xme::CAllocator<Al>);"))
    W.append(TW("a Capacity is not an allocator: the queue's policies are told apart", "static_assert(xme::Capacity<8>::capacity == 8 && xme::Capacity<1>::capacity == 1 && sizeof(xme::SPSCQueue<int, xme::Capacity<64>>) > sizeof(xme::SPSCQueue<int, xme::Capacity<8>>)); static_assert(std::is_default_constructible_v<xme::SPSCQueue<int, xme::Capacity<8>>> && !std::is_default_constructible_v<xme::SPSCQueue<int>> && std::is_constructible_v<xme::SPSCQueue<int>, std::size_t>);"))
    for t, n in TL:
        for q in ("%s", "%s&", "const %s", "const %s&", "%s&&", "const %s&&"):
            W.append(TW("CTupleLike and CPairLike of %s" % (q % t), "static_assert(xme::CTupleLike<%s>); static_assert(%sxme::CPairLike<%s>);" % (q % t, "" if n == 2 else "!", q % t)))
    for t in NTL: W.append(TW("CTupleLike rejects %s" % t, "using T = %s; static_assert(!xme::CTupleLike<T> && !xme::CPairLike<T>%s);" % (t, "" if t == "void" else " && !xme::CTupleLike<T&> && !xme::CPairLike<const T&>")))
    W += [cust("CTupleLike accepts a type with its own get", 0), cust("CTupleLike accepts get by reference", 0, get="template<std::size_t I> const std::tuple_element_t<I, X>& get(const X&);"),
          cust("CTupleLike rejects a type without get", 1, get=""), cust("CTupleLike rejects a get for the first element only", 1, get="template<std::size_t I> requires(I == 0) int get(const X&);"), cust("CTupleLike rejects a get of another type", 1, get="template<std::size_t I> void* get(const X&);"), cust("CTupleLike rejects a get whose second element has another type", 1, get="struct Other {}; template<std::size_t I> std::conditional_t<I == 0, int, Other> get(const X&);"),
          cust("CTupleLike rejects a missing tuple_element", 1, second=""), cust("CTupleLike rejects a tuple_size that is no integral constant", 1, size="{ using type = int; static constexpr size_t value = 2; }")]
    for t, e in IT: W.append(TW("CConstantIterator %s %s" % ("accepts" if e else "rejects", t), "static_assert(%sxme::CConstantIterator<%s>);" % ("" if e else "!", t)))
    for t, e in CR: W.append(TW("iter_const_reference_t of %s" % t, "static_assert(same<xme::iter_const_reference_t<%s>, %s>);" % (t, e)))
    # AlignedData
    for t in ("char", "short", "int", "double", "std::string", "long double", "int[3]"):
        if "[" in t: continue
        W.append(TW("AlignedData<%s> is as large and as aligned as its type" % t, "using D = xme::AlignedData<%s>; static_assert(sizeof(D) >= sizeof(%s) && alignof(D) >= alignof(%s) && sizeof(D) == sizeof(%s));" % (t, t, t, t)))
        for a in (8, 16, 64, 128):
            W.append(TW("AlignedData<%s, %d> is aligned as requested" % (t, a), "using D = xme::AlignedData<%s, %d>; static_assert(alignof(D) >= %d && sizeof(D) >= sizeof(%s) && sizeof(D) %% %d == 0 && sizeof(D) < sizeof(%s) + %d);" % (t, a, a, t, a, t, a)))
    W.append(TW("AlignedData of an over-aligned type", "struct alignas(64) O { char c; }; static_assert(alignof(xme::AlignedData<O>) == 64 && sizeof(xme::AlignedData<O>) == 64);"))
    W.append(TW("AlignedData of a type without default construction or assignment", "struct Z { Z(int); Z(const Z&) = delete; Z& operator=(const Z&) = delete; ~Z(); }; using D = xme::AlignedData<Z>; static_assert(std::is_default_constructible_v<D> && std::is_nothrow_default_constructible_v<D> && std::is_constructible_v<D, int>); static_assert(std::is_trivially_destructible_v<D>);"))
    W.append(TW("AlignedData's accessors", "using D = xme::AlignedData<long>; static_assert(same<decltype(std::declval<D&>().data()), long*> && same<decltype(std::declval<const D&>().data()), const long*> && same<decltype(std::declval<D&>().address()), void*> && same<decltype(std::declval<const D&>().address()), const void*>); static_assert(same<D::value_type, long> && same<D::reference, long&> && same<D::const_reference, const long&> && same<D::pointer, long*> && same<D::const_pointer, const long*>);"))
    W.append(TW("AlignedData rejects an alignment that is no power of two", "@@", fail="template class xme::AlignedData<int, 12>;", control="template class xme::AlignedData<int, 16>;", solo=True))
    W.append(TW("AlignedData rejects constant types", "@@", fail="template class xme::AlignedData<const int>;", control="template class xme::AlignedData<long>;", solo=True))
    return W
HE = """#include <memory>
#include <utility>
#include <xme/container/aligned_data.hpp>
extern "C" void ev_copy(const void*, const void*); extern "C" void ev_move(const void*, const void*); extern "C" void ev_make(const void*, int, int); extern "C" void ev_dtor(const void*); extern "C" void sinkp(const void*);
struct T { int v; T() { ev_make(this, 0, 0); } T(int a, int b) { ev_make(this, a, b); } T(const T& o) { ev_copy(this, &o); } T(T&& o) noexcept { ev_move(this, &o); } ~T() { ev_dtor(this); } };
"""
def wits():
    W = []
    for al in ("alignof(T)", "16", "64"):
        D = "xme::AlignedData<T, %s>" % al
        def made(ev, n, extra):
            def f(r, o):
                evs = [e for e in r.events if e.name.startswith("ev_")]
                yield "constructions and destructions", leaf(tuple(e.name for e in evs)), leaf((ev,) if ev else ()), evs[0].loc if evs else None
                if ev and len(evs) == 1:
                    yield "where the object is built", evs[0].args[0], leaf(P("m", ZERO)), evs[0].loc
                    for k, x in enumerate(extra(o)): yield "argument %d" % k, evs[0].args[1 + k], x, evs[0].loc
                s = [e for e in r.events if e.name == "sinkp"]
                yield "accessor calls", leaf(len(s)), leaf(n), None
                for e in s: yield "address of the object", e.args[0], leaf(P("m", ZERO)), e.loc
            return f
        m = [("m", ["i", 8]), ("t", ["i", 32])]
        W.append(Wit(nm(), D + "* m, T& t", "::new((void*)m) %s(t);" % D, m, made("ev_copy", 0, lambda o: [leaf(P("t", ZERO))]), "%s from an lvalue copies it into its storage" % D))
        W.append(Wit(nm(), D + "* m, T& t", "::new((void*)m) %s(std::move(t));" % D, m, made("ev_move", 0, lambda o: [leaf(P("t", ZERO))]), "%s from an rvalue moves it into its storage" % D))
        W.append(Wit(nm(), D + "* m, T& t", "::new((void*)m) %s;" % D, m, made(None, 0, None), "%s built without arguments builds no object" % D))
        W.append(Wit(nm(), D + "* m, T& t", "m->~AlignedData();", m, made(None, 0, None), "destroying %s destroys no object" % D))
        W.append(Wit(nm(), D + "* m, T& t", "sinkp(m->data()); sinkp(m->address()); sinkp(std::as_const(*m).data()); sinkp(std::as_const(*m).address());", m, made(None, 4, None), "%s's accessors designate its storage" % D))
        W.append(Wit(nm(), D + "* m, int a, int b", "::new((void*)m) %s(a, b);" % D, [("m", ["i", 8]), ("a", ("val", "int")), ("b", ("val", "int"))], made("ev_make", 0, lambda o: [o.el("a", 0, "int"), o.el("b", 0, "int")]), "%s forwards its arguments in order" % D))
    return W
def run(chk, thorough):
    run_types(chk, "classification", H, types()); chk.need("classification", 180)
    run_wits(chk, "objects in aligned storage", HE, wits()); chk.need("objects in aligned storage", 40)
