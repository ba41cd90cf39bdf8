"""Exception flow: from every call of user-supplied code inside an operation, the exceptional edges of the resolved IR are
followed to the end.  They must leave the operation (resume, rethrow): reaching a normal return swallows the exception, reaching
std::terminate means something on the way promised not to throw."""
import os
from concurrent.futures import ThreadPoolExecutor
from .. import ir
from ..ir import compile_ir, PIPE_LOOP, BuildError
from ..typ import TW, run_types
R1, R2 = "exceptions reach the caller", "what promises not to throw"
H = """#include <cstddef>
#include <iterator>
#include <memory>
#include <memory_resource>
#include <range/v3/range/concepts.hpp>
#include <xme/container/array.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/container/tuple.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/aligned_data.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/ranges/uninitialized.hpp>
#include <xme/ranges/destroy.hpp>
#include <xme/hal/shared_library.hpp>
#include <xme/hal/platform.hpp>
namespace U {
// everything here may throw, except destruction and deallocation
struct E { E(); E(int); E(const E&); E(E&&); E& operator=(const E&); E& operator=(E&&); ~E() noexcept; bool operator==(const E&) const; long a, b, c; };
struct Cmp { bool operator()(const E&, const E&) const; };
struct It { using value_type = E; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag; using pointer = const E*; using reference = const E&;
    It() noexcept; It(const It&) noexcept; It& operator=(const It&) noexcept; const E& operator*() const; It& operator++(); It operator++(int); bool operator==(const It&) const; void* p; };
struct Fw { using value_type = E; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag; using pointer = const E*; using reference = const E&;
    Fw() noexcept; Fw(const Fw&) noexcept; Fw& operator=(const Fw&) noexcept; const E& operator*() const; Fw& operator++(); Fw operator++(int); bool operator==(const Fw&) const; void* p; };
template<class T> struct Al { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using is_always_equal = std::true_type;
    Al() noexcept; Al(const Al&) noexcept; Al& operator=(const Al&) noexcept; template<class V> Al(const Al<V>&) noexcept; T* allocate(std::size_t); void deallocate(T*, std::size_t) noexcept; bool operator==(const Al&) const noexcept; };
struct Fn { Fn(); Fn(const Fn&); Fn(Fn&&); Fn& operator=(const Fn&); Fn& operator=(Fn&&); ~Fn() noexcept; int operator()(int) const; int operator()(E&&) const; int operator()(const E&, const E&) const; void* p[3]; };
struct Small { int operator()(int) const; };
int g(int); struct S { int m(int); int n; };
// nothing here throws when moved
struct N { N(); N(const N&); N(N&&) noexcept; N& operator=(const N&); N& operator=(N&&) noexcept; ~N() noexcept; bool operator<(const N&) const; long a; };
}
using namespace U; using A = xme::Array<E, Al<E>>; using L = xme::LinkedList<E, Al<E>>; using Hp = xme::Heap<E, A, Cmp>; using Q = xme::SPSCQueue<E, Al<E>>; using QS = xme::SPSCQueue<E, xme::Capacity<4>>;
using DS = xme::AlignedData<E>; using D = xme::Delegate<int(int)>; using T2 = xme::Tuple<E, int>; using P2 = xme::Pair<E, E>; using AV = xme::ArrayView<E>;
"""
AI = "A::const_iterator p"
# (part, operation, parameters, body)
OPS = []
def op(part, what, params, body): OPS.append((part, what, params, body))
for A_, nm in (("A", "Array"),):
    a = "A& a, "
    op(nm, "construct n copies", "std::size_t n, const E& e", "A x(n, e);")
    op(nm, "construct storage for n", "std::size_t n", "A x(n);")
    op(nm, "construct from a list", "std::initializer_list<E> l", "A x(l);")
    op(nm, "construct from single-pass iterators", "It f, It l", "A x(f, l);")
    op(nm, "construct from forward iterators", "Fw f, Fw l", "A x(f, l);")
    op(nm, "construct from a range", "const xme::ArrayView<E>& r", "A x(r);")
    op(nm, "copy construct", "const A& o", "A x(o);")
    op(nm, "copy assign", a + "const A& o", "a = o;")
    op(nm, "assign a list", a + "std::initializer_list<E> l", "a = l;")
    op(nm, "push_back a copy", a + "const E& e", "a.push_back(e);")
    op(nm, "push_back an rvalue", a + "E&& e", "a.push_back(std::move(e));")
    op(nm, "push_back single-pass iterators", a + "It f, It l", "a.push_back(f, l);")
    op(nm, "push_back forward iterators", a + "Fw f, Fw l", "a.push_back(f, l);")
    op(nm, "push_back a range", a + "const xme::ArrayView<E>& r", "a.push_back(r);")
    op(nm, "emplace_back", a + "int i", "a.emplace_back(i);")
    op(nm, "insert a copy", a + AI + ", const E& e", "a.insert(p, e);")
    op(nm, "insert an rvalue", a + AI + ", E&& e", "a.insert(p, std::move(e));")
    op(nm, "insert single-pass iterators", a + AI + ", It f, It l", "a.insert(p, f, l);")
    op(nm, "insert forward iterators", a + AI + ", Fw f, Fw l", "a.insert(p, f, l);")
    op(nm, "insert a range", a + AI + ", const xme::ArrayView<E>& r", "a.insert(p, r);")
    op(nm, "reserve", a + "std::size_t n", "a.reserve(n);")
    op(nm, "resize", a + "std::size_t n", "a.resize(n);")
    op(nm, "erase an element", a + AI, "a.erase(p);")
    op(nm, "erase a range", a + AI + ", A::const_iterator q", "a.erase(p, q);")
    op(nm, "std::allocator: push_back", "xme::Array<E>& a, const E& e", "a.push_back(e);")
    op(nm, "std::allocator: reserve", "xme::Array<int>& a, std::size_t n", "a.reserve(n);")
    op(nm, "std::allocator: copy construct", "const xme::Array<E>& o", "xme::Array<E> x(o);")
l = "L& a, "; LI = "L::const_iterator p"; nm = "LinkedList"
op(nm, "construct n elements", "std::size_t n", "L x(n);"); op(nm, "construct n copies", "std::size_t n, const E& e", "L x(n, e);")
op(nm, "construct from single-pass iterators", "It f, It l", "L x(f, l);"); op(nm, "construct from a list", "std::initializer_list<E> l", "L x(l);")
op(nm, "copy construct", "const L& o", "L x(o);"); op(nm, "construct from a range", "const AV& r", "L x(r);")
op(nm, "copy assign", l + "const L& o", "a = o;"); op(nm, "assign a list", l + "std::initializer_list<E> l", "a = l;")
op(nm, "assign iterators", l + "It f, It l", "a.assign(f, l);"); op(nm, "assign(list)", l + "std::initializer_list<E> l", "a.assign(l);"); op(nm, "assign a range", l + "const AV& r", "a.assign(r);")
op(nm, "push_front a copy", l + "const E& e", "a.push_front(e);"); op(nm, "push_front an rvalue", l + "E&& e", "a.push_front(std::move(e));"); op(nm, "emplace_front", l + "int i", "a.emplace_front(i);")
op(nm, "insert_after a copy", l + LI + ", const E& e", "a.insert_after(p, e);"); op(nm, "insert_after an rvalue", l + LI + ", E&& e", "a.insert_after(p, std::move(e));")
op(nm, "insert_after iterators", l + LI + ", It f, It l", "a.insert_after(p, f, l);"); op(nm, "insert_after a range", l + LI + ", const AV& r", "a.insert_after(p, r);"); op(nm, "emplace_after", l + LI + ", int i", "a.emplace_after(p, i);")
op(nm, "std::allocator: push_front", "xme::LinkedList<E>& a, const E& e", "a.push_front(e);")
h = "Hp& a, "; nm = "Heap"
op(nm, "construct from iterators", "It f, It l", "Hp x(f, l);"); op(nm, "construct from contiguous iterators", "const E* f, const E* l", "Hp x(f, l);"); op(nm, "construct from a range", "const AV& r", "Hp x(r);")
op(nm, "push a copy", h + "const E& e", "a.push(e);"); op(nm, "push an rvalue", h + "E&& e", "a.push(std::move(e));"); op(nm, "emplace", h + "int i", "a.emplace(i);"); op(nm, "copy construct", "const Hp& o", "Hp x(o);"); op(nm, "copy assign", h + "const Hp& o", "a = o;")
for qn, nm in (("Q", "SPSCQueue"), ("QS", "static SPSCQueue")):
    q = qn + "& a, "
    op(nm, "push a copy", q + "const E& e", "a.push(e);"); op(nm, "push an rvalue", q + "E&& e", "a.push(std::move(e));"); op(nm, "emplace", q + "int i", "a.emplace(i);"); op(nm, "consume", q + "const Fn& f", "a.consume(f);")
op("SPSCQueue", "construct", "std::size_t n", "Q x(n);")
nm = "Delegate"
op(nm, "construct from a callable", "const Fn& f", "D x(f);"); op(nm, "construct from an rvalue callable", "Fn&& f", "D x(std::move(f));"); op(nm, "assign a callable", "D& a, const Fn& f", "a = f;"); op(nm, "assign an rvalue callable", "D& a, Fn&& f", "a = std::move(f);")
op(nm, "call a stored functor", "const Fn& f, int i", "D x(f); (void)x(i);"); op(nm, "copy a stored functor", "const Fn& f", "D x(f); D y(x);"); op(nm, "copy assign a stored functor", "const Fn& f, D& a", "D x(f); a = x;")
op(nm, "call a small functor", "const Small& f, int i", "D x(f); (void)x(i);"); op(nm, "call a function", "int i", "D x(&U::g); (void)x(i);"); op(nm, "call a member function", "S& s, int i", "xme::Delegate<int(S&, int)> x(&S::m); (void)x(s, i);"); op(nm, "call with an argument by value", "const E& e", "xme::Delegate<int(E, E)> x(Fn{}); (void)x(e, e);")
nm = "bind"
for b in ("front", "back"):
    op(nm, "bind_%s a callable" % b, "const Fn& f", "auto x = xme::bind_%s(f, 1);" % b); op(nm, "bind_%s an argument" % b, "const E& e", "auto x = xme::bind_%s(Small{}, e);" % b); op(nm, "bind_%s: call" % b, "const Small& f, int i", "auto x = xme::bind_%s(f, i); (void)x();" % b)
    op(nm, "bind_%s: call with an rvalue binder" % b, "const Small& f, int i", "(void)xme::bind_%s(f)(i);" % b); op(nm, "bind_%s: copy" % b, "const E& e", "auto x = xme::bind_%s(Small{}, e); auto y = x;" % b); op(nm, "bind_%s: move" % b, "const E& e", "auto x = xme::bind_%s(Small{}, e); auto y = std::move(x);" % b)
    op(nm, "bind_%s: assign" % b, "const E& e", "auto x = xme::bind_%s(Small{}, e); auto y = x; y = x; y = std::move(x);" % b)
nm = "Tuple and Pair"
op(nm, "construct a Tuple", "const E& e", "T2 x{e, 1};"); op(nm, "copy a Tuple", "const T2& o", "T2 x(o);"); op(nm, "move a Tuple", "T2& o", "T2 x(std::move(o));"); op(nm, "assign a Tuple", "T2& a, const T2& o", "a = o;"); op(nm, "move assign a Tuple", "T2& a, T2& o", "a = std::move(o);")
op(nm, "assign a Tuple from a std::tuple", "T2& a, const std::tuple<E, int>& o", "a = o;"); op(nm, "swap Tuples", "T2& a, T2& o", "a.swap(o);"); op(nm, "swap(Tuple, Tuple)", "T2& a, T2& o", "swap(a, o);"); op(nm, "make_tuple", "const E& e", "auto x = xme::make_tuple(e, 1);"); op(nm, "tuple_cat", "const T2& o", "auto x = xme::tuple_cat(o, o);"); op(nm, "apply", "const Small& f, const xme::Tuple<int>& t", "(void)xme::apply(f, t);")
op(nm, "construct a Pair", "const E& e", "P2 x{e, e};"); op(nm, "copy a Pair", "const P2& o", "P2 x(o);"); op(nm, "assign a Pair", "P2& a, const P2& o", "a = o;"); op(nm, "assign a Pair from a std::pair", "P2& a, const std::pair<E, E>& o", "a = o;"); op(nm, "swap Pairs", "P2& a, P2& o", "a.swap(o);"); op(nm, "swap(Pair, Pair)", "P2& a, P2& o", "swap(a, o);"); op(nm, "make_pair", "const E& e", "auto x = xme::make_pair(e, 1);")
nm = "raw storage"
op(nm, "uninitialized_copy_a", "Fw f, Fw l, E* o, E* ol, Al<E>& a", "xme::ranges::uninitialized_copy_a(f, l, o, ol, a);"); op(nm, "uninitialized_move_a", "E* f, E* l, E* o, Al<E>& a", "xme::ranges::uninitialized_move_a(f, l, o, a);"); op(nm, "uninitialized_fill_n_a", "E* f, std::size_t n, const E& e, Al<E>& a", "xme::ranges::uninitialized_fill_n_a(f, n, e, a);"); op(nm, "AlignedData from arguments", "const E& e", "xme::AlignedData<E> x(e);"); op(nm, "AlignedData from an int", "int i", "xme::AlignedData<E> x(i);")
nm = "hal"
op(nm, "open a library by construction", "std::string_view n", "xme::hal::SharedLibrary l(n);"); op(nm, "open a library", "xme::hal::SharedLibrary& l, std::string_view n", "l.open(n);"); op(nm, "look a function up", "xme::hal::SharedLibrary& l, std::string_view n", "(void)l.proc_address<void(*)()>(n);")
op(nm, "read an environment variable", "std::string_view n", "(void)xme::hal::get_environment_variable(n);"); op(nm, "set an environment variable", "std::string_view n, std::string_view v", "xme::hal::set_environment_variable(n, v);")
# moving, swapping and destroying never fail, whatever the elements do
NT = []
for n, t in (("Array", "A"), ("Array with std::allocator", "xme::Array<E>"), ("LinkedList", "L"), ("LinkedList with std::allocator", "xme::LinkedList<E>"), ("Heap", "xme::Heap<E>"), ("Delegate", "D"), ("SharedLibrary", "xme::hal::SharedLibrary"), ("Tuple of nothrow-movable types", "xme::Tuple<N, int>"), ("Pair of nothrow-movable types", "xme::Pair<N, N>"), ("ArrayView", "AV"), ("binder of nothrow-movable types", "decltype(xme::bind_front(N{}, 1))"), ("binder of nothrow-movable arguments", "decltype(xme::bind_back(Small{}, N{}))")):
    NT.append(TW("%s: move construction" % n, "using T = %s; static_assert(std::is_nothrow_constructible_v<T, T&&>);" % t))
    NT.append(TW("%s: destruction" % n, "using T = %s; static_assert(std::is_nothrow_destructible_v<T>);" % t))
    if n not in ("Tuple of nothrow-movable types", "Pair of nothrow-movable types", "Heap"): NT.append(TW("%s: move assignment" % n, "using T = %s; static_assert(std::is_nothrow_assignable_v<T&, T&&>);" % t))
for n, e in (("Array::swap", "std::declval<A&>().swap(std::declval<A&>())"), ("Array::clear", "std::declval<A&>().clear()"), ("Array::begin", "std::declval<A&>().begin()"), ("Array::end const", "std::declval<const A&>().end()"), ("Array::capacity", "std::declval<A&>().capacity()"), ("LinkedList::clear", "std::declval<L&>().clear()"), ("LinkedList::pop_front", "std::declval<L&>().pop_front()"), ("LinkedList::erase_after", "std::declval<L&>().erase_after(std::declval<L::const_iterator>())"), ("LinkedList::reverse", "std::declval<L&>().reverse()"), ("LinkedList::begin", "std::declval<L&>().begin()"), ("LinkedList::before_begin", "std::declval<L&>().before_begin()"),
             ("SPSCQueue::pop", "std::declval<Q&>().pop()"), ("SPSCQueue::read_available", "std::declval<Q&>().read_available()"), ("SPSCQueue::write_available", "std::declval<QS&>().write_available()"), ("Delegate::swap", "std::declval<D&>().swap(std::declval<D&>())"), ("Delegate to bool", "static_cast<bool>(std::declval<D&>())"), ("Delegate assigned nullptr", "std::declval<D&>() = nullptr"), ("swap of Tuples of nothrow-movable types", "std::declval<xme::Tuple<N, int>&>().swap(std::declval<xme::Tuple<N, int>&>())"), ("swap of Pairs of nothrow-movable types", "std::declval<xme::Pair<N, int>&>().swap(std::declval<xme::Pair<N, int>&>())"), ("SharedLibrary::is_open", "std::declval<const xme::hal::SharedLibrary&>().is_open()"), ("AlignedData::data", "std::declval<xme::AlignedData<E>&>().data()"), ("AlignedData default construction", "xme::AlignedData<E>()"), ("AlignedData from a nothrow argument", "xme::AlignedData<N>(std::declval<N>())")):
    NT.append(TW(n, "static_assert(noexcept(%s));" % e))
for t in ("xme::Tuple<E, int>", "xme::Tuple<int, E>", "xme::Tuple<int, E, int>", "xme::Pair<E, int>", "xme::Pair<int, E>"):
    for e, d in (("std::declval<T&>().swap(std::declval<T&>())", "swap"), ("swap(std::declval<T&>(), std::declval<T&>())", "swap function"), ("T(std::declval<T>())", "move construction"), ("T(std::declval<const T&>())", "copy construction")): NT.append(TW("%s of %s does not promise" % (d, t), "using T = %s; static_assert(!noexcept(%s));" % (t, e)))
for t in ("xme::Tuple<N, int>", "xme::Tuple<int, N, N>", "xme::Pair<N, int>", "xme::Pair<int, N>"):
    for e, d in (("swap(std::declval<T&>(), std::declval<T&>())", "swap function"), ("T(std::declval<T>())", "move construction")): NT.append(TW("%s of %s promises" % (d, t), "using T = %s; static_assert(noexcept(%s));" % (t, e)))
for n, e in (("swap of Tuples of throwing types", "std::declval<T2&>().swap(std::declval<T2&>())"), ("swap of Pairs of throwing types", "std::declval<P2&>().swap(std::declval<P2&>())"), ("AlignedData from a throwing argument", "xme::AlignedData<E>(std::declval<const E&>())")):
    NT.append(TW(n + " does not promise", "static_assert(!noexcept(%s));" % e))
def is_user(name):
    """may throw: declared in namespace U (not a destructor, not deallocation), or operator new"""
    if name.startswith(("_Znwm", "_Znam", "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createE")): return True
    if not (name.startswith(("_ZN1U", "_ZNK1U"))): return False
    return True
TERM = ("__clang_call_terminate", "_ZSt9terminatev", "abort", "_ZSt10unexpectedv", "__cxa_call_unexpected", "_exit", "exit", "_ZSt4quick_exit")
class Flow:
    def __init__(self, m):
        self.m = m; self.fns = m["functions"]; self.memo = {}; self.found = []; self.sites = set(); self.edges = 0
        self.blk = {}
    def blocks(self, f):
        if f not in self.blk: self.blk[f] = {b["id"]: b["ins"] for b in self.fns[f]["blocks"]}
        return self.blk[f]
    def defined(self, n): return n in self.fns and self.fns[n].get("blocks")
    def targets(self, i):
        c = i["callee"]
        if c["k"] == "g": return [c["n"]]
        if c["k"] == "asm": return []
        return ["*"]
    def throws(self, name):
        """may a user exception come out of this callee"""
        if name == "*": return self.star()
        if self.defined(name): return self.fn(name)
        return is_user(name) and not self.nothrow(name)
    def nothrow(self, name):
        d = self.fns.get(name); return bool(d and d.get("nounwind"))
    def star(self):
        # an indirect call reaches any function whose address is taken
        return any([self.throws(n) for n in sorted(self.taken())])
    def taken(self):
        if not hasattr(self, "_taken"):
            t = set()
            def ref(v):
                if isinstance(v, dict):
                    if v.get("k") == "g" and v.get("n") in self.fns: t.add(v["n"])
                    for x in v.values(): ref(x)
                elif isinstance(v, list):
                    for x in v: ref(x)
            for f, d in self.fns.items():
                for b in d.get("blocks") or []:
                    for i in b["ins"]:
                        for k, v in i.items():
                            if k not in ("callee", "loc"): ref(v)
            self._taken = t
        return self._taken
    def fn(self, f):
        if f in self.memo: return self.memo[f]
        self.memo[f] = False            # recursion: what the other calls do decides
        esc = False; again = True
        while again:
            esc = self._scan(f); again = esc != self.memo[f]; self.memo[f] = esc
        return esc
    def _scan(self, f):
        esc = False
        for b in self.blocks(f).values():
            for i in b:
                if i["op"] not in ("call", "invoke") or i["nounwind"]: continue
                if any(fr[2].startswith("~") for fr in i.get("loc") or []): continue      # destruction does not throw
                ts = [t for t in self.targets(i) if self.throws(t)]
                if not ts: continue
                for t in ts:
                    if is_user(t) or t == "*": self.sites.add((t, str(i.get("loc"))))
                if i["op"] == "call": esc = True; continue
                self.edges += 1
                if self.land(f, i, ts): esc = True
        return esc
    def land(self, f, i, ts):
        """follows the exceptional edge of an invoke to its ends"""
        B = self.blocks(f); seen = set(); work = [i["unwind"]]; esc = False
        while work:
            b = work.pop()
            if b in seen: continue
            seen.add(b); t = None
            for x in B[b]:
                if x["op"] in ("call", "invoke") and x["callee"]["k"] == "g" and x["callee"]["n"] in TERM:
                    self.bad(f, i, ts, "reaches std::terminate: an operation on the way promises not to throw", x); t = None; break
                if x["op"] == "call" and x["callee"]["k"] == "g" and x["callee"]["n"] in ("__cxa_rethrow", "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", "_Unwind_Resume", "__cxa_throw"): esc = True; t = None; break
                if x["op"] == "invoke" and x["callee"]["k"] == "g" and x["callee"]["n"] in ("__cxa_rethrow", "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", "__cxa_throw"): work.append(x["unwind"]); t = None; break
                if x["op"] == "resume": esc = True; t = None; break
                if x["op"] == "ret": self.bad(f, i, ts, "is swallowed: the function returns normally after it", x); t = None; break
                t = x
            if t is None: continue
            o = t["op"]
            if o == "br": work += t["succ"]
            elif o == "switch": work += [t["default"]] + [c for _, c in t["cases"]]
            elif o == "invoke": work.append(t["normal"])
        return esc
    def bad(self, f, i, ts, why, x):
        k = (f, str(i.get("loc")), tuple(ts), why)
        if k not in [y[0] for y in self.found]: self.found.append((k, f, i, ts, why, x))
def short(n):
    import subprocess
    try: return subprocess.run(["c++filt", n], capture_output=True, text=True, timeout=5).stdout.strip() or n
    except Exception: return n
def one(group):
    src = H + "".join('extern "C" void w%d(%s) { %s }\n' % (k, o[2], o[3]) for k, o in enumerate(group))
    try: m = compile_ir(src, pipe=PIPE_LOOP, name="x34")
    except BuildError as e:
        if len(group) == 1: return [(group[0], None, e.out, None)]
        return [r for o in group for r in one([o])]
    out = []
    for k, o in enumerate(group):
        fl = Flow(m); esc = fl.fn("w%d" % k); out.append((o, fl, esc, m))
    return out
def run(chk, thorough):
    # functions whose address is taken stay apart: one translation unit for each operation of a Delegate
    groups = [[o] for o in OPS if o[0] == "Delegate"]; rest = [o for o in OPS if o[0] != "Delegate"]
    groups += [rest[k:k + 4] for k in range(0, len(rest), 4)]
    with ThreadPoolExecutor(8) as ex: res = [r for rs in ex.map(one, groups) for r in rs]
    for o, fl, esc, m in res:
        d = "%s: %s" % (o[0], o[1])
        if fl is None:
            err = [l for l in esc.splitlines() if "error:" in l][:2]
            chk.fail(R1, d, "does not compile: " + " / ".join(err), err[0].split(": ")[0] if err else ""); continue
        for f in m["functions"]: chk.note_fn(m, f)
        chk.count("exceptional edges followed", fl.edges); chk.count("calls of user code", len(fl.sites))
        for _, f, i, ts, why, x in fl.found[:4]:
            chk.fail(R1, d, "an exception from %s %s" % (" or ".join(short(t) for t in ts), why), ir.where(i.get("loc")))
        if not fl.found:
            if not fl.sites: chk.undecided(R1, d, "no call of user code found")
            else: chk.ok(R1, d, "%d calls of user code, %d exceptional edges, all leave the operation" % (len(fl.sites), fl.edges))
    chk.need(R1, len(OPS) - 3)
    run_types(chk, R2, H, NT); chk.need(R2, len(NT) - 3)
