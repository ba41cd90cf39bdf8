"""Element types that can only be moved, or not at all: the operations that do not need a copy are offered for them."""
from ..typ import TW, run_types
H = r'''
#include <iterator>
#include <memory>
#include <utility>
#include <initializer_list>
struct M { M() {} M(int) {} M(M&&) {} M& operator=(M&&) { return *this; } ~M() {} auto operator<=>(const M&) const = default; int v = 0; };
struct C { C() {} C(int) {} C(const C&) {} C& operator=(const C&) { return *this; } ~C() {} auto operator<=>(const C&) const = default; int v = 0; };
struct I { I() {} I(int, int) {} I(I&&) = delete; ~I() {} int v = 0; };
struct X { explicit X(int, int = 0) {} X(const X&) = default; X& operator=(const X&) = default; bool operator<(const X&) const { return false; } };
'''
P = {"C12": "#include <xme/container/array.hpp>\n", "C14": "#include <xme/container/linked_list.hpp>\n", "C15": "#include <xme/container/heap.hpp>\n", "C17": "#include <xme/container/spsc_queue.hpp>\n"}
def arr(T, cp):
    t = "void f(xme::Array<%s>& a, %s& v, %s* p) { xme::Array<%s> e; xme::Array<%s> r(5); a.push_back(std::move(v)); a.push_back(3); a.emplace_back(4); a.emplace_back(); a.insert(a.begin(), std::move(v)); a.insert(a.begin(), 3); a.erase(a.begin()); a.erase(a.begin(), a.end()); a.pop_back(); a.reserve(9); a.resize(2); a.clear(); xme::Array<%s> b(std::move(a)); a = std::move(b); a.swap(b); xme::Array<%s> m(std::make_move_iterator(p), std::make_move_iterator(p + 2)); a.push_back(std::make_move_iterator(p), std::make_move_iterator(p + 2)); a.insert(a.begin(), std::make_move_iterator(p), std::make_move_iterator(p + 2)); (void)a.front(); (void)a.back(); (void)a[0]; (void)a.data(); }" % ((T,) * 7)
    return t
def lst(T): return "void f(xme::LinkedList<%s>& a, %s& v, %s* p) { xme::LinkedList<%s> e; xme::LinkedList<%s> r(5); a.push_front(std::move(v)); a.push_front(3); a.emplace_front(4); a.emplace_front(); a.insert_after(a.before_begin(), std::move(v)); a.emplace_after(a.before_begin(), 3); a.erase_after(a.before_begin()); a.erase_after(a.before_begin(), a.end()); a.pop_front(); a.clear(); a.reverse(); xme::LinkedList<%s> b(std::move(a)); a = std::move(b); xme::LinkedList<%s> m(std::make_move_iterator(p), std::make_move_iterator(p + 2)); a.assign(std::make_move_iterator(p), std::make_move_iterator(p + 2)); a.insert_after(a.before_begin(), std::make_move_iterator(p), std::make_move_iterator(p + 2)); (void)a.front(); }" % ((T,) * 7)
def heap(T): return "void f(xme::Heap<%s>& h, %s& v, %s* p) { xme::Heap<%s> e; h.push(std::move(v)); h.push(3); h.emplace(4); h.emplace(); h.pop(); (void)h.front(); xme::Heap<%s> m(std::make_move_iterator(p), std::make_move_iterator(p + 2)); xme::Heap<%s> b(std::move(h)); h = std::move(b); }" % ((T,) * 6)
def que(Q, T): return "void f(%s v, std::size_t n) { %s q%s; (void)q.push(std::move(v)); (void)q.push(3); (void)q.emplace(4); (void)q.emplace(); q.consume([](%s&& x) { %s y(std::move(x)); }); q.consume([](const %s&) {}); q.pop(); (void)q.read_available(); (void)q.write_available(); }" % (T, Q, "{n}" if "allocator" in Q else "", T, T, T)
def items(cid):
    W = []
    for gcc in (False, True):
        nm = "g++" if gcc else "clang++"
        def a(d, c): W.append(TW("%s (%s)" % (d, nm), c, gcc=gcc))
        for T, d in (("M", "an element type that can only be moved"), ("C", "an element type without a move constructor")):
            if cid == "C12": a("Array of " + d, arr(T, T == "C"))
            if cid == "C14": a("LinkedList of " + d, lst(T))
            if cid == "C15": a("Heap of " + d, heap(T))
            if cid == "C17":
                for Q in ("xme::SPSCQueue<%s>", "xme::SPSCQueue<%s, std::allocator<%s>>", "xme::SPSCQueue<%s, xme::Capacity<8>>"):
                    q = Q.replace("%s", T); a("%s of %s" % (q, d), que(q, T).replace("q;", "q{n};") if "Capacity" not in q else que(q, T))
        if cid == "C14": a("LinkedList of an element type that cannot be moved", "void f(xme::LinkedList<I>& l) { xme::LinkedList<I> n(3); l.emplace_front(1, 2); l.emplace_front(); l.emplace_after(l.before_begin(), 1, 2); l.pop_front(); l.erase_after(l.before_begin()); l.clear(); l.reverse(); xme::LinkedList<I> m(std::move(l)); l = std::move(m); (void)l.front(); }")
        if cid == "C17":
            for q in ("xme::SPSCQueue<I> q(8)", "xme::SPSCQueue<I, xme::Capacity<8>> q"): a("%s, an element type that cannot be moved" % q.split(" q")[0], "void f() { %s; (void)q.emplace(1, 2); (void)q.emplace(); q.consume([](I&&) {}); q.consume([](const I&) {}); q.pop(); }" % q.replace("", ""))
        e = {"C12": "void f(xme::Array<X>& a, X& x) { a.emplace_back(1); a.emplace_back(1, 2); a.push_back(x); a.insert(a.begin(), x); }", "C14": "void f(xme::LinkedList<X>& a, X& x) { a.emplace_front(1); a.emplace_front(1, 2); a.emplace_after(a.before_begin(), 1); a.push_front(x); }",
             "C15": "void f(xme::Heap<X>& a, X& x) { a.emplace(1); a.emplace(1, 2); a.push(x); }", "C17": "void f(xme::SPSCQueue<X>& a, X& x, xme::SPSCQueue<X, xme::Capacity<4>>& b) { (void)a.emplace(1); (void)a.emplace(1, 2); (void)a.push(x); (void)b.emplace(1); (void)b.emplace(1, 2); (void)b.push(x); }"}[cid]
        a("emplacing through an explicit constructor", e)
    return W
R = "element types"
def run(chk, cid):
    run_types(chk, R, H + P[cid], items(cid))
    chk.need(R, 4)
