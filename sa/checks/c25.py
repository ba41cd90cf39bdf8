"""C25: the accessors of the common container interface agree with iteration, for probe containers of every iterator and end
category (const and not) and for the library's own containers; each is offered exactly when the iterators support it."""
from .itlib import *
from ..typ import TW, run_types, errs
from . import arraylib, listlib
R1 = "accessors designate what iteration visits"
R2 = "an accessor is offered exactly when the iterators support it"
R3 = "accessors of Array, LinkedList and Heap"
HDR = ITERS + r'''
#include <xme/container/icontainer.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/array_view.hpp>
// containers that only provide begin and end
template<class I, class S = I, class CI = I, class CS = S> struct PC : xme::IContainer<PC<I, S, CI, CS>> { I f; S l; PC(I a, S b) : f(a), l(b) {} I begin() { return f; } S end() { return l; } CI begin() const { return f; } CS end() const { return l; } };
template<class I, class S = I> struct PM : xme::IContainer<PM<I, S>> { I f; S l; PM(I a, S b) : f(a), l(b) {} I begin() { return f; } S end() { return l; } };             // iterable only when not constant
template<class I, class S = I> struct PK : xme::IContainer<PK<I, S>> { I f; S l; PK(I a, S b) : f(a), l(b) {} I begin() const { return f; } S end() const { return l; } };     // one iterator for both
extern "C" E* pl(); extern "C" E* pf();
struct XC { using const_iterator = const E*; E* f = pf(); E* l = pl(); const E* begin() const { return f; } const E* end() const { return l; } E* begin() { return f; } E* end() { return l; } };
struct Lt { bool operator()(const E&, const E&) const; };
using H = xme::Heap<E, XC, Lt>;
'''
class XI(Interp):
    def x_pf(self, st, i, a): return Pt("a", i_ * ESZ)
    def x_pl(self, st, i, a): return Pt("a", j_ * ESZ)
LVL = {"In": 0, "Fw": 1, "Bi": 2, "Ra": 3, "Rl": 3, "*": 4}
def it(k, T): return "%s*" % T if k == "*" else "%s<%s>" % (k, T)
def ends(k, T):
    """(sentinel type, how to make it, sized?, common?)"""
    lv = LVL[k]; r = [("Se<%s>" % T, "Se<%s>{q}" % T, False, False), ("Ss<%s>" % T, "Ss<%s>{q}" % T, True, False)] if k != "*" else [("PSe<%s>" % T, "PSe<%s>{q}" % T, False, False), ("PSs<%s>" % T, "PSs<%s>{q}" % T, True, False)]
    if lv >= 1: r.insert(0, (it(k, T), "%s(q)" % it(k, T) if k != "*" else "q", lv >= 3, True))
    return r
HDR = HDR.replace("// containers that only", r'''template<class T> struct PSe { T* e = nullptr; friend bool operator==(const T* i, PSe s) { return i == s.e; } };
template<class T> struct PSs { T* e = nullptr; friend bool operator==(const T* i, PSs s) { return i == s.e; } friend std::ptrdiff_t operator-(PSs s, const T* i) { return s.e - i; } friend std::ptrdiff_t operator-(const T* i, PSs s) { return i - s.e; } };
// containers that only''')
def offered(k, sized, common):
    lv = LVL[k]
    return {"Idx": lv >= 3, "Empty": lv >= 1, "Data": lv >= 4, "Size": lv >= 1 and sized, "Front": lv >= 1, "Back": lv >= 2 and common}
def cases_():
    for T in ("int", "E"):
        for k in ("In", "Fw", "Bi", "Ra", "Rl", "*"):
            for s, mk, sized, common in ends(k, T):
                I = it(k, T); f = "%s(p)" % I if k not in ("*", "In") else ("p" if k == "*" else "In<%s>{p}" % T)
                yield T, k, "PC<%s, %s>" % (I, s), f, mk, sized, common, True, False
                if k != "In" and common:
                    CI = it(k, "const " + T)
                    yield T, k, "PC<%s, %s, %s, %s>" % (I, s, CI, CI), f, mk, sized, common, True, True
                yield T, k, "PM<%s, %s>" % (I, s), f, mk, sized, common, False, False
                yield T, k, "PK<%s, %s>" % (I, s), f, mk, sized, common, True, False
def suite():
    S = Suite(HDR)
    for T, k, C, f, l, sized, common, const, cc in cases_():
        off = offered(k, sized, common); e = 4 if T == "int" else ESZ
        for cv in ("",) + (("const ",) if const else ()):
            pre = "%s c{%s, %s}; %sauto& d = c;" % (C, f, l, cv)
            n = "%s%s" % (cv, C)
            P0 = positions(e, extra=(j_ - i_,)); P1 = positions(e, extra=(j_ - i_ + (-1),))
            PK_ = lambda: None
            def idx(P0=P0):
                st, a, sy = P0()
                st.cons.add_eq(L.v("km")); st.cons.add_ge(j_ - i_ - L.v("kp") + (-1)); return st, a, sy
            sg = "(%s* p, %s* q, long k)" % (T, T)
            def add(d, ret, body, init, post): S.add(R1, "%s: %s" % (n, d), S.fn("%s @%s" % (ret, sg), pre + " " + body), init, post)
            if off["Empty"]: add("empty", "bool", "return d.empty();", P0, rel_is("==", j_ - i_)); add("front", "const %s*" % T, "return &d.front();", P1, ptr_is(i_ * e))
            if off["Empty"] and k != "In": add("std::ranges::empty", "bool", "return std::ranges::empty(d);", P0, rel_is("==", j_ - i_)); add("::ranges::empty", "bool", "return ::ranges::empty(d);", P0, rel_is("==", j_ - i_))
            if off["Size"]: add("size", "std::size_t", "return d.size();", P0, int_is(j_ - i_)); add("::ranges::size", "std::size_t", "return ::ranges::size(d);", P0, int_is(j_ - i_))
            if off["Idx"]: add("[]", "const %s*" % T, "return &d[k];", idx, ptr_is((i_ + L.v("kp")) * e))
            if off["Back"]: add("back", "const %s*" % T, "return &d.back();", P1, ptr_is((j_ + (-1)) * e))
            if off["Data"]: add("data", "const %s*" % T, "return d.data();", P0, ptr_is(i_ * e))
    # Heap over a container that can be anything
    P0 = positions(ESZ, extra=(j_ - i_,)); P1 = positions(ESZ, extra=(j_ - i_ + (-1),))
    def idx(P0=P0):
        st, a, sy = P0(); st.cons.add_eq(L.v("km")); st.cons.add_ge(j_ - i_ - L.v("kp") + (-1)); return st, a, sy
    for cv in ("", "const "):
        for d, ret, body, init, post in (("empty", "bool", "return d.empty();", P0, rel_is("==", j_ - i_)), ("front", "const E*", "return &d.front();", P1, ptr_is(i_ * ESZ)), ("back", "const E*", "return &d.back();", P1, ptr_is((j_ + (-1)) * ESZ)), ("size", "std::size_t", "return d.size();", P0, int_is(j_ - i_)), ("data", "const E*", "return d.data();", P0, ptr_is(i_ * ESZ)),
                                         ("[]", "const E*", "return &d[k];", idx, ptr_is((i_ + L.v("kp")) * ESZ)), ("begin", "const E*", "return std::to_address(d.begin());", P0, ptr_is(i_ * ESZ)), ("end", "const E*", "return std::to_address(d.end());", P0, ptr_is(j_ * ESZ))):
            S.add(R3, "%sHeap: %s" % (cv, d), S.fn("%s @(E* p, E* q, long k)" % ret, "H h; %sH& d = h; %s" % (cv, body)), init, post, interp=(XI, {}))
    return S
def types(chk):
    T = []
    Hd = HDR + r'''
template<class X> concept Idx = requires(X x) { x[0]; }; template<class X> concept Empty = requires(X x) { x.empty(); }; template<class X> concept Data = requires(X x) { x.data(); };
template<class X> concept Size = requires(X x) { x.size(); }; template<class X> concept Front = requires(X x) { x.front(); }; template<class X> concept Back = requires(X x) { x.back(); };
'''
    seen = set()
    for E_, k, C, f, l, sized, common, const, cc in cases_():
        if E_ == "E": continue
        off = offered(k, sized, common)
        for a, y in off.items():
            T.append(TW("%s %s %s" % (C, "offers" if y else "does not offer", a.lower()), "static_assert(%s%s<%s&>);" % ("" if y else "!", a, C)))
            y2 = y and const
            T.append(TW("const %s %s %s" % (C, "offers" if y2 else "does not offer", a.lower()), "static_assert(%s%s<const %s&>);" % ("" if y2 else "!", a, C)))
        q = "const int" if cc else "int"
        if off["Front"] and const: T.append(TW("element types of const %s" % C, "static_assert(std::is_same_v<decltype(std::declval<const %s&>().front()), %s&>);" % (C, q)))
        if off["Front"]: T.append(TW("element types of %s" % C, "static_assert(std::is_same_v<decltype(std::declval<%s&>().front()), int&>);" % C))
        if off["Back"]: T.append(TW("last element type of %s" % C, "static_assert(std::is_same_v<decltype(std::declval<%s&>().back()), int&>%s);" % (C, " && std::is_same_v<decltype(std::declval<const %s&>().back()), %s&>" % (C, q) if const else "")))
        if off["Idx"]: T.append(TW("indexed element type of %s" % C, "static_assert(std::is_same_v<decltype(std::declval<%s&>()[0]), int&>%s);" % (C, " && std::is_same_v<decltype(std::declval<const %s&>()[0]), %s&>" % (C, q) if const else "")))
        if off["Data"]: T.append(TW("storage type of %s" % C, "static_assert(std::is_same_v<decltype(std::declval<%s&>().data()), int*>%s);" % (C, " && std::is_same_v<decltype(std::declval<const %s&>().data()), %s*>" % (C, q) if const else "")))
        if off["Size"]: T.append(TW("type of the size of %s" % C, "static_assert(std::is_same_v<decltype(std::declval<%s&>().size()), std::size_t>);" % C))
    for C, want in (("xme::Array<int>", "Idx Empty Data Size Front Back"), ("xme::LinkedList<int>", "Empty Front"), ("xme::ArrayView<int>", "Idx Empty Data Size Front Back"), ("xme::ArrayView<const int, 3>", "Idx Empty Data Size Front Back"), ("xme::Heap<int>", "Idx Empty Data Size Front Back")):
        for a in ("Idx", "Empty", "Data", "Size", "Front", "Back"):
            for cv in ("", "const "): T.append(TW("%s%s %s %s" % (cv, C, "offers" if a in want.split() else "does not offer", a.lower()), "static_assert(%s%s<%s%s&>);" % ("" if a in want.split() else "!", a, cv, C)))
    for C, r, c in (("xme::Array<int>", "int", "const int"), ("xme::Heap<int>", "const int", "const int"), ("xme::ArrayView<const int>", "const int", "const int")):
        T.append(TW("element access of %s" % C, "static_assert(std::is_same_v<decltype(std::declval<%s&>()[0]), %s&> && std::is_same_v<decltype(std::declval<const %s&>()[0]), %s&> && std::is_same_v<decltype(std::declval<%s&>().back()), %s&> && std::is_same_v<decltype(std::declval<const %s&>().front()), %s&> && std::is_same_v<decltype(std::declval<%s&>().data()), %s*> && std::is_same_v<decltype(std::declval<const %s&>().data()), %s*>);" % (C, r, C, c, C, r, C, c, C, r, C, c)))
    T.append(TW("element access of LinkedList", "static_assert(std::is_same_v<decltype(std::declval<xme::LinkedList<int>&>().front()), int&> && std::is_same_v<decltype(std::declval<const xme::LinkedList<int>&>().front()), const int&>);"))
    run_types(chk, R2, Hd, T)
def own(chk):
    """Array and LinkedList, from any valid representation"""
    try: lib = arraylib.Lib(ir.compile_ir(arraylib.HDR + arraylib.TEMPLATE, pipe=ir.PIPE_LOOP))
    except ir.BuildError as e: chk.fail(R3, "Array", *errs(e.out)); lib = None
    except (Unanalysable, KeyError, IndexError, StopIteration) as e: chk.undecided(R3, "Array", "representation: %s" % e); lib = None
    k = L.v("k")
    def chkv(f): return f
    if lib:
        ops = []
        for cv in ("", "const "):
            for d, ret, body, pre, post in (("empty", "bool", "x->empty()", 0, lambda n: rel_is("==", n)), ("size", "std::size_t", "x->size()", 0, int_is), ("capacity", "std::size_t", "x->capacity()", 0, lambda n: int_is(L.v("cap") if n != LZ else LZ)), ("front", "const E*", "&x->front()", 1, lambda n: ptr_is(LZ, "A")), ("back", "const E*", "&x->back()", 1, lambda n: ptr_is((n + (-1)) * ESZ, "A")), ("data", "const E*", "x->data()", 0, lambda n: ptr_is(LZ, "A" if n != LZ else "null")),
                                              ("[]", "const E*", "&(*x)[k]", 2, lambda n: ptr_is(k * ESZ, "A")), ("begin", "const E*", "x->begin().operator->()", 0, lambda n: ptr_is(LZ, "A" if n != LZ else "null")), ("end", "const E*", "x->end().operator->()", 0, lambda n: ptr_is(n * ESZ, "A" if n != LZ else "null")), ("end - begin", "long", "x->end() - x->begin()", 0, int_is), ("::ranges::size", "std::size_t", "::ranges::size(*x)", 0, int_is)):
                for sfx, full in (("", True), (" of an array without storage", False)):
                    if not full and pre: continue
                    nm = "op%d" % len(ops)
                    def init(full=full, pre=pre):
                        st = State()
                        if full:
                            nn, cap = L.v("n"), L.v("cap")
                            for e in (nn, cap - nn, -cap + (1 << 40), k): st.cons.add_ge(e)
                            if pre >= 1: st.cons.add_ge(nn + (-1))
                            if pre == 2: st.cons.add_ge(nn - k + (-1))
                            lib.obj(st, "x", nn, cap, "A")
                        else: lib.nullobj(st, "x")
                        return st, [Pt("x"), I(k)], ["n", "cap", "k"] if full else ["k"]
                    ops.append((nm, 'extern "C" %s %s(%sA* x, long k) { return %s; }\n' % (ret, nm, cv, body), "%sArray: %s%s" % (cv, d, sfx), init, post(N if full else LZ), (), ()))
        arraylib.run_ops(chk, arraylib.HDR, ops, {"mem": R3, "life": R3, "content": R3, "hang": R3}, False)
    try: ll = listlib.LLib(ir.compile_ir(listlib.HDR + listlib.TEMPLATE, pipe=ir.PIPE_LOOP))
    except ir.BuildError as e: chk.fail(R3, "LinkedList", *errs(e.out)); return
    except (Unanalysable, KeyError, IndexError, StopIteration) as e: chk.undecided(R3, "LinkedList", "representation: %s" % e); return
    ops = []
    for cv in ("", "const "):
        for d, ret, body, full, post in (("empty", "bool", "x->empty()", True, int_is(LZ)), ("empty of an empty list", "bool", "x->empty()", False, int_is(L1)), ("front", "const E*", "&x->front()", True, ptr_is(L.k(ll.elem), "A")), ("*begin", "const E*", "&*x->begin()", True, ptr_is(L.k(ll.elem), "A")), ("begin == end", "bool", "x->begin() == x->end()", True, int_is(LZ)), ("begin == end of an empty list", "bool", "x->begin() == x->end()", False, int_is(L1)), ("begin follows before_begin", "bool", "({ auto b = x->before_begin(); ++b == x->begin(); })", True, int_is(L1)),
                                         ("the element before begin's", "const E*", "({ auto b = x->begin(); auto o = b++; &*o; })", True, ptr_is(L.k(ll.elem), "A"))):
            nm = "op%d" % len(ops)
            def init(full=full):
                st = State()
                if full: st.cons.add_ge(N + (-1)); st.cons.add_ge(-N + (1 << 40)); ll.obj(st, "x", "A", N)
                else: ll.obj(st, "x", None, None)
                return st, [Pt("x")], ["n"] if full else []
            ops.append((nm, 'extern "C" %s %s(%sS* x) { return %s; }\n' % (ret, nm, cv, body), "%sLinkedList: %s" % (cv, d), init, post, (), ()))
    arraylib.run_ops(chk, listlib.HDR, ops, {"mem": R3, "life": R3, "content": R3, "hang": R3}, False)
def run(chk, thorough):
    S = suite()
    try: S.run(chk, None)
    except ir.BuildError as e: chk.fail(R1, "accessors of probe containers", *errs(e.out))
    types(chk); own(chk)
    for r, n in ((R1, 200), (R2, 200), (R3, 10)): chk.need(r, n)
