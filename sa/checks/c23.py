"""C23: iterator adaptors. Every operator for every position and offset against the position law of the adaptor; concept
witnesses for the categories; what a lower category must not offer is rejected."""
from .itlib import *
from ..typ import TW, run_types, errs
R1 = "dereference, movement and indexing designate the position the law gives"
R2 = "distance, equality and order are those of the positions"
R3 = "the adaptor has exactly the category the underlying iterator supports"
R4 = "read-only access and conversions"
HDR = ITERS + r'''
#include <xme/core/iterators/reverse_iterator.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/container/array.hpp>
template<class I> using R = xme::ReverseIterator<I>;
template<class I> using C = xme::ConstIterator<I>;
#include <ranges>
using IO = std::ranges::iterator_t<std::ranges::iota_view<int, int>>;
using AI = xme::Array<int>::iterator; using ACI = xme::Array<int>::const_iterator; using AE = xme::Array<E, Al<E>>::iterator; using ACE = xme::Array<E, Al<E>>::const_iterator;
'''
# adaptor, how to build it from p, element type, category level (0 input .. 4 contiguous), direction
ADAPT = []
for T, ct in (("int", "const int"), ("E", "const E")):
    for it, lv in (("%s*" % T, 4), ("%s*" % ct, 4), ("Bi<%s>" % T, 2), ("Ra<%s>" % T, 3), ("Rl<%s>" % T, 3)):
        ADAPT.append(("R<%s>" % it, "R<%s>(%s(p))" % (it, "I_") , it, T, min(lv, 3), -1))
    for it, lv in (("%s*" % T, 4), ("In<%s>" % T, 0), ("Fw<%s>" % T, 1), ("Bi<%s>" % T, 2), ("Ra<%s>" % T, 3), ("Rl<%s>" % T, 3)):
        ADAPT.append(("C<%s>" % it, "C<%s>(I_(p))" % it, it, T, lv, 1))
ADAPT += [("R<R<int*>>", "", "R<int*>", "int", 3, 1), ("R<C<int*>>", "", "C<int*>", "int", 3, -1), ("R<AI>", "", "AI", "int", 3, -1), ("R<ACE>", "", "ACE", "E", 3, -1), ("C<R<int*>>", "", "R<int*>", "int", 3, -1), ("C<AI>", "", "AI", "int", 3, 1),
          ("AI", "", "AI", "int", 3, 1), ("ACI", "", "ACI", "int", 3, 1), ("AE", "", "AE", "E", 3, 1), ("ACE", "", "ACE", "E", 3, 1), ("R<Bi<const E>>", "", "Bi<const E>", "E", 2, -1)]
def build(ad, it, p):
    if it.startswith("In<"): b = "%s{%s}" % (it, p)
    elif it.startswith(("R<", "C<")): b = "%s(%s)" % (it, p)
    else: b = "%s(%s)" % (it, p) if not it.endswith("*") else "static_cast<%s>(%s)" % (it, p)
    if ad == it: return b
    if ad.startswith("R<R<"): return "%s(%s)" % (ad, b)
    return "%s(%s)" % (ad, b)
def suite():
    S = Suite(HDR)
    for ad, _, it, T, lv, sg in ADAPT:
        esz = 4 if T == "int" else ESZ
        d = 0 if sg > 0 else -1
        if ad == "R<R<int*>>": d = 0
        A = lambda e: (e + d) * esz
        I0 = positions(esz)
        x = lambda q: build(ad, it, q)
        sig = "const %s* @(%s* p, %s* q, long k)" % (T, T, T); sigl = "long @(%s* p, %s* q, long k)" % (T, T); sigb = "bool @(%s* p, %s* q, long k)" % (T, T)
        def ptr(desc, body, e): S.add(R1, "%s: %s" % (ad, desc), S.fn(sig, body), I0, ptr_is(A(e)))
        def num(desc, body, e): S.add(R2, "%s: %s" % (ad, desc), S.fn(sigl, body), I0, int_is(e))
        def rel(desc, body, op, e): S.add(R2, "%s: %s" % (ad, desc), S.fn(sigb, body), I0, rel_is(op, e))
        def yes(desc, body): S.add(R1, "%s: %s" % (ad, desc), S.fn(sigl, body), I0, int_is(L1))
        ptr("*r", "return &*%s;" % x("p"), i_)
        ptr("r->", "return %s.operator->();" % x("p"), i_)
        ptr("++r moves", "auto r = %s; ++r; return &*r;" % x("p"), i_ + sg)
        yes("++r returns itself", "auto r = %s; return &++r == &r;" % x("p"))
        if lv >= 1:
            ptr("r++ returns the old position", "auto r = %s; auto o = r++; return &*o;" % x("p"), i_)
        ptr("r++ moves", "auto r = %s; r++; return &*r;" % x("p"), i_ + sg)
        ptr("copy", "auto r = %s; auto s = r; ++r; return &*s;" % x("p"), i_)
        ptr("assignment", "auto r = %s; auto s = %s; s = r; return &*s;" % (x("p"), x("q")), i_)
        for op in ("==", "!="): rel("r %s s" % op, "return %s %s %s;" % (x("p"), op, x("q")), op, i_ - j_)
        if lv >= 1: yes("value-initialised ones are equal", "return %s{} == %s{};" % (ad, ad))
        if lv >= 2:
            ptr("--r moves", "auto r = %s; --r; return &*r;" % x("p"), i_ - sg); yes("--r returns itself", "auto r = %s; return &--r == &r;" % x("p"))
            ptr("r-- returns the old position", "auto r = %s; auto o = r--; return &*o;" % x("p"), i_); ptr("r-- moves", "auto r = %s; r--; return &*r;" % x("p"), i_ - sg)
        if lv >= 3:
            ptr("r + n", "return &*(%s + k);" % x("p"), i_ + K * sg); ptr("n + r", "return &*(k + %s);" % x("p"), i_ + K * sg); ptr("r - n", "return &*(%s - k);" % x("p"), i_ - K * sg)
            ptr("r += n", "auto r = %s; r += k; return &*r;" % x("p"), i_ + K * sg); ptr("r -= n", "auto r = %s; r -= k; return &*r;" % x("p"), i_ - K * sg)
            yes("r += n returns itself", "auto r = %s; return &(r += k) == &r;" % x("p")); yes("r -= n returns itself", "auto r = %s; return &(r -= k) == &r;" % x("p"))
            ptr("r[n]", "auto r = %s; return &r[k];" % x("p"), i_ + K * sg); ptr("std::ranges::next(r, n)", "return &*std::ranges::next(%s, k);" % x("p"), i_ + K * sg)
            num("r - s", "return %s - %s;" % (x("p"), x("q")), (i_ - j_) * sg); num("std::ranges::distance(r, s)", "return std::ranges::distance(%s, %s);" % (x("p"), x("q")), (j_ - i_) * sg)
            for op in ("<", ">", "<=", ">="):
                rel("r %s s" % op, "return %s %s %s;" % (x("p"), op, x("q")), op, (i_ - j_) * sg)
                if "Rl<" not in ad: rel("(r <=> s) %s 0" % op, "return (%s <=> %s) %s 0;" % (x("p"), x("q"), op), op, (i_ - j_) * sg)
    # between different types of iterators over the same sequence
    def mixed(t, a, b, sg, base=None, ops=("==", "!=", "<", ">", "<=", ">=")):
        I0 = positions(4)
        for op in ops: S.add(R2, "%s: a %s b" % (t, op), S.fn("bool @(int* p, int* q, long k)", "auto a = %s; auto b = %s; return a %s b;" % (a, b, op)), I0, rel_is(op, (i_ - j_) * sg))
        if "<" in ops and "Rl<" not in a:
            for op in ("<", ">"): S.add(R2, "%s: (a <=> b) %s 0" % (t, op), S.fn("bool @(int* p, int* q, long k)", "auto a = %s; auto b = %s; return (a <=> b) %s 0;" % (a, b, op)), I0, rel_is(op, (i_ - j_) * sg))
    RI, RC = "R<int*>(%s)", "R<const int*>(%s)"
    mixed("reverse int* and const int*", RI % "p", RC % "q", -1); mixed("reverse const int* and int*", RC % "p", RI % "q", -1)
    mixed("reverse Array iterators, const and not", "R<AI>(AI(p))", "R<ACI>(ACI(q))", -1, ops=("==", "!="))
    mixed("const iterator and int*", "C<int*>(p)", "q", 1); mixed("int* and const iterator", "p", "C<int*>(q)", 1); mixed("const iterator and const int*", "C<int*>(p)", "static_cast<const int*>(q)", 1)
    mixed("const iterator and Array iterator", "C<AI>(AI(p))", "AI(q)", 1); mixed("Array iterator and const iterator", "AI(p)", "ACI(q)", 1); mixed("Array const iterator and iterator", "ACI(p)", "AI(q)", 1)
    mixed("const Ra and Ra", "C<Ra<int>>(Ra<int>(p))", "Ra<int>(q)", 1); mixed("const Bi and Bi", "C<Bi<int>>(Bi<int>(p))", "Bi<int>(q)", 1, ops=("==", "!="))
    mixed("const iterator without <=> and its underlying", "C<Rl<int>>(Rl<int>(p))", "Rl<int>(q)", 1); mixed("const iterator without <=> and a const underlying", "C<Rl<int>>(Rl<int>(p))", "Rl<const int>(q)", 1)
    for it in ("Fw", "Bi", "Ra", "Rl"): mixed("const %s and a sentinel" % it, "C<%s<int>>(%s<int>(p))" % (it, it), "Se<int>{q}", 1, ops=("==", "!=")); mixed("a sentinel and const %s" % it, "Se<int>{p}", "C<%s<int>>(%s<int>(q))" % (it, it), 1, ops=("==", "!="))
    for t, e in (("const iterator minus a sized sentinel", "C<Ra<int>>(Ra<int>(p)) - Ss<int>{q}"), ("a sized sentinel minus const iterator", "Ss<int>{p} - C<Ra<int>>(Ra<int>(q))"), ("const forward iterator minus a sized sentinel", "C<Fw<int>>(Fw<int>(p)) - Ss<int>{q}"), ("const iterator minus int*", "C<int*>(p) - q"), ("int* minus const iterator", "p - C<int*>(q)"), ("const iterator minus const int*", "C<int*>(p) - static_cast<const int*>(q)"), ("Array iterator minus const iterator", "ACI(AI(p)) - ACI(q)")):
        S.add(R2, t, S.fn("long @(int* p, int* q, long k)", "return %s;" % e), positions(4), int_is(i_ - j_))
    # conversions keep the position
    for t, e, d in (("ReverseIterator<int*> to ReverseIterator<const int*>", "R<const int*> c = R<int*>(p); return &*c;", -1), ("ReverseIterator of Array iterators to const", "R<ACI> c = R<AI>(AI(p)); return &*c;", -1), ("Array iterator to const_iterator", "ACI c = AI(p); return &*c;", 0),
                    ("ConstIterator<int*> to ConstIterator<const int*>", "C<const int*> c = C<int*>(p); return &*c;", 0), ("int* to ConstIterator<const int*>", "C<const int*> c = p; return &*c;", 0), ("ReverseIterator<Ra<int>> to ReverseIterator<Ra<const int>>", "R<Ra<const int>> c = R<Ra<int>>(Ra<int>(p)); return &*c;", -1),
                    ("make_const_iterator(int*)", "auto c = xme::make_const_iterator(p); return &*c;", 0), ("make_const_iterator(const int*)", "auto c = xme::make_const_iterator(static_cast<const int*>(p)); return &*c;", 0), ("make_const_iterator(Bi)", "auto c = xme::make_const_iterator(Bi<int>(p)); return &*c;", 0), ("make_const_sentinel(int*)", "auto c = xme::make_const_sentinel(p); return &*c;", 0),
                    ("std::to_address(ConstIterator<int*>)", "return std::to_address(C<int*>(p));", 0), ("std::to_address(Array iterator)", "return std::to_address(AI(p));", 0)):
        S.add(R4, t, S.fn("const int* @(int* p, int* q, long k)", e), positions(4), ptr_is((i_ + d) * 4))
    # iterators whose reference is a value, not an lvalue
    def posl():
        st = State()
        for x in ("i", "j", "kp", "km"): st.cons.add_ge(L.v(x)); st.cons.add_ge(-L.v(x) + (1 << 20))
        return st, [I(i_, 32), I(j_, 32), I(K)], ["i", "j", "kp", "km"]
    for ad, sg, d in (("R<IO>", -1, -1), ("C<IO>", 1, 0), ("R<C<IO>>", -1, -1), ("C<R<IO>>", -1, -1)):
        x = lambda q: ("%s(IO(%s))" % (ad, q)) if ad.count("<") == 1 else "%s(%s(IO(%s)))" % (ad, ad[2:-1], q)
        for desc, body, e in (("*r", "return *%s;" % x("p"), i_ + d), ("r[n]", "return %s[k];" % x("p"), i_ + K * sg + d), ("*(r + n)", "return *(%s + k);" % x("p"), i_ + K * sg + d), ("*(r - n)", "return *(%s - k);" % x("p"), i_ - K * sg + d),
                              ("*++r", "auto r = %s; return *++r;" % x("p"), i_ + sg + d), ("*--r", "auto r = %s; return *--r;" % x("p"), i_ - sg + d), ("*r++", "auto r = %s; return *r++;" % x("p"), i_ + d), ("r - s", "return %s - %s;" % (x("p"), x("q")), (i_ - j_) * sg)):
            S.add(R1, "%s: %s" % (ad, desc), S.fn("long @(int p, int q, long k)", body), posl, int_is(e))
        for op in ("==", "!=", "<", ">", "<=", ">="): S.add(R2, "%s: r %s s" % (ad, op), S.fn("bool @(int p, int q, long k)", "return %s %s %s;" % (x("p"), op, x("q"))), posl, rel_is(op, (i_ - j_) * sg))
    return S
def types(chk):
    T = []
    CON = ["std::input_iterator", "std::forward_iterator", "std::bidirectional_iterator", "std::random_access_iterator", "std::contiguous_iterator"]
    TAG = ["std::input_iterator_tag", "std::forward_iterator_tag", "std::bidirectional_iterator_tag", "std::random_access_iterator_tag"]
    H = HDR + r'''
template<class X> concept Dec = requires(X x) { --x; }; template<class X> concept DecP = requires(X x) { x--; };
template<class X> concept Plus = requires(X x) { x + 1; }; template<class X> concept PlusL = requires(X x) { 1 + x; }; template<class X> concept Minus = requires(X x) { x - 1; }; template<class X> concept PEq = requires(X x) { x += 1; }; template<class X> concept MEq = requires(X x) { x -= 1; };
template<class X> concept Idx = requires(X x) { x[1]; }; template<class X> concept Diff = requires(X x) { x - x; }; template<class X> concept Lt = requires(X x) { x < x; };
'''
    for ad, _, it, t, lv, sg in ADAPT:
        for l, c in enumerate(CON):
            if l <= lv: T.append(TW("%s is %s" % (ad, c), "static_assert(%s<%s>);" % (c, ad)))
            elif l < 4 or it not in ("AI", "ACI", "AE", "ACE") or sg < 0: T.append(TW("%s is not %s" % (ad, c), "static_assert(!%s<%s>);" % (c, ad)))
        if lv >= 1: T.append(TW("iterator category of %s" % ad, "static_assert(std::is_same_v<std::iterator_traits<%s>::iterator_category, %s>);" % (ad, TAG[min(lv, 3)])))
        if ad not in ("AI", "ACI", "AE", "ACE"):
            tags = TAG + ["std::contiguous_iterator_tag"]
            T.append(TW("iterator concept tag of %s" % ad, "static_assert([] { if constexpr(requires { typename %s::iterator_concept; }) return std::is_base_of_v<%s, %s::iterator_concept>%s; else return true; }());" % (ad, tags[lv], ad, " && !std::is_base_of_v<%s, %s::iterator_concept>" % (tags[lv + 1], ad) if lv < 4 else "")))
        ops = []
        if lv < 2: ops += ["Dec", "DecP"]
        if lv < 3: ops += ["Plus", "PlusL", "Minus", "PEq", "MEq", "Idx", "Diff", "Lt"]
        for o in ops: T.append(TW("%s does not offer %s" % (ad, o), "static_assert(!%s<%s>);" % (o, ad)))
        T.append(TW("associated types of %s" % ad, "static_assert(std::is_same_v<std::iter_value_t<%s>, %s> && std::is_same_v<std::iter_difference_t<%s>, std::ptrdiff_t>);" % (ad, t, ad)))
        const = ad.startswith("C<") or "const" in ad or "ACI" in ad or "ACE" in ad or ad == "R<C<int*>>"
        T.append(TW("reference of %s is %s" % (ad, "read-only" if const else "writable"), "static_assert(std::is_same_v<decltype(*std::declval<const %s&>()), %s%s&> && std::is_same_v<std::iter_reference_t<%s>, %s%s&>);" % (ad, "const " if const else "", t, ad, "const " if const else "", t)))
        T.append(TW("pointer of %s is %s" % (ad, "read-only" if const else "writable"), "static_assert(std::is_same_v<decltype(std::declval<const %s&>().operator->()), %s%s*>);" % (ad, "const " if const else "", t)))
        if lv >= 3: T.append(TW("index reference of %s is %s" % (ad, "read-only" if const else "writable"), "static_assert(std::is_same_v<decltype(std::declval<const %s&>()[0]), %s%s&>);" % (ad, "const " if const else "", t)))
    for ad in ("R<IO>", "C<IO>", "R<C<IO>>", "C<R<IO>>"):
        for l, c in enumerate(CON): T.append(TW("%s is %s%s" % (ad, "" if l < 4 else "not ", c), "static_assert(%s%s<%s>);" % ("" if l < 4 else "!", c, ad)))
    PX = "struct Px { using value_type = int; using difference_type = std::ptrdiff_t; using pointer = void; using reference = int; using iterator_category = std::input_iterator_tag; using iterator_concept = std::random_access_iterator_tag; int v; int operator*() const; Px& operator++(); Px operator++(int); Px& operator--(); Px operator--(int); Px& operator+=(std::ptrdiff_t); Px& operator-=(std::ptrdiff_t); friend Px operator+(Px, std::ptrdiff_t); friend Px operator+(std::ptrdiff_t, Px); friend Px operator-(Px, std::ptrdiff_t); friend std::ptrdiff_t operator-(Px, Px); int operator[](std::ptrdiff_t) const; bool operator==(const Px&) const = default; auto operator<=>(const Px&) const = default; }; "
    for ad in ("R<Px>", "C<Px>"):
        T.append(TW("%s over an iterator that yields values keeps the C++17 category" % ad, PX + "static_assert(std::random_access_iterator<Px> && std::is_same_v<std::iterator_traits<Px>::iterator_category, std::input_iterator_tag>); static_assert(std::is_same_v<%s::iterator_category, std::input_iterator_tag>);" % ad))
        T.append(TW("%s over an iterator that yields values is a random access iterator" % ad, PX + "static_assert(std::random_access_iterator<%s>);" % ad))
        T.append(TW("%s over an iterator that yields values yields values" % ad, PX + "static_assert(std::is_same_v<decltype(*std::declval<const %s&>()), int> && std::is_same_v<decltype(std::declval<const %s&>()[1]), int>);" % (ad, ad)))
    T.append(TW("operator-> of ConstIterator needs none of the underlying iterator", "struct Na { using value_type = int; using difference_type = std::ptrdiff_t; int* p; int& operator*() const; Na& operator++(); Na operator++(int); bool operator==(const Na&) const = default; }; inline const int* f(const C<Na>& i) { return i.operator->(); }"))
    for a, b, y in (("R<const int*>", "R<int*>", False), ("C<const int*>", "C<int*>", False), ("ACI", "AI", False), ("C<int*>", "int*", False), ("R<int*>", "int*", True)):
        if not y: T.append(TW("%s does not convert to %s" % (a, b), "static_assert(!std::is_convertible_v<%s, %s>);" % (a, b)))
    for a in ("R", "C"):
        T.append(TW("%s over something that is not an iterator is rejected" % a, "using X = %s<@@>; X x;" % a, "int", "int*", header=H))
    T.append(TW("ReverseIterator over a forward iterator is rejected", "using X = R<@@>; X x;", "Fw<int>", "Bi<int>", header=H))
    T.append(TW("make_const_iterator keeps iterators that are constant already", "static_assert(std::is_same_v<decltype(xme::make_const_iterator(static_cast<const int*>(nullptr))), const int*> && std::is_same_v<decltype(xme::make_const_iterator(static_cast<int*>(nullptr))), C<int*>>);"))
    T.append(TW("make_const_sentinel gives read-only iterators and other sentinels as they are", "static_assert(std::is_same_v<decltype(xme::make_const_sentinel(static_cast<const int*>(nullptr))), const int*> && std::is_same_v<decltype(xme::make_const_sentinel(static_cast<int*>(nullptr))), C<int*>> && std::is_same_v<decltype(xme::make_const_sentinel(Bi<int>())), C<Bi<int>>> && std::is_same_v<decltype(xme::make_const_sentinel(std::default_sentinel)), std::default_sentinel_t> && std::is_same_v<decltype(xme::make_const_sentinel(Se<int>{})), Se<int>>);"))
    run_types(chk, R3, H, T)
def run(chk, thorough):
    S = suite()
    try: S.run(chk, None)
    except ir.BuildError as e: chk.fail(R1, "iterator operations", *errs(e.out))
    types(chk)
    for r, n in ((R1, 300), (R2, 250), (R3, 250), (R4, 10)): chk.need(r, n)
