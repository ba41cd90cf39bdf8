"""Positions and ranges over one contiguous region, decided for all positions, sizes and offsets (used by C23, C24, C25)."""
from ..har import *
from ..probe import PROBE
from .. import ir, lin
N = L.v("n"); i_, j_ = L.v("i"), L.v("j"); K = L.v("kp") - L.v("km")
ITERS = PROBE + r'''
#include <iterator>
#include <type_traits>
#include <compare>
// iterators of one category each over contiguous storage; every operation of a lower category is present, none of a higher one
template<class T> struct In { using value_type = std::remove_cv_t<T>; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&; using iterator_category = std::input_iterator_tag; using iterator_concept = std::input_iterator_tag;
    T* p = nullptr; T& operator*() const { return *p; } T* operator->() const { return p; } In& operator++() { ++p; return *this; } void operator++(int) { ++p; } bool operator==(const In&) const = default; };
template<class T> struct Fw { using value_type = std::remove_cv_t<T>; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&; using iterator_category = std::forward_iterator_tag;
    T* p = nullptr; Fw() = default; Fw(T* q) : p(q) {} operator Fw<const T>() const requires(!std::is_const_v<T>) { return p; }
    T& operator*() const { return *p; } T* operator->() const { return p; } Fw& operator++() { ++p; return *this; } Fw operator++(int) { auto t = *this; ++p; return t; } bool operator==(const Fw&) const = default; };
template<class T> struct Bi { using value_type = std::remove_cv_t<T>; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&; using iterator_category = std::bidirectional_iterator_tag;
    T* p = nullptr; Bi() = default; Bi(T* q) : p(q) {} operator Bi<const T>() const requires(!std::is_const_v<T>) { return p; }
    T& operator*() const { return *p; } T* operator->() const { return p; } Bi& operator++() { ++p; return *this; } Bi operator++(int) { auto t = *this; ++p; return t; } Bi& operator--() { --p; return *this; } Bi operator--(int) { auto t = *this; --p; return t; } bool operator==(const Bi&) const = default; };
template<class T> struct Ra { using value_type = std::remove_cv_t<T>; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&; using iterator_category = std::random_access_iterator_tag;
    T* p = nullptr; Ra() = default; Ra(T* q) : p(q) {} operator Ra<const T>() const requires(!std::is_const_v<T>) { return p; }
    T& operator*() const { return *p; } T* operator->() const { return p; } Ra& operator++() { ++p; return *this; } Ra operator++(int) { auto t = *this; ++p; return t; } Ra& operator--() { --p; return *this; } Ra operator--(int) { auto t = *this; --p; return t; }
    Ra& operator+=(std::ptrdiff_t n) { p += n; return *this; } Ra& operator-=(std::ptrdiff_t n) { p -= n; return *this; } friend Ra operator+(Ra a, std::ptrdiff_t n) { a.p += n; return a; } friend Ra operator+(std::ptrdiff_t n, Ra a) { a.p += n; return a; } friend Ra operator-(Ra a, std::ptrdiff_t n) { a.p -= n; return a; }
    friend std::ptrdiff_t operator-(Ra a, Ra b) { return a.p - b.p; } T& operator[](std::ptrdiff_t n) const { return p[n]; } bool operator==(const Ra&) const = default; auto operator<=>(const Ra&) const = default; };
template<class T> struct Rl { using value_type = std::remove_cv_t<T>; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&; using iterator_category = std::random_access_iterator_tag;
    T* p = nullptr; Rl() = default; Rl(T* q) : p(q) {} operator Rl<const T>() const requires(!std::is_const_v<T>) { return p; }
    T& operator*() const { return *p; } T* operator->() const { return p; } Rl& operator++() { ++p; return *this; } Rl operator++(int) { auto t = *this; ++p; return t; } Rl& operator--() { --p; return *this; } Rl operator--(int) { auto t = *this; --p; return t; }
    Rl& operator+=(std::ptrdiff_t n) { p += n; return *this; } Rl& operator-=(std::ptrdiff_t n) { p -= n; return *this; } friend Rl operator+(Rl a, std::ptrdiff_t n) { a.p += n; return a; } friend Rl operator+(std::ptrdiff_t n, Rl a) { a.p += n; return a; } friend Rl operator-(Rl a, std::ptrdiff_t n) { a.p -= n; return a; }
    friend std::ptrdiff_t operator-(Rl a, Rl b) { return a.p - b.p; } T& operator[](std::ptrdiff_t n) const { return p[n]; }  template<class U> requires std::is_same_v<std::remove_const_t<T>, std::remove_const_t<U>> bool operator==(const Rl<U>& o) const { return p == o.p; }
    template<class U> requires std::is_same_v<std::remove_const_t<T>, std::remove_const_t<U>> bool operator<(const Rl<U>& o) const { return p < o.p; }
    template<class U> requires std::is_same_v<std::remove_const_t<T>, std::remove_const_t<U>> bool operator>(const Rl<U>& o) const { return p > o.p; }
    template<class U> requires std::is_same_v<std::remove_const_t<T>, std::remove_const_t<U>> bool operator<=(const Rl<U>& o) const { return p <= o.p; }
    template<class U> requires std::is_same_v<std::remove_const_t<T>, std::remove_const_t<U>> bool operator>=(const Rl<U>& o) const { return p >= o.p; }
};   // random access, ordered, but without <=>
template<class T> struct Se { T* e = nullptr; template<class I> requires requires(I i) { i.p; } friend bool operator==(const I& i, Se s) { return i.p == s.e; } };            // an end that only compares
template<class T> struct Ss { T* e = nullptr; template<class I> requires requires(I i) { i.p; } friend bool operator==(const I& i, Ss s) { return i.p == s.e; }                 // and one that knows the distance
    template<class I> requires requires(I i) { i.p; } friend std::ptrdiff_t operator-(Ss s, const I& i) { return s.e - i.p; } template<class I> requires requires(I i) { i.p; } friend std::ptrdiff_t operator-(const I& i, Ss s) { return i.p - s.e; } };
'''
class Suite:
    def __init__(s, hdr): s.src = hdr; s.tasks = []; s.k = 0; s.seen = set()
    def fn(s, sig, body):
        s.k += 1; name = "w%d" % s.k
        s.src += 'extern "C" %s { %s }\n' % (sig.replace("@", name), body)
        return name
    def add(s, rule, desc, fname, init, post, **kw):
        d = desc; q = 2
        while d in s.seen: d = "%s (%d)" % (desc, q); q += 1
        s.seen.add(d)
        interp = kw.pop('interp', None); t = Task(d, fname, init, post, bound=3, **kw); s.tasks.append((rule, t))
        if interp: t.interp = interp
    def run(s, chk, cats, ndebug=True, mod=None):
        """cats: {rule: category map}"""
        m = mod or ir.compile_ir(s.src, pipe=ir.PIPE_LOOP, ndebug=ndebug)
        for rule in dict.fromkeys(r for r, _ in s.tasks):
            run_tasks(chk, None, [m], [t for r, t in s.tasks if r == rule], {"mem": rule, "life": rule, "content": rule, "hang": rule})
def region(st, name, esz, n, elems=None):
    r = Reg(name, esz, n, "arg"); st.mem[name] = r
    if esz == ESZ: r.elems[0] = ((LZ, n, ("o", name, 1, LZ)),)
    else: r.fields[0] = (esz, 0, ((LZ, n, ("int", name, 1, LZ)),)) if False else (esz, 0, ((LZ, n, ("o", name, 1, LZ)),))
    return r
def positions(esz, sorted_=False, extra=(), lim=1 << 30):
    """two positions in [0,n], an offset of either sign"""
    def init():
        st = State()
        for x in ("n", "i", "j", "kp", "km"): st.cons.add_ge(L.v(x)); st.cons.add_ge(-L.v(x) + lim)
        st.cons.add_ge(N - i_); st.cons.add_ge(N - j_)
        for e in extra: st.cons.add_ge(e)
        region(st, "a", esz, N)
        return st, [Pt("a", i_ * esz), Pt("a", j_ * esz), I(K)], ["n", "i", "j", "kp", "km"]
    return init
def ptr_is(exp, region_="a"):
    def post(o, it):
        if o.kind != "ret": return [("content", "does not return")]
        v = o.val
        if v == U or v[0] != "p" or v[1] != region_: return [("content", "designates %s" % (v,))]
        e = exp if isinstance(exp, L) else exp(o)
        if not o.st.eq(v[2] - e): return [("content", "designates byte offset %r, expected %r" % (o.st.cons.norm(v[2]), o.st.cons.norm(e)))]
        return []
    return post
def int_is(exp):
    def post(o, it):
        if o.kind != "ret": return [("content", "does not return")]
        v = o.val
        if v is True or v is False: v = I(L1 if v else LZ)
        if v == U or v[0] != "i": return [("content", "returns %s" % (v,))]
        if not o.st.eq(v[1] - exp): return [("content", "returns %r, expected %r" % (o.st.cons.norm(v[1]), o.st.cons.norm(exp)))]
        return []
    return post
REL = {"==": lambda s, e: s.eq(e), "!=": lambda s, e: not s.eq(e), "<": lambda s, e: s.ge(-e + (-1)), ">": lambda s, e: s.ge(e + (-1)), "<=": lambda s, e: s.ge(-e), ">=": lambda s, e: s.ge(e)}
def rel_is(op, e):
    def post(o, it):
        if o.kind != "ret": return [("content", "does not return")]
        v = o.val
        if isinstance(v, tuple) and v[0] == "i": v = not o.st.eq(v[1])
        if v is not True and v is not False: return [("content", "returns %s" % (v,))]
        w = REL[op](o.st, e)
        return [] if v == w else [("content", "is %s where %s is required" % (v, w))]
    return post
