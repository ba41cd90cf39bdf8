"""Array operations analysed by engine B (used by C11, C12, C13)."""
from ..har import *
from ..probe import PROBE
HDR = PROBE + r'''
#include <xme/container/array.hpp>
#ifdef STATEFUL
template<class T> using AL = Ag<T>;
#else
template<class T> using AL = Al<T>;
#endif
using A = xme::Array<E, AL<E>>;
using It = A::const_iterator;
// forward and single-pass iterators over contiguous elements
struct FwdIt { using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E*; using reference = const E&; using iterator_category = std::forward_iterator_tag;
    const E* p = nullptr; const E& operator*() const { return *p; } FwdIt& operator++() { ++p; return *this; } FwdIt operator++(int) { auto t = *this; ++p; return t; } bool operator==(const FwdIt&) const = default; };
struct InIt { using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E*; using reference = const E&; using iterator_category = std::input_iterator_tag; using iterator_concept = std::input_iterator_tag;
    const E* p = nullptr; const E& operator*() const { return *p; } InIt& operator++() { ++p; return *this; } void operator++(int) { ++p; } bool operator==(const InIt&) const = default; };
struct FwdR { const E* f; const E* l; FwdIt begin() const { return {f}; } FwdIt end() const { return {l}; } };
struct MutR { E* f; E* l; E* begin() const { return f; } E* end() const { return l; } };
struct PtrR { const E* f; const E* l; const E* begin() const { return f; } const E* end() const { return l; } };
'''
n, cap, m, mcap, pos, cnt, k = (L.v(x) for x in ("n", "cap", "m", "mcap", "pos", "cnt", "k"))
LIM = 1 << 40

class Lib:
    """representation template of the container, taken from its constructor and one append"""
    IDS = {"x": 7, "y": 9}
    def __init__(self, mod):
        self.idoff = None
        st = State(); st.cons.add_ge(n); st.cons.add_ge(cap - n); st.cons.add_ge(-cap + LIM)
        self.size = None
        x = Reg("x", 4096, L1, "arg"); st.mem["x"] = x
        src(st, "S", n)
        outs = Interp(mod).run("tmpl", [Pt("x"), I(cap), Pt("S"), Pt("S", n * ESZ)], st)
        best = [o for o in outs if o.kind == "ret" and o.st.cons.sat_with(n + (-2))]
        if not best: raise Unanalysable("no template")
        o = best[0].st
        self.cells = {}
        for off, (sz, tag, segs) in o.mem["x"].fields.items():
            d = segs[0][2]
            if d[0] in ("ptr", "int"): d = (d[0], d[1], d[2], o.cons.norm(d[3])) + d[4:]
            if d[0] == "ptr" and d[1].startswith("heap"): d = (d[0], "H") + d[2:]
            if d[0] == "int" and d[3].const() and d[3].c == 7777: self.idoff = off; continue
            self.cells[off] = (sz, d)
        o2 = Interp(mod).run("tnull", [Pt("x")], self._empty())[0].st
        self.null = {off: (sz, segs[0][2]) for off, (sz, tag, segs) in o2.mem["x"].fields.items() if off != self.idoff}
        if self.idoff is not None: self.idt = next(segs[0][2] for off, (sz, tag, segs) in o.mem["x"].fields.items() if off == self.idoff)
        self.esz = max(off + sz for off, (sz, d) in list(self.cells.items()) + list(self.null.items()))
        if self.idoff is not None: self.esz = max(self.esz, self.idoff + 8)
        self.bytes = (self.esz + 7) // 8 * 8
        self.inv = {}
        for name, s in (("n", n), ("cap", cap)):
            for off, (sz, d) in self.cells.items():
                if d[0] in ("ptr", "int") and d[3] == s: self.inv[name] = off; break
            else: raise Unanalysable("representation does not hold " + name)
        self.data = next(off for off, (sz, d) in self.cells.items() if d[0] == "ptr" and d[3] == LZ and d[1] == "H")
    def _empty(self):
        st = State(); st.mem["x"] = Reg("x", 4096, L1, "arg"); return st
    def setid(self, r, name):
        if self.idoff is not None: r.fields[self.idoff] = (8, 0, ((LZ, L1, self.idt[:3] + (L.k(self.IDS[name]),) + self.idt[4:]),))
    def obj(self, st, name, ns, caps, heap):
        r = Reg(name, self.bytes, L1, "arg")
        for off, (sz, d) in self.cells.items():
            if d[0] in ("ptr", "int"): d = (d[0], heap if d[1] == "H" else d[1], d[2], d[3].subst({"n": ns, "cap": caps})) + d[4:]
            r.fields[off] = (sz, 0, ((LZ, L1, d),))
        st.mem[name] = r; self.setid(r, name)
        h = Reg(heap, ESZ, caps, "heap", caps)
        if self.idoff is not None: h.owner = L.k(self.IDS[name])
        h.elems[0] = merge(st.cons, ((LZ, ns, ("o", heap, 1, LZ)), (ns, caps, RAW)))
        st.mem[heap] = h
    def nullobj(self, st, name):
        r = Reg(name, self.bytes, L1, "arg")
        for off, (sz, d) in self.null.items(): r.fields[off] = (sz, 0, ((LZ, L1, d),))
        st.mem[name] = r; self.setid(r, name)
    def rawobj(self, st, name): st.mem[name] = Reg(name, self.bytes, L1, "arg")
    def cell(self, s, name, off):
        f = s.mem[name].fields.get(off)
        return f[2][0][2] if f else UND
    def read(self, s, name):
        """(heap region or None, n, cap, problems) of an object in a final state"""
        def isnull(d): return d == NULLD or d[0] == "int" and s.cons.eq0(d[3])
        if all(isnull(self.cell(s, name, off)) for off in self.cells): return None, LZ, LZ, []
        d = self.cell(s, name, self.data)
        if d[0] != "ptr": return None, None, None, [("life", "the storage pointer of %s is %s" % (name, d))]
        heap = d[1]
        ns = self.cell(s, name, self.inv["n"]); cs = self.cell(s, name, self.inv["cap"])
        if ns[0] not in ("ptr", "int") or cs[0] not in ("ptr", "int"): return None, None, None, [("life", "size or capacity of %s is not defined: %s, %s" % (name, ns, cs))]
        N, C = s.cons.norm(ns[3]), s.cons.norm(cs[3])
        for off, (sz, t) in self.cells.items():
            e = self.cell(s, name, off)
            if t[0] in ("ptr", "int"): t = (t[0], heap if t[1] == "H" else t[1], t[2], t[3].subst({"n": N, "cap": C})) + t[4:]
            if t[0] != e[0] or t[0] in ("ptr", "int") and (t[1] != e[1] or not s.eq(t[3] - e[3])):
                return None, None, None, [("life", "%s is inconsistent: its cell at offset %d is %s where %s is required" % (name, off, e, t))]
        return heap, N, C, []
    def invariant(self, s, name, used):
        """lifetime invariant of a final object: [0,n) live, [n,cap) raw, the block is owned and has the recorded size"""
        heap, N, C, ps = self.read(s, name)
        if ps: return None, None, None, ps
        if heap is None: return None, LZ, LZ, []
        if heap in used: return heap, N, C, [("life", "%s shares its storage with another owner" % name)]
        used.add(heap)
        h = s.mem[heap]
        if h.kind != "heap": return heap, N, C, [("life", "%s holds released storage" % name)]
        if not s.eq(C - h.allocn): return heap, N, C, [("life", "%s records a capacity of %r for a block of %r" % (name, C, s.cons.norm(h.allocn)))]
        if self.idoff is not None:
            d = self.cell(s, name, self.idoff)
            if d[0] != "int": return heap, N, C, [("life", "the allocator of %s is not initialised" % name)]
            if h.owner is not None and not s.eq(h.owner - d[3]): return heap, N, C, [("life", "%s holds storage of another allocator (its allocator is %r, the storage came from %r)" % (name, s.cons.norm(d[3]), s.cons.norm(h.owner)))]
        if not s.ge(C - N) or not s.ge(N): return heap, N, C, [("life", "the size %r of %s is outside its capacity %r" % (N, name, C))]
        segs = h.elems.get(0, ((LZ, h.len, RAW),))
        for lo, hi, d in segs:
            if not s.ge(hi - lo + (-1)): continue
            if d == RAW and not s.ge(lo - N): return heap, N, C, [("life", "%s counts a position that holds no element (position %r of size %r)" % (name, s.cons.norm(lo), N))]
            if d != RAW and not s.ge(N - hi): return heap, N, C, [("life", "an element past the size of %s is never destroyed (position %r, size %r)" % (name, s.cons.norm(hi + (-1)), N))]
        return heap, N, C, []
    def contents(self, s, name, heap, N, pieces, what=""):
        """pieces: [(count, fn(start)->descriptor)]"""
        exp = []; p = LZ
        for c, f in pieces:
            exp.append((p, p + c, f(p))); p = p + c
        if not s.eq(p - N): return [("content", "size of %s is %r, specified %r" % (name, s.cons.norm(N), s.cons.norm(p)))]
        if heap is None: return []
        h = s.mem[heap]
        segs = tuple(x for x in h.elems.get(0, ((LZ, h.len, RAW),)))
        act = split_range(s, segs, LZ, N)
        r = segs_same(s, tuple(act), tuple(exp))
        if r is None: return []
        s2, at, d1, d2 = r
        return [("content", "position %r of %s holds %s, specified %s" % (s2.cons.norm(at), name, show(s2, d1), show(s2, d2)))]

def show(s, d):
    if d == RAW: return "no element"
    if d == MV: return "a moved-from value"
    if d[0] == "o": return "the value that was at %s[%r]" % (d[1], s.cons.norm(d[3]))
    if d[0] == "k": return "the value %s" % d[1]
    return str(d)

def src(st, name, count, kind="arg"):
    r = Reg(name, ESZ, count, kind); r.elems[0] = ((LZ, count, ("o", name, 1, LZ)),); st.mem[name] = r
def val(st, name, kind="arg"):
    r = Reg(name, ESZ, L1, kind); r.elems[0] = ((LZ, L1, ("k", name)),); st.mem[name] = r
def orig(heap, frm): return lambda p: ("o", heap, 1, frm - p)
def const(name): return lambda p: ("k", name)

def general(st, *facts):
    for e in facts: st.cons.add_ge(e)

class Op:
    """objs: how each object argument starts: 'raw' | 'gen' | 'null' ; expect: name -> pieces ..."""

def finish(lib, live, locals_ok=True):
    pass

def leaks(s, used, keep):
    out = []
    for r in s.mem.values():
        if r.kind == "heap" and r.name not in used:
            out.append(("life", "storage allocated or owned before the operation is never released (%s)" % ("the old block" if not r.name.startswith("heap") else "a new block")))
        if r.kind == "alloca":
            for off, segs in r.elems.items():
                if any(d != RAW for lo, hi, d in segs): out.append(("life", "a local element is never destroyed"))
        if r.kind == "exc": pass
    return out
def unchanged(s, name, d=None):
    r = s.mem[name]
    segs = r.elems.get(0, ())
    exp = ((LZ, r.len, ("o", name, 1, LZ)),) if d is None else ((LZ, L1, d),)
    x = segs_same(s, segs, exp)
    if x is None: return []
    if d == MV: return [("content", "the rvalue argument is not moved from (it holds %s)" % show(x[0], x[2]))]
    return [("source", "a source element is changed: position %r holds %s" % (x[0].cons.norm(x[1]), show(x[0], x[2])))]
def alive(s, name):
    r = s.mem[name]
    for lo, hi, d in r.elems.get(0, ((LZ, r.len, RAW),)):
        if d == RAW and s.ge(hi - lo + (-1)): return [("life", "a source element is destroyed")]
    return []

def build(lib, thorough=False):
    """[(name, C++ text, Task arguments)]"""
    ops = []
    def op(desc, sig, body, init, post, syms, throwing=()):
        name = "op%d" % len(ops)
        ops.append((name, 'extern "C" %s { %s }\n' % (sig.replace("@", name), body), desc, init, post, syms, throwing))
    # ---- pre-states of *this
    def gen(st, name="x", heap="A", ns=n, cs=cap):
        general(st, ns, cs - ns, -cs + LIM); lib.obj(st, name, ns, cs, heap)
    def nul(st, name="x"):
        lib.nullobj(st, name)
    PRE = [("", gen, ("n", "cap"), "A"), (" on an empty array without storage", nul, (), None)]
    def mk(pre, extra, args, syms):
        def init():
            st = State(); pre(st); a = extra(st) if extra else []
            return st, args(a) if callable(args) else args, syms
        return init
    def post_obj(checks, ret=None, objs=("x",), srcs=(), vals=(), ctor=False, rv=None, dead=()):
        """generic post-condition.  checks: name -> fn(s, heap, N, C) -> problems, evaluated on normal return"""
        def post(o, it):
            s = o.st; ps = []; used = set()
            threw = any(e[0] == "throw" for e in s.events)
            if o.kind == "term": return [("propagate", "the exception of an element operation ends in std::terminate")] if threw else [("life", "the operation terminates the program")]
            if o.kind == "ret" and threw: ps.append(("propagate", "an exception of an element operation is swallowed"))
            info = {}
            for x in objs:
                if (ctor and x == "x" and o.kind == "unwind") or x in dead: continue
                h, N, C, p = lib.invariant(s, x, used)
                ps += p; info[x] = (h, N, C)
                if p: return tag(ps, o)
            ps += leaks(s, used, ())
            for q in srcs: ps += alive(s, q)
            if o.kind == "ret" and not ps:
                for x, f in checks.items():
                    if x in info: ps += f(s, *info[x])
                for q in srcs: ps += unchanged(s, q)
                for q, d in vals: ps += unchanged(s, q, d)
                if rv is not None and not ps:
                    h, N, C = info[objs[0]]
                    e = rv(s, h, N, C)
                    if not same_ptr(s, o.val, e): ps.append(("content", "returns %s, specified %s" % (showp(s, o.val), showp(s, e))))
            return tag(ps, o)
        return post
    def tag(ps, o):
        if o.kind != "unwind": return ps
        return [("exc" if c in ("life",) else c, msg + " | when an element operation throws") for c, msg in ps]
    def same_ptr(s, a, b):
        if a == b: return True
        if a == U or b == U or a is None: return False
        if isinstance(a, bool) or isinstance(b, bool): return a == b
        if a[0] == "i": return b[0] == "i" and s.eq(a[1] - b[1])
        return a[0] == b[0] == "p" and a[1] == b[1] and s.eq(a[2] - b[2])
    def showp(s, v):
        if v == U or v is None: return "an undefined value"
        if v[0] == "p": return "null" if v[1] == "null" else "%s[%r]" % (v[1], (lambda q: q if q is not None else s.cons.norm(v[2]))(s.cons.norm(v[2]).div(ESZ)))
        return str(v)
    def has(name, pieces, capreq=None):
        def f(s, h, N, C):
            ps = lib.contents(s, name, h, N, pieces)
            if not ps and capreq: ps = capreq(s, N, C)
            return ps
        return f
    def cap_is(c, why): return lambda s, N, C: [] if s.eq(C - c) else [("content", "capacity is %r, specified %r (%s)" % (s.cons.norm(C), s.cons.norm(c), why))]
    def cap_ge(c, why): return lambda s, N, C: [] if s.ge(C - c) else [("content", "capacity is %r, specified at least %r (%s)" % (s.cons.norm(C), s.cons.norm(c), why))]
    THR = ("e_def", "e_make", "e_copy", "e_move", "e_casg", "e_masg", "a_alloc")
    X = [Pt("x")]
    none = lambda st: None
    # ---- constructors
    def ctor(desc, sig, body, extra, args, pieces, syms, srcs=(), vals=(), capreq=None, ys=(), checks=None):
        def pre(st): lib.rawobj(st, "x")
        ch = {"x": has("x", pieces, capreq)}; ch.update(checks or {})
        op(desc, sig, body, mk(pre, extra, lambda a: X + args, syms), post_obj(ch, ctor=True, srcs=srcs, vals=vals, objs=("x",) + tuple(ys)), syms, THR)
    def srcn(st): general(st, m, -m + LIM); src(st, "S", m)
    SP = [Pt("S"), Pt("S", m * ESZ)]
    def srcf(c): return lambda st: src(st, "S", L.k(c))          # a fixed number: single-pass sources, whose loop over every count is not summarised
    def SF(c): return [Pt("S"), Pt("S", c * ESZ)]
    FIXED = (1, 2, 3, 5) if thorough else (1, 2)
    ctor("Array()", "void @(A* x)", "new(x) A();", None, [], [], ())
    ctor("Array(alloc)", "void @(A* x)", "new(x) A(AL<E>());", None, [], [], ())
    ctor("Array(n)", "void @(A* x, std::size_t n)", "new(x) A(n);", lambda st: general(st, n, -n + LIM), [I(n)], [], ("n",), capreq=cap_is(n, "the requested capacity"))
    ctor("Array(n, value)", "void @(A* x, std::size_t n, const E& v)", "new(x) A(n, v);", lambda st: (general(st, n, -n + LIM), val(st, "v")), [I(n), Pt("v")], [(n, const("v"))], ("n",), vals=[("v", ("k", "v"))])
    ctor("Array{initializer list}", "void @(A* x, std::initializer_list<E> l)", "new(x) A(l);", srcn, [Pt("S"), I(m)], [(m, orig("S", LZ))], ("m",), srcs=["S"])
    for nm, a in (("pointers", "f, l"), ("forward iterators", "FwdIt{f}, FwdIt{l}"), ("single-pass iterators", "InIt{f}, InIt{l}"), ("a range", "PtrR{f, l}"), ("a forward range", "FwdR{f, l}")):
        ctor("Array(%s)" % nm, "void @(A* x, const E* f, const E* l)", "new(x) A(%s);" % a, srcn, SP, [(m, orig("S", LZ))], ("m",), srcs=["S"])
    for c in FIXED: ctor("Array(%d elements of single-pass iterators)" % c, "void @(A* x, const E* f, const E* l)", "new(x) A(InIt{f}, InIt{l});", srcf(c), SF(c), [(L.k(c), orig("S", LZ))], (), srcs=["S"])
    for nm, a in (("modifiable pointers", "f, l"), ("a modifiable range", "MutR{f, l}")):
        ctor("Array(%s)" % nm, "void @(A* x, E* f, E* l)", "new(x) A(%s);" % a, srcn, SP, [(m, orig("S", LZ))], ("m",), srcs=["S"])
    def yg(st): gen(st, "y", "B", m, mcap)
    def yn(st): nul(st, "y")
    for sfx, yp, sy, pc in (("", yg, ("m", "mcap"), [(m, orig("B", LZ))]), (" of an empty array without storage", yn, (), [])):
        ctor("Array(const Array&)" + sfx, "void @(A* x, const A* y)", "new(x) A(*y);", yp, [Pt("y")], pc, sy, ys=["y"], checks={"y": has("y", pc)})
        ctor("Array(Array&&)" + sfx, "void @(A* x, A* y)", "new(x) A(std::move(*y));", yp, [Pt("y")], pc, sy, ys=["y"], checks={"y": has("y", [], cap_is(LZ, "moved from"))})
        ctor("Array(Array&)" + sfx, "void @(A* x, A* y)", "new(x) A(*y);", yp, [Pt("y")], pc, sy, ys=["y"], checks={"y": has("y", pc)})
    if lib.idoff is not None:
        # constructors use the allocator they are given; copies and moves that of their source
        def idis(c):
            def f(s, h, N, C):
                d = lib.cell(s, "x", lib.idoff)
                return [] if d[0] == "int" and s.eq(d[3] - c) else [("life", "the array uses allocator %s, not the one it was given (%d)" % (s.cons.norm(d[3]) if d[0] == "int" else "?", c))]
            return f
        G = ", AL<E>(1234)"
        for nm, sig, a, ex, ar, sy in (("alloc", "", "AL<E>(1234)", None, [], ()), ("n, alloc", ", std::size_t n", "n" + G, lambda st: general(st, n, -n + LIM), [I(n)], ("n",)),
            ("n, value, alloc", ", std::size_t n, const E& v", "n, v" + G, lambda st: (general(st, n, -n + LIM), val(st, "v")), [I(n), Pt("v")], ("n",)), ("initializer list, alloc", ", std::initializer_list<E> l", "l" + G, srcn, [Pt("S"), I(m)], ("m",)),
            ("pointers, alloc", ", const E* f, const E* l", "f, l" + G, srcn, SP, ("m",)), ("forward iterators, alloc", ", const E* f, const E* l", "FwdIt{f}, FwdIt{l}" + G, srcn, SP, ("m",)), ("2 elements of single-pass iterators, alloc", ", const E* f, const E* l", "InIt{f}, InIt{l}" + G, srcf(2), SF(2), ()), ("a range, alloc", ", const E* f, const E* l", "PtrR{f, l}" + G, srcn, SP, ("m",))):
            op("Array(%s)" % nm, "void @(A* x%s)" % sig, "new(x) A(%s);" % a, mk(lambda st: lib.rawobj(st, "x"), ex, X + ar, sy), post_obj({"x": idis(L.k(1234).c)}, ctor=True), sy, THR)
        for nm, sig, a in (("const Array&", "const A* y", "*y"), ("Array&&", "A* y", "std::move(*y)")):
            op("allocator of Array(%s)" % nm, "void @(A* x, %s)" % sig, "new(x) A(%s);" % a, mk(lambda st: lib.rawobj(st, "x"), yg, X + [Pt("y")], ("m", "mcap")), post_obj({"x": idis(lib.IDS["y"])}, ctor=True, objs=("x", "y")), ("m", "mcap"), THR)
    # ---- destruction, assignment, swap
    for sfx, pre, sy, heap in PRE:
        N0 = n if heap else LZ
        keep = [(N0, orig("A", LZ))] if heap else []
        op("~Array()" + sfx, "void @(A* x)", "x->~A();", mk(pre, None, X, sy), post_obj({}, objs=(), dead=("x",)), sy)
        op("clear" + sfx, "void @(A* x)", "x->clear();", mk(pre, None, X, sy), post_obj({"x": has("x", [], cap_is(cap if heap else LZ, "clear keeps the capacity"))}), sy)
        for yx, yp, ysy, pc in (("", yg, ("m", "mcap"), [(m, orig("B", LZ))]), (" from an empty array without storage", yn, (), [])):
            op("copy assignment%s%s" % (sfx, yx), "A* @(A* x, const A* y)", "return &(*x = *y);", mk(pre, yp, lambda a: X + [Pt("y")], sy + ysy), post_obj({"x": has("x", pc), "y": has("y", pc)}, objs=("x", "y"), rv=lambda s, h, N, C: Pt("x")), sy + ysy, THR)
            op("move assignment%s%s" % (sfx, yx), "A* @(A* x, A* y)", "return &(*x = std::move(*y));", mk(pre, yp, lambda a: X + [Pt("y")], sy + ysy), post_obj({"x": has("x", pc)}, objs=("x", "y"), rv=lambda s, h, N, C: Pt("x")), sy + ysy, THR)
            op("swap%s%s" % (sfx, yx), "void @(A* x, A* y)", "x->swap(*y);", mk(pre, yp, lambda a: X + [Pt("y")], sy + ysy), post_obj({"x": has("x", pc), "y": has("y", keep)}, objs=("x", "y")), sy + ysy)
        op("copy assignment to itself" + sfx, "void @(A* x)", "*x = *x;", mk(pre, None, X, sy), post_obj({"x": has("x", keep)}), sy, THR)
        op("move assignment to itself" + sfx, "void @(A* x)", "*x = std::move(*x);", mk(pre, None, X, sy), post_obj({}), sy, THR)
        op("swap with itself" + sfx, "void @(A* x)", "x->swap(*x);", mk(pre, None, X, sy), post_obj({"x": has("x", keep)}), sy)
        op("assignment of an initializer list" + sfx, "void @(A* x, std::initializer_list<E> l)", "*x = l;", mk(pre, srcn, lambda a: X + [Pt("S"), I(m)], sy + ("m",)), post_obj({"x": has("x", [(m, orig("S", LZ))])}, srcs=["S"]), sy + ("m",), THR)
        # ---- capacity
        C0 = cap if heap else LZ
        def creq(c0): return lambda s, N, C: ([] if s.ge(C - k) and s.ge(C - c0) else [("content", "capacity is %r after reserve(%r) of capacity %r" % (s.cons.norm(C), s.cons.norm(k), s.cons.norm(c0)))]) or ([] if not s.ge(c0 - k) or s.eq(C - c0) else [("content", "reserve below the capacity changes it to %r" % s.cons.norm(C))])
        op("reserve" + sfx, "void @(A* x, std::size_t k)", "x->reserve(k);", mk(pre, lambda st: general(st, k, -k + LIM), lambda a: X + [I(k)], sy + ("k",)), post_obj({"x": has("x", keep, creq(C0))}), sy + ("k",), THR)
        def rs(N0=N0, C0=C0, heap=heap):
            def f(s, h, N, C):
                keepn = N0 if s.ge(k - N0) else k
                return has("x", [(keepn, orig("A", LZ))] if heap else [], cap_is(k, "resize sets the capacity"))(s, h, N, C)
            return f
        op("resize" + sfx, "void @(A* x, std::size_t k)", "x->resize(k);", mk(pre, lambda st: general(st, k, -k + LIM), lambda a: X + [I(k)], sy + ("k",)), post_obj({"x": rs()}), sy + ("k",), THR)
        # ---- append one
        for nm, sg, a, tagd, vl in (("push_back(const&)", "const E& v", "v", "v", True), ("push_back(&&)", "E& v", "std::move(v)", "v", None), ("push_back(convertible)", "long t", "t", "t", False)):
            ex = (lambda st: val(st, "v")) if vl is not False else None
            ar = [Pt("v")] if vl is not False else [I(L.v("t"))]
            op(nm + sfx, "void @(A* x, %s)" % sg, "x->push_back(%s);" % a, mk(pre, ex, lambda a, ar=ar: X + ar, sy), post_obj({"x": has("x", keep + [(L1, const(tagd))])}, vals=[("v", ("k", "v") if vl else MV)] if vl is not False else []), sy, THR)
        op("emplace_back()" + sfx, "E* @(A* x)", "return &x->emplace_back();", mk(pre, None, X, sy), post_obj({"x": has("x", keep + [(L1, const("default"))])}, rv=lambda s, h, N, C: Pt(h, (N + (-1)) * ESZ)), sy, THR)
        op("emplace_back(arguments)" + sfx, "E* @(A* x, long t)", "return &x->emplace_back(t);", mk(pre, None, X + [I(L.v("t"))], sy), post_obj({"x": has("x", keep + [(L1, const("t"))])}, rv=lambda s, h, N, C: Pt(h, (N + (-1)) * ESZ)), sy, THR)
        op("emplace_back(E&&)" + sfx, "E* @(A* x, E& v)", "return &x->emplace_back(std::move(v));", mk(pre, lambda st: val(st, "v"), X + [Pt("v")], sy), post_obj({"x": has("x", keep + [(L1, const("v"))])}, rv=lambda s, h, N, C: Pt(h, (N + (-1)) * ESZ), vals=[("v", MV)]), sy, THR)
        op("emplace_back(const E&)" + sfx, "E* @(A* x, E& v)", "return &x->emplace_back(v);", mk(pre, lambda st: val(st, "v"), X + [Pt("v")], sy), post_obj({"x": has("x", keep + [(L1, const("v"))])}, rv=lambda s, h, N, C: Pt(h, (N + (-1)) * ESZ), vals=[("v", ("k", "v"))]), sy, THR)
        # ---- append many
        for nm, a in (("pointers", "f, l"), ("forward iterators", "FwdIt{f}, FwdIt{l}"), ("a range", "PtrR{f, l}"), ("single-pass iterators", "InIt{f}, InIt{l}")):
            op("push_back(%s)%s" % (nm, sfx), "void @(A* x, const E* f, const E* l)", "x->push_back(%s);" % a, mk(pre, srcn, lambda a: X + SP, sy + ("m",)), post_obj({"x": has("x", keep + [(m, orig("S", LZ))])}, srcs=["S"]), sy + ("m",), THR)
        for c in FIXED: op("push_back(%d elements of single-pass iterators)%s" % (c, sfx), "void @(A* x, const E* f, const E* l)", "x->push_back(InIt{f}, InIt{l});", mk(pre, srcf(c), X + SF(c), sy), post_obj({"x": has("x", keep + [(L.k(c), orig("S", LZ))])}, srcs=["S"]), sy, THR)
        for nm, a in (("modifiable pointers", "f, l"), ("a modifiable range", "MutR{f, l}")):
            op("push_back(%s)%s" % (nm, sfx), "void @(A* x, E* f, E* l)", "x->push_back(%s);" % a, mk(pre, srcn, lambda a: X + SP, sy + ("m",)), post_obj({"x": has("x", keep + [(m, orig("S", LZ))])}, srcs=["S"]), sy + ("m",), THR)
        # ---- insertion
        P = pos if heap else LZ
        def posn(st, heap=heap):
            if heap: general(st, pos, n - pos)
        psy = sy + (("pos",) if heap else ())
        def ins(pieces): return ([(P, orig("A", LZ))] if heap else []) + pieces + ([(n - pos, orig("A", pos))] if heap else [])
        at = lambda s, h, N, C, P=P: Pt(h, P * ESZ)
        for nm, sg, a, tagd, vl in (("insert(pos, const&)", "const E& v", "v", "v", True), ("insert(pos, &&)", "E& v", "std::move(v)", "v", None), ("insert(pos, convertible)", "long t", "t", "t", False)):
            ex = (lambda st, posn=posn: (posn(st), val(st, "v"))) if vl is not False else posn
            ar = [Pt("v")] if vl is not False else [I(L.v("t"))]
            op(nm + sfx, "E* @(A* x, long pos, %s)" % sg, "return x->insert(x->begin() + pos, %s).operator->();" % a, mk(pre, ex, lambda a, ar=ar, P=P: X + [I(P)] + ar, psy), post_obj({"x": has("x", ins([(L1, const(tagd))]))}, vals=[("v", ("k", "v") if vl else MV)] if vl is not False else [], rv=at), psy, THR)
        for nm, a in (("pointers", "f, l"), ("forward iterators", "FwdIt{f}, FwdIt{l}"), ("a range", "PtrR{f, l}"), ("single-pass iterators", "InIt{f}, InIt{l}")):
            def rvm(s, h, N, C, P=P):
                return NULL if h is None else Pt(h, P * ESZ)
            op("insert(pos, %s)%s" % (nm, sfx), "E* @(A* x, long pos, const E* f, const E* l)", "return x->insert(x->begin() + pos, %s).operator->();" % a, mk(pre, lambda st, posn=posn: (posn(st), srcn(st)), lambda a, P=P: X + [I(P)] + SP, psy + ("m",)), post_obj({"x": has("x", ins([(m, orig("S", LZ))]))}, srcs=["S"], rv=rvm), psy + ("m",), THR)
        for c in FIXED: op("insert(pos, %d elements of single-pass iterators)%s" % (c, sfx), "E* @(A* x, long pos, const E* f, const E* l)", "return x->insert(x->begin() + pos, InIt{f}, InIt{l}).operator->();", mk(pre, lambda st, posn=posn, c=c: (posn(st), srcf(c)(st)), lambda a, P=P, c=c: X + [I(P)] + SF(c), psy), post_obj({"x": has("x", ins([(L.k(c), orig("S", LZ))]))}, srcs=["S"], rv=at), psy, THR)
        for nm, a in (("modifiable pointers", "f, l"), ("a modifiable range", "MutR{f, l}")):
            op("insert(pos, %s)%s" % (nm, sfx), "E* @(A* x, long pos, E* f, E* l)", "return x->insert(x->begin() + pos, %s).operator->();" % a, mk(pre, lambda st, posn=posn: (posn(st), srcn(st)), lambda a, P=P: X + [I(P)] + SP, psy + ("m",)), post_obj({"x": has("x", ins([(m, orig("S", LZ))]))}, srcs=["S"]), psy + ("m",), THR)
        if not heap: continue
        # ---- removal and self-referring arguments need elements
        one = lambda st: general(st, n + (-1))
        op("pop_back", "void @(A* x)", "x->pop_back();", mk(pre, one, X, sy), post_obj({"x": has("x", [(n + (-1), orig("A", LZ))])}), sy)
        op("erase(pos)", "E* @(A* x, long pos)", "return x->erase(x->begin() + pos).operator->();", mk(pre, lambda st: general(st, pos, n - pos + (-1)), lambda a: X + [I(pos)], psy), post_obj({"x": has("x", [(pos, orig("A", LZ)), (n - pos + (-1), orig("A", pos + 1))])}, rv=at), psy, THR)
        op("erase(first, last)", "E* @(A* x, long pos, long cnt)", "return x->erase(x->begin() + pos, x->begin() + (pos + cnt)).operator->();", mk(pre, lambda st: general(st, pos, cnt, n - pos - cnt), lambda a: X + [I(pos), I(cnt)], psy + ("cnt",)), post_obj({"x": has("x", [(pos, orig("A", LZ)), (n - pos - cnt, orig("A", pos + cnt))])}, rv=at), psy + ("cnt",), THR)
        own = lambda st: general(st, k, n - k + (-1))
        kv = lambda p: ("o", "A", 0, k)
        op("push_back of one of its own elements", "void @(A* x, long k)", "x->push_back((*x)[k]);", mk(pre, own, X + [I(k)], sy + ("k",)), post_obj({"x": has("x", keep + [(L1, kv)])}), sy + ("k",), THR)
        op("emplace_back of one of its own elements", "void @(A* x, long k)", "x->emplace_back((*x)[k]);", mk(pre, own, X + [I(k)], sy + ("k",)), post_obj({"x": has("x", keep + [(L1, kv)])}), sy + ("k",), THR)
        op("insert of one of its own elements", "E* @(A* x, long pos, long k)", "return x->insert(x->begin() + pos, (*x)[k]).operator->();", mk(pre, lambda st, own=own, posn=posn: (own(st), posn(st)), X + [I(pos), I(k)], psy + ("k",)), post_obj({"x": has("x", ins([(L1, kv)]))}, rv=at), psy + ("k",), THR)
    return ops

TEMPLATE = '''#ifdef STATEFUL
#define TMPL_AL , AL<E>(7777)
#else
#define TMPL_AL
#endif
extern "C" void tmpl(A* x, std::size_t cap, const E* f, const E* l) { new(x) A(cap TMPL_AL); x->push_back(f, l); }
extern "C" void tnull(A* x) { new(x) A(); }
'''
def run_array(chk, cats, throwing, thorough=False, stateful=False):
    from ..lin import L
    hdr = ("#define STATEFUL 1\n" if stateful else "") + HDR
    m0 = ir.compile_ir(hdr + TEMPLATE, pipe=ir.PIPE_LOOP)
    try: lib = Lib(m0)
    except (Unanalysable, KeyError, IndexError, StopIteration) as e:
        chk.undecided("array representation", "xme::Array", "the representation after construction could not be determined: %s" % e); return
    run_ops(chk, hdr, build(lib, thorough), cats, throwing)

def run_ops(chk, hdr, ops, cats, throwing):
    if throwing: ops = [o for o in ops if o[6]]
    texts = [o[1] for o in ops]
    mods, tasks = [], []
    per = (len(ops) + 7) // 8
    from concurrent.futures import ThreadPoolExecutor
    chunks = [ops[i:i + per] for i in range(0, len(ops), per)]
    def comp(c):
        try: return c, ir.compile_ir(hdr + "".join(o[1] for o in c), pipe=ir.PIPE_LOOP)
        except ir.BuildError:
            r = []
            for o in c:
                try: r.append((o, ir.compile_ir(hdr + o[1], pipe=ir.PIPE_LOOP)))
                except ir.BuildError as e: r.append((o, e))
            return c, r
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, chunks))
    for c, r in res:
        pairs = [(o, r) for o in c] if not isinstance(r, list) else r
        for o, mod in pairs:
            if isinstance(mod, ir.BuildError):
                err = [l for l in mod.out.splitlines() if "error:" in l][:2]
                for rule in set(cats.values()): chk.fail(rule, o[2], "the operation does not compile: " + " / ".join(err), err[0].split(": ")[0] if err else "")
                continue
            if mod not in mods: mods.append(mod)
            tasks.append(Task(o[2], o[0], o[3], o[4], throwing=o[6] if throwing else (), module=next(i for i, q in enumerate(mods) if q is mod)))
    run_tasks(chk, None, mods, tasks, cats)
