"""SPSCQueue analysed by engine B: C17 (sequential accounting), C16 (publication order), C13 (throwing elements)."""
from .arraylib import *
from .arraylib import HDR as AHDR
HDR = PROBE + r'''
#include <xme/container/spsc_queue.hpp>
using D = xme::SPSCQueue<E, Al<E>>;
template<std::size_t N> using Q = xme::SPSCQueue<E, xme::Capacity<N>>;
'''
N = L.v("N"); w = L.v("w"); r = L.v("r")
class Marks(Interp):
    """notes which cells of the queue are stored atomically"""
    def ins(self, fn, i, st, bid):
        if i["op"] in ("store", "atomicrmw") and i.get("ord"):
            p = self.op(st, i["ops"][1 if i["op"] == "store" else 0])
            if p != U and p[0] == "p" and p[1] == "x" and not p[2].t: self.atomic.add(p[2].c)
        return Interp.ins(self, fn, i, st, bid)
class QLib:
    """layout: which cells hold the positions, the storage pointer and the capacity"""
    def __init__(self, mod, kind, cap):
        self.kind = kind; self.cap = cap
        st = State(); st.mem["x"] = Reg("x", 4096, L1, "arg"); self.N = N if cap is None else L.k(cap)
        if cap is None: st.cons.add_ge(N + (-2)); st.cons.add_ge(-N + LIM)
        val(st, "v")
        it = Marks(mod, accelerate=False, peel=600); it.atomic = set(); it.pows = ("N",) if cap is None else ()
        s0 = self.one(it.run("ctor", [Pt("x")] + ([I(N)] if cap is None else []), st))
        f0 = self.snap(s0)
        o = [q for q in it.run("push", [Pt("x"), Pt("v")], s0) if q.kind == "ret" and q.val is True]
        if not o: raise Unanalysable("a new queue accepts nothing")
        s1 = o[0].st; f1 = self.snap(s1)
        s2 = self.one(it.run("pop", [Pt("x")], s1)); f2 = self.snap(s2)
        self.extra = False
        self.w = self.changed(f0, f1, it.atomic); self.r = self.changed(f1, f2, it.atomic)
        if self.w == self.r: raise Unanalysable("one position only")
        self.fields = f0
        self.heap = next((r_.name for r_ in s0.mem.values() if r_.kind == "heap"), None)
        if kind == "static":
            el = [(off) for off, segs in s1.mem["x"].elems.items() if segs[0][2] != RAW]
            if len(el) != 1: raise Unanalysable("slots")
            self.off = el[0]; self.size = self.off + 24 * cap
        else: self.size = max(off + sz for off, (sz, d) in f0.items())
        self.size = (self.size + 63) // 64 * 64
    @staticmethod
    def smoke(mod, kind, cap):
        """the first operations on a new queue of a fixed capacity: a definite failure, or None"""
        st = State(); st.mem["x"] = Reg("x", 4096, L1, "arg"); val(st, "v")
        k = cap or 4
        it = Interp(mod, accelerate=False, peel=600)
        s = [o for o in it.run("ctor", [Pt("x")] + ([I(L.k(k))] if cap is None else []), st) if o.kind == "ret"]
        if it.viol: return it.viol[0].msg + " | while a queue is constructed"
        for i in range(k - 1):
            nx = [o for q in s for o in it.run("push", [Pt("x"), Pt("v")], q.st)]
            if it.viol: return it.viol[0].msg + " | push number %d on a new queue of capacity %d" % (i + 1, k)
            if nx and all(o.kind == "ret" and o.val is False for o in nx): return "push number %d on a new queue of capacity %d returns false" % (i + 1, k)
            s = nx
        for i in range(k - 1):
            s = [o for q in s for o in it.run("pop", [Pt("x")], q.st)]
            if it.viol: return it.viol[0].msg + " | pop number %d after %d pushes on a new queue of capacity %d" % (i + 1, k - 1, k)
    @staticmethod
    def widths(mod, kind, cap):
        """the cells holding positions must be able to hold every position: a definite failure, or None"""
        st = State(); st.mem["x"] = Reg("x", 4096 if cap is None else 4096 + 32 * cap, L1, "arg"); val(st, "v")
        it = Marks(mod, accelerate=False, peel=600); it.atomic = set()
        k = cap or 4; fs = []
        def snap(s): return {off: (sz, segs[0][2][:3] + (s.cons.norm(segs[0][2][3]),) if segs[0][2][0] == "int" else segs[0][2]) for off, (sz, tag, segs) in s.mem["x"].fields.items()}
        for f, a in (("ctor", [I(L.k(k))] if cap is None else []), ("push", [Pt("v")]), ("pop", [])):
            o = [q for q in it.run(f, [Pt("x")] + a, st) if q.kind == "ret" and (f != "push" or q.val is True)]
            if len(o) != 1: return None
            st = o[0].st; fs.append(snap(st))
        for nm, a, b in (("write", fs[0], fs[1]), ("read", fs[1], fs[2])):
            for off in b:
                if off in it.atomic and a.get(off) != b[off]:
                    bits = 8 * b[off][0]
                    if bits < 64 and (cap is None or cap > 1 << bits): return "the %s position is kept in %d bits, which cannot represent the positions of a queue of %s slots" % (nm, bits, "more than %d" % (1 << bits) if cap is None else cap)
    def one(self, outs):
        outs = [o for o in outs if o.kind == "ret"]
        if len(outs) != 1: raise Unanalysable("template")
        return outs[0].st
    def snap(self, s): return {off: (sz, (segs[0][2][:3] + (s.cons.norm(segs[0][2][3]),) + segs[0][2][4:]) if segs[0][2][0] in ("int", "ptr") else segs[0][2]) for off, (sz, tag, segs) in s.mem["x"].fields.items() if sz == 8}
    def changed(self, a, b, atomic):
        c = [off for off in b if a.get(off) != b[off] and not b[off][1] == UND]
        if len(c) > 1: self.extra = True; c = [off for off in c if off in atomic]
        if len(c) != 1: raise Unanalysable("the position cells could not be identified")
        return c[0]
    def build(self, st, order, shared=None):
        """a queue with positions w, r; order 'lin': r <= w, 'wrap': w < r"""
        n_ = self.N
        general(st, w, n_ - w + (-1), r, n_ - r + (-1))
        if self.cap is None: general(st, n_ + (-2), -n_ + LIM)
        general(st, *( [w - r] if order == "lin" else [r - w + (-1)]))
        x = Reg("x", self.size, L1, "arg")
        for off, (sz, d) in self.fields.items():
            if self.kind == "static" and off >= self.off: continue
            if d[0] == "ptr" and d[1] == self.heap: d = ("ptr", "Q") + d[2:]
            x.fields[off] = (8, 0, ((LZ, L1, d),))
        x.fields[self.w] = (8, 0, ((LZ, L1, ("int", 0, 0, w)),)); x.fields[self.r] = (8, 0, ((LZ, L1, ("int", 0, 0, r)),))
        q = Reg("Q", ESZ, n_, "heap" if self.kind == "dynamic" else "arg", n_)
        live = ("o", "Q", 1, LZ)
        q.elems[0] = merge(st.cons, ((LZ, r, RAW), (r, w, live), (w, n_, RAW)) if order == "lin" else ((LZ, w, live), (w, r, RAW), (r, n_, live)))
        if shared is not None: q.elems[0] = ((LZ, n_, RAW if shared == "producer" else live),)
        if self.kind == "static": x.subs = ((self.off, "Q"),)
        st.mem["Q"] = q; st.mem["x"] = x
    def cell(self, s, off):
        f = s.mem["x"].fields.get(off)
        return f[2][0][2] if f else UND
    def check(self, s, w2, r2, extra, order_live):
        """positions are w2, r2 and the live slots are exactly the pieces order_live [(lo,hi,d)]"""
        ps = []
        for nm, off, v in (("write", self.w, w2), ("read", self.r, r2)):
            d = self.cell(s, off)
            if d[0] != "int" or not s.eq(d[3] - v): ps.append(("content", "the %s position is %s, specified %r" % (nm, s.cons.norm(d[3]) if d[0] == "int" else d, s.cons.norm(v))))
        for off, (sz, d) in self.fields.items():
            if off in (self.w, self.r) or self.kind == "static" and off >= self.off: continue
            if d[0] == "ptr" and d[1] == self.heap: d = ("ptr", "Q") + d[2:]
            e = self.cell(s, off)
            if e[0] in ("int", "ptr") and e[:3] == d[:3] and s.eq(e[3] - d[3]) or e == d: continue
            ps.append(("content", "the queue's cell at offset %d changes" % off))
        if s.mem["Q"].kind == "freed": return ps + [("life", "the storage is released")]
        segs = s.mem["Q"].elems[0]
        exp = merge(s.cons, tuple(order_live))
        d = segs_same(s, segs, exp)
        if d is not None: ps.append(("content" if d[2] != RAW and d[3] != RAW else "life", "slot %r holds %s, specified %s" % (d[0].cons.norm(d[1]), show(d[0], d[2]), show(d[0], d[3]))))
        return ps

THR = ("e_def", "e_make", "e_copy", "e_move", "e_casg", "e_masg", "a_alloc")
def src_text(kind, cap):
    T = "D" if cap is None else "Q<%d>" % cap
    t = 'using X = %s;\nextern "C" void ctor(X* x%s) { new(x) X(%s); }\n' % (T, ", std::size_t n" if cap is None else "", "n" if cap is None else "")
    t += '''extern "C" bool push(X* x, const E& v) { return x->push(v); }
extern "C" bool pushm(X* x, E& v) { return x->push(std::move(v)); }
extern "C" bool emplm(X* x, E& v) { return x->emplace(std::move(v)); }
extern "C" bool emplc(X* x, E& v) { return x->emplace(v); }
extern "C" bool pushc(X* x, long t) { return x->push(t); }
extern "C" bool empl0(X* x) { return x->emplace(); }
extern "C" bool empl(X* x, long t) { return x->emplace(t); }
extern "C" void pop(X* x) { x->pop(); }
extern "C" void consume(X* x, E* out) { x->consume([out](E&& e) { new(out) E(std::move(e)); }); }
extern "C" void consumec(X* x, E* out) { x->consume([out](const E& e) { new(out) E(e); }); }
extern "C" std::size_t ravail(const X* x) { return x->read_available(); }
extern "C" std::size_t wavail(const X* x) { return x->write_available(); }
extern "C" void dtor(X* x) { x->~X(); }
'''
    return t

def live_pieces(s, n_, w2, r2, at=None, d=None):
    """expected slots for positions w2, r2: the originals, except slot `at` which holds d"""
    base = ("o", "Q", 1, LZ)
    if s.ge(w2 - r2): segs = [(LZ, r2, RAW), (r2, w2, base), (w2, n_, RAW)]
    else: segs = [(LZ, w2, base), (w2, r2, RAW), (r2, n_, base)]
    segs = merge(s.cons, tuple(segs))
    if at is not None: segs = put(s, segs, at, d)
    return segs
def nxt(s, x, n_): return LZ if s.eq(x + 1 - n_) else x + 1

def tasks_for(lib, throwing):
    n_ = lib.N; out = []
    syms = ("w", "r") + (("N",) if lib.cap is None else ())
    small = [dict(w=a, r=b, **({"N": k} if lib.cap is None else {})) for k in ((2, 4) if lib.cap is None else (lib.cap,)) for a in range(k) for b in range(k)]
    title = "SPSCQueue with dynamic storage" if lib.cap is None else "SPSCQueue with %d static slots" % lib.cap
    def add(desc, fname, order, extra, args, post, pre=None):
        def init():
            st = State(); lib.build(st, order)
            if pre: general(st, *pre(n_))
            if extra: extra(st)
            return st, [Pt("x")] + args, syms
        def post2(o, it):
            s = o.st; threw = any(e[0] == "throw" for e in s.events)
            if o.kind == "term": return [("propagate", "the exception of an element operation ends in std::terminate")] if threw else [("life", "the operation terminates the program")]
            if o.kind == "ret" and threw: return [("propagate", "an exception of an element operation is swallowed")]
            if o.kind == "unwind":
                segs = s.mem["Q"].elems.get(0) if s.mem["Q"].kind != "freed" else None
                if segs is None: return [("exc", "the storage is released when an element operation throws")]
                return [("exc", m + " | when an element operation throws") for c, m in lib.check(s, w, r, None, live_pieces(s, n_, w, r))] if "consume" not in fname else []
            return post(o, s)
        out.append(Task("%s: %s (%s)" % (title, desc, "positions not wrapped" if order == "lin" else "positions wrapped"), fname, init, post2, throwing=THR if throwing else (), pows=("N",) if lib.cap is None else (), small=small, finite=lib.cap is not None))
    def pushpost(d, arg=None):
        def post(o, s):
            full = s.eq(nxt(s, w, n_) - r)
            if o.kind == "ret" and arg is not None:
                segs = s.mem["v"].elems.get(0, ())
                e = ("k", "v") if full else arg
                if segs_same(s, segs, ((LZ, L1, e),)) is not None: return [("content", "a push to a full queue changes its argument" if full else "the rvalue argument is not moved from" if e == MV else "the argument is changed")]
            if full:
                ps = [] if o.val is False else [("content", "a push to a full queue does not return false")]
                return ps + lib.check(s, w, r, None, live_pieces(s, n_, w, r))
            ps = [] if o.val is True else [("content", "a push to a queue with space does not return true")]
            if ps: return ps
            w2 = nxt(s, w, n_)
            return lib.check(s, w2, r, None, live_pieces(s, n_, w2, r, w, d))
        return post
    for order in ("lin", "wrap"):
        if lib.cap == 1 and order == "wrap": continue
        v = lambda st: val(st, "v")
        add("push(const&)", "push", order, v, [Pt("v")], pushpost(("k", "v"), ("k", "v")))
        add("push(&&)", "pushm", order, v, [Pt("v")], pushpost(("k", "v"), MV))
        add("emplace(E&&)", "emplm", order, v, [Pt("v")], pushpost(("k", "v"), MV))
        add("emplace(E&)", "emplc", order, v, [Pt("v")], pushpost(("k", "v"), ("k", "v")))
        add("push(convertible)", "pushc", order, None, [I(L.v("t"))], pushpost(("k", "t")))
        add("emplace()", "empl0", order, None, [], pushpost(("k", "default")))
        add("emplace(arguments)", "empl", order, None, [I(L.v("t"))], pushpost(("k", "t")))
        ne = (lambda n_: [w - r + (-1)]) if order == "lin" else None
        def poppost(mv):
            def post(o, s):
                r2 = nxt(s, r, n_)
                ps = lib.check(s, w, r2, None, put(s, live_pieces(s, n_, w, r), r, RAW))
                if not ps and mv:
                    segs = s.mem["out"].elems.get(0, ((LZ, L1, RAW),))
                    e = segs_same(s, segs, ((LZ, L1, ("o", "Q", 0, r)),))
                    if e is not None: ps.append(("content", "the function does not receive the oldest element"))
                return ps
            return post
        if lib.cap != 1:
            add("pop", "pop", order, None, [], poppost(False), ne)
            def rawout(st): st.mem["out"] = Reg("out", ESZ, L1, "arg"); st.mem["out"].elems[0] = ((LZ, L1, RAW),)
            add("consume(E&&)", "consume", order, rawout, [Pt("out")], poppost(True), ne)
            add("consume(const E&)", "consumec", order, rawout, [Pt("out")], poppost(True), ne)
        if throwing: continue
        def avail(which):
            def post(o, s):
                used = w - r if s.ge(w - r) else w - r + n_
                e = used if which == "r" else n_ - used + (-1)
                ps = [] if o.val != U and o.val[0] == "i" and s.eq(o.val[1] - e) else [("content", "returns %s, specified %r" % (s.cons.norm(o.val[1]) if o.val != U and o.val[0] == "i" else o.val, s.cons.norm(e)))]
                return ps + lib.check(s, w, r, None, live_pieces(s, n_, w, r))
            return post
        add("read_available", "ravail", order, None, [], avail("r"))
        add("write_available", "wavail", order, None, [], avail("w"))
        def dpost(o, s):
            q = s.mem["Q"]
            if lib.cap is None:
                return [] if q.kind == "freed" else [("life", "the storage is not released on destruction")]
            for lo, hi, d in q.elems[0]:
                if d != RAW and s.ge(hi - lo + (-1)): return [("life", "the element in slot %r is not destroyed on destruction" % s.cons.norm(lo))]
            return []
        add("destruction", "dtor", order, None, [], dpost)
    return out

def ctor_task(lib):
    n_ = lib.N
    def init():
        st = State()
        if lib.cap is None: general(st, N + (-1), -N + LIM)
        st.mem["x"] = Reg("x", lib.size, L1, "arg")
        if lib.kind == "static":
            st.mem["x"].subs = ((lib.off, "Q"),); st.mem["Q"] = Reg("Q", ESZ, n_, "arg"); st.mem["Q"].elems[0] = ((LZ, n_, RAW),)
        return st, [Pt("x")] + ([I(N)] if lib.cap is None else []), ("N",) if lib.cap is None else ()
    def post(o, it):
        s = o.st
        if o.kind != "ret": return [] if o.kind == "unwind" else [("life", "the constructor terminates the program")]
        ps = []
        for nm, off in (("write", lib.w), ("read", lib.r)):
            d = lib.cell(s, off)
            if d != NULLD and (d[0] != "int" or not s.eq(d[3])): ps.append(("content", "the %s position does not start at 0" % nm))
        hs = [q for q in s.mem.values() if q.kind == "heap"]
        if lib.cap is None and (len(hs) != 1 or not s.eq(hs[0].allocn - N)): ps.append(("life", "the constructor does not allocate exactly the capacity"))
        return ps
    return Task("SPSCQueue construction (%s)" % ("dynamic" if lib.cap is None else "%d static slots" % lib.cap), "ctor", init, post, pows=("N",) if lib.cap is None else (), small=[{"N": 2}, {"N": 4}] if lib.cap is None else [{}], finite=lib.cap is not None)

def libs(chk, caps, ndebug=True, extra=False):
    from concurrent.futures import ThreadPoolExecutor
    kinds = [("dynamic", None)] + [("static", c) for c in caps]
    def go(k):
        mod = ir.compile_ir(HDR + src_text(*k), pipe=ir.PIPE_LOOP, ndebug=ndebug)
        return mod
    res = []
    with ThreadPoolExecutor(6) as ex: fs = [(k, ex.submit(go, k)) for k in kinds]
    for k, f in fs:
        try: mod = f.result()
        except ir.BuildError as e:
            err = [l for l in e.out.splitlines() if "error:" in l][:2]
            res.append((k, None, "does not compile: " + " / ".join(err))); continue
        try:
            bad = QLib.smoke(mod, *k)
            bad = bad or QLib.widths(mod, *k)
            if bad is not None: res.append((k, None, bad)); continue
        except (Unanalysable, RecursionError): pass
        try:
            lib = QLib(mod, *k)
            if lib.extra and not extra: raise Unanalysable("cells besides the two positions change")
            res.append((k, mod, lib))
        except (Unanalysable, KeyError, IndexError, StopIteration) as e: res.append((k, None, e))
    return res
def run_queue(chk, cats, throwing, caps=(2, 4, 8)):
    mods, tasks = [], []
    for k, mod, lib in libs(chk, caps):
        if mod is None:
            for rule in dict.fromkeys(cats.values()):
                if isinstance(lib, str): chk.fail(rule, "SPSCQueue (%s)" % k[0], lib)
                else: chk.undecided(rule, "SPSCQueue (%s)" % k[0], "representation: %s" % lib, 20)
            continue
        mods.append(mod)
        for t in tasks_for(lib, throwing) + ([] if throwing else [ctor_task(lib)]):
            t.module = len(mods) - 1; tasks.append(t)
    run_tasks(chk, None, mods, tasks, cats)

def large(chk, rule, cap=512):
    """a static queue with many slots: the source compiles, its positions fit their cells and a new queue offers all but one slot"""
    desc = "SPSCQueue with %d static slots" % cap
    try: mod = ir.compile_ir(HDR + src_text("static", cap), pipe=ir.PIPE_LOOP)
    except ir.BuildError as e:
        err = [l for l in e.out.splitlines() if "error:" in l][:1]
        chk.fail(rule, desc, "does not compile: " + " / ".join(err)); return
    try:
        bad = QLib.widths(mod, "static", cap)
        if bad is not None: chk.fail(rule, desc, bad); return
        st = State(); st.mem["x"] = Reg("x", 4096 + 32 * cap, L1, "arg")
        it = Interp(mod, accelerate=False, peel=600)
        s = [o.st for o in it.run("ctor", [Pt("x")], st) if o.kind == "ret"]
        for f, e in (("ravail", 0), ("wavail", cap - 1)):
            for o in it.run(f, [Pt("x")], s[0]):
                v = o.val[1] if o.val != U and o.val[0] == "i" else None
                if v is not None and v.const() and v.c != e: chk.fail(rule, desc, "%s of a new queue is %d, specified %d" % ("read_available" if f == "ravail" else "write_available", v.c, e)); return
                if v is None or not v.const(): raise Unanalysable("result")
        chk.ok(rule, desc)
    except (Unanalysable, RecursionError, KeyError, IndexError, StopIteration) as e: chk.undecided(rule, desc, str(e))
