"""Heap order for every comparator: clients are followed with opaque elements; every comparison is answered from the order
facts known so far, and where both answers are consistent with them both are followed.  A final order that the facts do not
force is a violation (some strict weak order exhibits it)."""
from . import moveonly
from .arraylib import *
from .arraylib import HDR as AHDR
R1 = "heap order for every comparator"; R2 = "elements are only permuted"; R3 = "accesses stay inside the array"
HDR = AHDR + r'''
#include <xme/container/heap.hpp>
extern "C" { bool e_less(const E*, const E*) noexcept; void seel(int id, long k, const E* e) noexcept; void seen(int id, long k, long size) noexcept; void seef(int id, const E* e) noexcept; void seeno(int id, long k, long size) noexcept; }
struct Ls { bool operator()(const E& a, const E& b) const noexcept { return e_less(&a, &b); } };
using H = xme::Heap<E, A, Ls>;
template<class C> static inline void see(int id, const C& x) { long k = 0; for (auto i = x.begin(); i != x.end(); ++i) { seel(id, k, &*i); ++k; } seen(id, k, (long)x.size()); }
template<class C> static inline void seeo(int id, const C& x) { long k = 0; for (auto i = x.begin(); i != x.end(); ++i) { seel(id, k, &*i); ++k; } seeno(id, k, (long)x.size()); }
'''
ALLF = "order"
class HeapI(Interp):
    """st.facts: ('lt', a, b) -> bool; st.events: ('see', id, k, key)"""
    base = None        # base(a, b): order known from the start: True a<b, False not a<b, None unknown
    exp = {}; what = {}
    def key(self, st, d):
        if d[0] == "o":
            c = d[3] if d[2] == 0 else None
            if c is None: raise Unanalysable("element identity")
            c = st.cons.norm(c)
            if not c.const(): raise Unanalysable("element identity")
            return (d[1], c.c)
        if d[0] == "k": return ("k", d[1])
        raise Bad("mem", "compares a moved-from element")
    def known(self, st, a, b):
        """True: a < b; False: not a < b; None: open"""
        if a == b: return False
        v = self.base(a, b) if self.base else None
        if v is not None: return v
        le = {}; 
        for f, v in st.facts.items():
            if f[0] != "lt": continue
            _, x, y = f
            if v: le.setdefault(x, []).append((y, True))
            else: le.setdefault(y, []).append((x, False))
        def reach(x, y):
            """None | False (x <= y) | True (x < y)"""
            best = {x: False}; w = [x]
            while w:
                p = w.pop()
                for q, s in le.get(p, ()):
                    v = best[p] or s
                    if q not in best or v and not best[q]: best[q] = v; w.append(q)
            return best.get(y)
        r = reach(a, b)
        if r: return True
        if reach(b, a) is not None: return False
        return None
    def x_e_less(self, st, i, a):
        ks = [self.key(st, self.read_elem(st, p, "compares")[3]) for p in a[:2]]
        v = self.known(st, *ks)
        if v is not None: return v
        raise ForkB(("lt",) + tuple(ks))
    def truth(self, st, v):
        return Interp.truth(self, st, v)
    def x_seel(self, st, i, a):
        _, _, _, d = self.read_elem(st, a[2], "reads")
        if d[0] == "mv": raise Bad("content", "a moved-from value is in the heap after %s" % self.what[self.int(a[0]).c])
        st.events = st.events + (("see", self.int(a[0]).c, self.int(a[1]).c, self.key(st, d)),)
        return U
    def x_seen(self, st, i, a):
        id = self.int(a[0]).c; w = self.what[id]
        ev = [e for e in st.events if e[0] == "see" and e[1] == id]
        st.events = tuple(e for e in st.events if not (e[0] == "see" and e[1] == id))
        q = [e[3] for e in ev]
        n, sz = self.int(a[1]), self.int(a[2])
        exp = self.exp[id]
        if not st.eq(n - len(exp)) or not st.eq(sz - len(exp)): raise Bad("content", "the heap holds %r elements (size() %r), specified %d, after %s" % (n, sz, len(exp), w))
        if sorted(map(str, q)) != sorted(map(str, exp)): raise Bad("content", "the heap holds %s, specified a permutation of %s, after %s" % (", ".join(map(nm, q)), ", ".join(map(nm, exp)), w))
        for j in range(1, len(q)):
            p = (j - 1) // 2
            if self.known(st, q[p], q[j]) is not False:
                raise Bad("order", "the element at position %d (%s) may compare less than its child at position %d (%s) after %s, in an order where %s" % (p, nm(q[p]), j, nm(q[j]), w, "; ".join("%s %s %s" % ((nm(f[1]), "<", nm(f[2])) if v else (nm(f[2]), "<=", nm(f[1]))) for f, v in list(st.facts.items())[-14:] if f[0] == "lt")))
        return U
    def x_seef(self, st, i, a):
        # front(): no element of the specified set is greater
        id = self.int(a[0]).c
        k = self.key(st, self.read_elem(st, a[1], "reads")[3])
        for e in self.exp[id]:
            if self.known(st, k, e) is not False: raise Bad("order", "front() is %s, which may compare less than %s, after %s" % (nm(k), nm(e), self.what[id]))
        return U
    def x_seeno(self, st, i, a):
        """like seen, the multiset is only required to be duplicate-free and drawn from the pushed elements"""
        id = self.int(a[0]).c; w = self.what[id]
        q = [e[3] for e in st.events if e[0] == "see" and e[1] == id]
        n = w.count("+") - w.count("-")
        if not st.eq(self.int(a[1]) - n) or not st.eq(self.int(a[2]) - n): raise Bad("content", "the heap holds %r elements, specified %d, after %s" % (self.int(a[1]), n, w))
        if len(set(q)) != len(q) or not set(q) <= set(self.exp[id]): raise Bad("content", "the heap holds %s after %s" % (", ".join(map(nm, q)), w))
        for j in range(1, len(q)):
            if self.known(st, q[(j - 1) // 2], q[j]) is not False: raise Bad("order", "the element at position %d may compare less than its child at position %d after %s" % ((j - 1) // 2, j, w))
        return U
def nm(k): return "S[%d]" % k[1] if k[0] == "S" else str(k[1]) if k[0] == "k" else "A[%d]" % k[1]

class Cl:
    def __init__(s): s.code = []; s.exp = {}; s.what = {}; s.k = 0
    def see(s, x, exp, what):
        s.k += 1; s.exp[s.k] = list(exp); s.what[s.k] = what; s.code.append("see(%d, %s);" % (s.k, x))
        if exp: s.code.append("seef(%d, &%s.front());" % (s.k, x))
S = lambda i: ("S", i)
def clients(thorough):
    """(description, text, expectations, sources, base facts: list of (smaller-or-equal child, parent))"""
    out = []
    def heapfacts(n): return {("lt", S((j - 1) // 2), S(j)): False for j in range(1, n)}
    NP = list(range(0, 70)) + [127, 128, 255] if thorough else list(range(0, 18)) + [31, 32]
    fill = "H h; for (long i = 0; i < %d; ++i) h.push(f[i]);"
    for n in NP:
        forms = [("push(const&)", "h.push(f[%d]);" % n, S(n))]
        if n in (0, 1, 2, 3, 6, 7): forms += [("push(&&)", "{ E t(f[%d]); h.push(std::move(t)); }" % n, S(n)), ("push(convertible)", "h.push(long(5));", ("k", "5")), ("emplace", "h.emplace(f[%d]);" % n, S(n)), ("emplace(arguments)", "h.emplace(long(5));", ("k", "5")), ("emplace()", "h.emplace();", ("k", "default"))]
        for nme, t, v in forms:
            c = Cl(); c.code.append(fill % n); c.code.append(t); c.see("h", [S(i) for i in range(n)] + [v], nme); out.append(("%s into every heap of %d elements" % (nme, n), c, n + 1, heapfacts(n)))
    NQ = list(range(1, 62)) if thorough else list(range(1, 13)) + [15, 16]
    for n in NQ:
        c = Cl(); c.code.append(fill % n); c.code.append("h.pop();"); c.see("h", [S(i) for i in range(1, n)], "pop"); out.append(("pop from every heap of %d elements" % n, c, n, heapfacts(n)))
    # construction and short histories without any known order
    for n in range(0, 5 if not thorough else 6):
        for nme, t in (("pointers", "f, f + %d"), ("forward iterators", "FwdIt{f}, FwdIt{f + %d}"), ("single-pass iterators", "InIt{f}, InIt{f + %d}"), ("a range", "PtrR{f, f + %d}"), ("a forward range", "FwdR{f, f + %d}")):
            c = Cl(); c.code.append("H h(%s);" % t % n); c.see("h", [S(i) for i in range(n)], "construction"); out.append(("Heap(%s), %d elements in any order" % (nme, n), c, n, {}))
    # histories from an empty heap, nothing known about the order: pushes interleaved with pops (the popped element is the front one)
    words = ["++-", "+++-", "+-+", "++-+-", "+++--+", "++++----"] + (["+++++-----", "++++-+-+--", "++++++-", "++-++-++-"] if thorough else [])
    for w in words:
        c = Cl(); c.code.append("H h;"); i = 0
        for x in w: c.code.append("h.push(f[%d]);" % i if x == "+" else "h.pop();"); i += x == "+"
        if w.count("+") > w.count("-"): c.code.append("seeo(1, h);")
        c.exp[1] = [S(j) for j in range(i)]; c.what[1] = w
        out.append(("history %s in any order" % w, c, i, {}))
    return out

# ---- large heaps: one operation on a heap of a given size whose elements have a fixed order
BIG = r'''
extern "C" void bpush(H* x, const E& v) { x->push(v); }
extern "C" void bemp(H* x, const E& v) { x->emplace(v); }
extern "C" void bpop(H* x) { x->pop(); }
extern "C" long bsz() { return sizeof(H); }
extern "C" long asz() { return sizeof(A); }
'''
def depth(i): return (i + 1).bit_length() - 1
def big_tasks(chk, lib, module, thorough):
    out = []
    sizes = [255, 256, 257, 32768, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 5]
    if thorough: sizes += [127, 128, 129, 32767, 65535, 65537, 1 << 20, (1 << 30) - 1, (1 << 30) + 1, (1 << 31) + 1, (1 << 32) + 1, 1 << 33, (1 << 36) + 11]
    def one(desc, fn, N, rank, args, vr, after):
        def val_(k):
            if k == ("k", "v"): return vr
            return rank(k[1])
        def init():
            st = State(); lib.obj(st, "x", L.k(N), L.k(N + 9), "A"); val(st, "v"); return st, args, ()
        def post(o, it):
            s = o.st
            if o.kind == "term": return [("life", "the program terminates")]
            h, n_, c_, ps = lib.read(s, "x")
            if ps: return ps
            want = N + (1 if after == "push" else -1)
            if h is None or not s.eq(n_ - want): return [("content", "the heap holds %r elements, specified %d" % (s.cons.norm(n_), want))]
            segs = split_range(s, s.mem[h].elems.get(0, ()), LZ, L.k(want))
            moved = {}
            for lo, hi, d in segs:
                lo, hi = s.cons.norm(lo), s.cons.norm(hi)
                if d[0] == "o" and d[1] == "A" and d[2] == 1 and s.eq(d[3]): continue
                if not (hi - lo).const() or (hi - lo).c > 400: return [("content", "a long range of elements changed position")]
                for j in range(lo.c, hi.c):
                    e = d_at(d, L.k(j))
                    if e[0] not in ("o", "k"): return [("content", "position %d holds %s" % (j, show(s, e)))]
                    moved[j] = ("k", e[1]) if e[0] == "k" else (e[1], s.cons.norm(e[3]).c)
            src_ = set(moved.values())
            dst = {("A", j) for j in moved if j < N} | ({("k", "v")} if after == "push" else set())
            if after == "pop": dst = (dst | {("A", N - 1)}) - {("A", 0)} if moved else {("A", 0)} - ({("A", 0)} if N == 1 else set())
            if len(src_) != len(moved) or src_ != dst: return [("content", "the elements are not a permutation of the specified ones")]
            at = lambda j: moved.get(j, ("A", j))
            for j in moved:
                for p, c in (((j - 1) // 2, j), (j, 2 * j + 1), (j, 2 * j + 2)):
                    if j == 0 and p != 0 or c >= want or c <= 0: continue
                    if val_(at(p)) < val_(at(c)): return [("order", "the element at position %d compares less than its child at position %d" % (p, c))]
            return []
        t = Task(desc, fn, init, post, module=module); t.direct = 400
        t.interp = (HeapI, {"exp": {}, "what": {}, "steps": 300000, "base": staticmethod(lambda a, b: val_(a) < val_(b)).__func__})
        out.append(t)
    for N in sizes:
        up = set(); j = N
        while j: j = (j - 1) // 2; up.add(j)
        for nme, vr in (("greatest", 1), ("least", -10 ** 9), ("middle", -2 * (depth(N) // 2) - 1)):
            for fn, onm in (("bpush", "push"), ("bemp", "emplace")) if nme == "greatest" or thorough else (("bpush", "push"),):
                one("%s of the %s element into a heap of %d elements" % (onm, nme, N), fn, N, lambda i: -2 * depth(i), [Pt("x"), Pt("v")], vr, "push")
        lastp = set(); j = N - 2
        while j > 0: lastp.add(j); j = (j - 1) // 2
        for nme, fav in (("first", lambda i: i & 1), ("second", lambda i: not i & 1 and i), ("last leaf's", lambda i, lastp=lastp: i in lastp)):
            one("pop sinking along the %s children from a heap of %d elements" % (nme, N), "bpop", N, lambda i, fav=fav: -2 * depth(i) + (1 if fav(i) else 0), [Pt("x")], 0, "pop")
    return out
def add_big(chk, mods, tasks, thorough):
    try:
        m0 = ir.compile_ir(AHDR + TEMPLATE, pipe=ir.PIPE_LOOP); lib = Lib(m0)
        mod = ir.compile_ir(HDR + BIG, pipe=ir.PIPE_LOOP)
        sz = [Interp(mod).run(f, [], State())[0].val[1].c for f in ("bsz", "asz")]
        if sz[0] != sz[1]: raise Unanalysable("a Heap is not laid out as its array")
    except (Unanalysable, KeyError, IndexError, StopIteration, ir.BuildError) as e:
        chk.undecided(R3, "large heaps", "representation: %s" % e, 30); return
    mods.append(mod); tasks += big_tasks(chk, lib, len(mods) - 1, thorough)
def run(chk, thorough):
    moveonly.run(chk, "C15")
    cl = clients(thorough)
    cats = {"order": R1, "content": R2, "hang": R1, "life": R2, "mem": R3, "propagate": R2, "source": R2}
    K = 16; chunks = [cl[i::K] for i in range(K)]; chunks = [c for c in chunks if c]
    from concurrent.futures import ThreadPoolExecutor
    def comp(c):
        src_ = HDR + "".join('extern "C" void h%d(const E* f) { %s }\n' % (j, " ".join(x[1].code)) for j, x in enumerate(c))
        try: return ir.compile_ir(src_, pipe=ir.PIPE_LOOP)
        except ir.BuildError as e: return e
    with ThreadPoolExecutor(8) as ex: mods = list(ex.map(comp, chunks))
    tasks = []
    for q, (c, mod) in enumerate(zip(chunks, mods)):
        if isinstance(mod, ir.BuildError):
            err = [l for l in mod.out.splitlines() if "error:" in l][:2]
            chk.fail(R1, "heap clients", "does not compile: " + " / ".join(err), err[0].split(": ")[0] if err else ""); continue
        for j, (desc, x, n_, facts) in enumerate(c):
            def init(n_=n_, facts=facts):
                st = State(); src(st, "S", L.k(max(n_, 1))); st.facts = dict(facts); return st, [Pt("S")], ()
            t = Task(desc, "h%d" % j, init, post, module=q); t.direct = 400
            t.interp = (HeapI, {"exp": x.exp, "what": x.what, "steps": 1500000 if thorough else 300000}); tasks.append(t)
    add_big(chk, mods, tasks, thorough)
    run_tasks(chk, None, mods, tasks, cats)
    chk.need(R1, 40); chk.need(R2, 40)
def post(o, it):
    s = o.st; ps = []
    if o.kind == "term": return [("life", "the program terminates")]
    for r in s.mem.values():
        if r.kind == "heap": ps.append(("life", "storage is never released"))
        if r.kind == "alloca":
            for off, segs in r.elems.items():
                if any(d != RAW for lo, hi, d in segs): ps.append(("life", "a local element is never destroyed"))
    ps += alive(s, "S")
    if not ps: ps += unchanged(s, "S")
    return ps
