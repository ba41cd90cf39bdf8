"""Client histories: functions that use a container from construction to destruction, analysed by engine B.

Unlike the operation-wise analysis these do not depend on how the container represents its contents: elements and storage
are tracked through the client's whole body, and a hook called from the client compares every element it iterates over with
an abstract sequence kept here."""
import itertools
from .arraylib import *
from .arraylib import HDR as AHDR
ALL = ("e_def", "e_make", "e_copy", "e_move", "e_casg", "e_masg", "a_alloc")
SEE = r'''
extern "C" { void seel(int id, long k, const E* e) noexcept; void seen(int id, long k, long size) noexcept; void seeb(int id, bool b) noexcept; }
'''
HDRA = AHDR + SEE + "template<class C> static inline void see(int id, const C& x) { long k = 0; for (auto i = x.begin(); i != x.end(); ++i) { seel(id, k, &*i); ++k; } seen(id, k, (long)x.size()); }\n"
HDRL = AHDR + "#include <xme/container/linked_list.hpp>\nusing S = xme::LinkedList<E, Al<E>>;\n" + SEE + '''template<class C> static inline void see(int id, const C& x) { long k = 0; for (auto i = x.begin(); i != x.end(); ++i) { seel(id, k, &*i); ++k; } seen(id, k, k); }
static inline S::const_iterator at(S& x, long k) { S::const_iterator it = x.before_begin(); for (; k; --k) ++it; return it; }
'''
class Hist(Interp):
    exp = {}
    def x_seel(self, st, i, a):
        e = self.exp[self.int(a[0]).c]; k = self.int(a[1])
        if not k.const(): raise Unanalysable("position not constant")
        _, _, _, d = self.read_elem(st, a[2], "reads")
        if k.c >= len(e): raise Bad("content", "iteration yields more than the %d elements specified after %s" % (len(e), self.steps_[self.int(a[0]).c]))
        w = e[k.c]
        ok = d == ("k", w) if isinstance(w, str) else d[0] == "o" and d[1] == "S" and st.eq((d_at(d, LZ) if d[2] == 0 else d)[3] - w)
        if not ok: raise Bad("content", "position %d holds %s, specified %s, after %s" % (k.c, show(st, d), w if isinstance(w, str) else "the value of S[%d]" % w, self.steps_[self.int(a[0]).c]))
        return U
    def x_seen(self, st, i, a):
        e = self.exp[self.int(a[0]).c]; k = self.int(a[1])
        if not st.eq(k - len(e)): raise Bad("content", "iteration yields %r elements, specified %d, after %s" % (st.cons.norm(k), len(e), self.steps_[self.int(a[0]).c]))
        if not st.eq(self.int(a[2]) - len(e)): raise Bad("content", "size() is %r, specified %d, after %s" % (st.cons.norm(self.int(a[2])), len(e), self.steps_[self.int(a[0]).c]))
        return U
    def x_seeb(self, st, i, a):
        if a[1] == U: raise Bad("mem", "reads uninitialised memory")
        if not self.truth(st, a[1]): raise Bad("content", "wrong position, capacity or answer after %s" % self.steps_[self.int(a[0]).c])
        return U

class B:
    """client text and abstract sequences side by side"""
    def __init__(s): s.code = []; s.seq = {}; s.exp = {}; s.names = []; s.k = 0; s.steps = {}
    def copy(s):
        r = B(); r.code = list(s.code); r.seq = {k: list(v) for k, v in s.seq.items()}; r.exp = dict(s.exp); r.names = list(s.names); r.k = s.k; r.steps = dict(s.steps); return r
    def do(s, name, text, **seqs):
        s.code.append(text); s.seq.update(seqs); s.names.append(name)
    def see(s, x):
        s.k += 1; s.exp[s.k] = list(s.seq[x]); s.steps[s.k] = "; ".join(s.names); s.code.append("see(%d, %s);" % (s.k, x))
    def chk(s, cond): s.k += 1; s.steps[s.k] = "; ".join(s.names); s.code.append("seeb(%d, %s);" % (s.k, cond))

def array_ops(M):
    """name -> fn(B) or None when not applicable; x is the array under test, S[0..M) the source elements"""
    def simple(name, text, f, when=lambda q: True, cond="x.capacity() >= x.size()", pre=""):
        def g(b):
            q = b.seq["x"]
            if not when(q): return False
            if pre: b.code.append(pre + " {")
            b.do(name, text, x=f(list(q))); b.see("x"); b.chk(cond)
            if pre: b.code.append("}")
            return True
        return name, g
    ops = []
    add = lambda *a, **k: ops.append(simple(*a, **k))
    add("push_back(S[0])", "x.push_back(f[0]);", lambda q: q + [0])
    add("push_back(move)", "{ E t(f[1]); x.push_back(std::move(t)); }", lambda q: q + [1])
    add("emplace_back()", "x.emplace_back();", lambda q: q + ["default"])
    add("push_back(range)", "x.push_back(f, f + 3);", lambda q: q + [0, 1, 2])
    add("push_back(single-pass range)", "x.push_back(InIt{f}, InIt{f + 2});", lambda q: q + [0, 1])
    add("insert at the front", "x.insert(x.begin(), f[2]);", lambda q: [2] + q)
    add("insert moved inside", "{ E t(f[3]); x.insert(x.begin() + 1, std::move(t)); }", lambda q: q[:1] + [3] + q[1:], when=lambda q: len(q) > 1)
    add("insert a range inside", "x.insert(x.begin() + 1, f + 1, f + 4);", lambda q: q[:1] + [1, 2, 3] + q[1:], when=lambda q: q)
    add("insert a range at the end", "x.insert(x.end(), f + 1, f + 3);", lambda q: q + [1, 2])
    add("insert one of its own elements", "x.insert(x.begin(), x[x.size() - 1]);", lambda q: q[-1:] + q, when=lambda q: q)
    add("push_back of one of its own elements", "x.push_back(x[0]);", lambda q: q + q[:1], when=lambda q: q)
    add("erase the first", "x.erase(x.begin());", lambda q: q[1:], when=lambda q: q)
    add("erase the last", "x.erase(x.begin() + (x.size() - 1));", lambda q: q[:-1], when=lambda q: q)
    add("erase a range inside", "x.erase(x.begin() + 1, x.begin() + 3);", lambda q: q[:1] + q[3:], when=lambda q: len(q) > 3)
    add("erase everything", "x.erase(x.begin(), x.end());", lambda q: [], when=lambda q: q)
    add("pop_back", "x.pop_back();", lambda q: q[:-1], when=lambda q: q)
    add("clear", "x.clear();", lambda q: [], pre="if(auto c0 = x.capacity(); true)", cond="x.capacity() == c0")
    add("reserve", "x.reserve(9);", lambda q: q, cond="x.capacity() >= 9")
    add("resize(2)", "x.resize(2);", lambda q: q[:2], cond="x.capacity() == 2")
    add("resize(12)", "x.resize(12);", lambda q: q, cond="x.capacity() == 12")
    add("copy and assign back", "{ A y(x); x = y; }", lambda q: q)
    add("assign another array", "{ A y(f, f + 2); x = y; }", lambda q: [0, 1])
    add("move-assign another array", "{ A y(f + 1, f + 4); x = std::move(y); }", lambda q: [1, 2, 3])
    add("move out and back", "{ A y(std::move(x)); x = std::move(y); }", lambda q: q)
    add("swap with another array", "{ A y(f + 2, f + 4); x.swap(y); see(0, y); }", lambda q: [2, 3])
    add("assign an initializer list", "x = {f[1], f[0]};", lambda q: [1, 0])
    return ops
ASTART = [("A()", "A x;", []), ("A(3)", "A x(3);", []), ("A(2, value)", "A x(2, f[3]);", [3, 3]), ("A(4 pointers)", "A x(f, f + 4);", [0, 1, 2, 3]), ("A(single-pass iterators)", "A x(InIt{f}, InIt{f + 3});", [0, 1, 2]), ("A{list}", "A x{f[0], f[1]};", [0, 1])]

def list_ops(M):
    ops = []
    def add(name, text, f, when=lambda q: True, cond=None):
        def g(b):
            q = b.seq["x"]
            if not when(q): return False
            b.do(name, text, x=f(list(q))); b.see("x"); return True
        ops.append((name, g))
    add("push_front(S[0])", "x.push_front(f[0]);", lambda q: [0] + q)
    add("push_front(move)", "{ E t(f[1]); x.push_front(std::move(t)); }", lambda q: [1] + q)
    add("insert_after(before_begin)", "x.insert_after(x.before_begin(), f[2]);", lambda q: [2] + q)
    add("insert_after(first)", "x.insert_after(x.begin(), f[3]);", lambda q: q[:1] + [3] + q[1:], when=lambda q: q)
    add("insert_after a range", "x.insert_after(at(x, 1), f + 1, f + 4);", lambda q: q[:1] + [1, 2, 3] + q[1:], when=lambda q: q)
    add("insert_after of one of its own elements", "x.insert_after(x.before_begin(), *x.begin());", lambda q: q[:1] + q, when=lambda q: q)
    add("pop_front", "x.pop_front();", lambda q: q[1:], when=lambda q: q)
    add("erase_after(before_begin)", "x.erase_after(x.before_begin());", lambda q: q[1:], when=lambda q: q)
    add("erase_after(first)", "x.erase_after(x.begin());", lambda q: q[:1] + q[2:], when=lambda q: len(q) > 1)
    add("erase_after a range", "x.erase_after(at(x, 1), at(x, 4));", lambda q: q[:1] + q[3:], when=lambda q: len(q) > 2)
    add("clear", "x.clear();", lambda q: [])
    add("reverse", "x.reverse();", lambda q: q[::-1])
    add("copy and assign back", "{ S y(x); x = y; }", lambda q: q)
    add("assign another list", "{ S y(f, f + 2); x = y; }", lambda q: [0, 1])
    add("move-assign another list", "{ S y(f + 1, f + 4); x = std::move(y); }", lambda q: [1, 2, 3])
    add("move out and back", "{ S y(std::move(x)); x = std::move(y); }", lambda q: q)
    return ops
LSTART = [("S()", "S x;", []), ("S(2, value)", "S x(2, f[3]);", [3, 3]), ("S(4 pointers)", "S x(f, f + 4);", [0, 1, 2, 3]), ("S(single-pass iterators)", "S x(InIt{f}, InIt{f + 3});", [0, 1, 2])]
M = 4
def histories(start, ops, depth, stride=1):
    """[(description, text, expectations, steps)]: every start followed by every sequence of `depth` operations (every stride-th)"""
    out = []; n = 0
    for snm, stext, q in start:
        for seq in itertools.product(ops, repeat=depth):
            n += 1
            if n % stride: continue
            b = B(); b.do(snm, stext, x=list(q)); b.see("x")
            ok = True
            for nm, g in seq:
                before = list(b.seq["x"])
                if not g(b): ok = False; break
                # the swapped-out contents are checked against what x held
                for j, c in enumerate(b.code):
                    if "see(0, y)" in c: b.k += 1; b.exp[b.k] = before; b.steps[b.k] = "; ".join(b.names); b.code[j] = c.replace("see(0,", "see(%d," % b.k)
            if ok: out.append(b)
    return out
def post(o, it):
    s = o.st; ps = []
    threw = any(e[0] == "throw" for e in s.events)
    if o.kind == "term": return [("propagate", "the exception of an element operation ends in std::terminate")] if threw else [("life", "the program terminates")]
    if o.kind == "ret" and threw: ps.append(("propagate", "an exception of an element operation is swallowed"))
    k = "exc" if threw else "life"
    for r in s.mem.values():
        if r.kind == "heap": ps.append((k, "storage is never released"))
        if r.kind == "family":
            if any(d != FREED and s.ge(hi - lo + (-1)) for lo, hi, d in r.st): ps.append((k, "a node is never released"))
        if r.kind == "alloca":
            for off, segs in r.elems.items():
                if any(d != RAW for lo, hi, d in segs): ps.append((k, "a local element is never destroyed"))
    ps += [(k if c == "life" else c, t) for c, t in alive(s, "S")]
    if not ps: ps += unchanged(s, "S")
    return ps

def run_hist(chk, which, cats, throwing=False, plan=((1, 1), (2, 5))):
    """plan: (number of operations, every stride-th sequence)"""
    hdr, start, ops = (HDRA, ASTART, array_ops(M)) if which == "array" else (HDRL, LSTART, list_ops(M))
    hs = [h for d, s in plan for h in histories(start, ops, d, s)]
    chunks = [hs[i::16] for i in range(16)]; chunks = [c for c in chunks if c]
    def text(b, name): return 'extern "C" void %s(const E* f) { %s }\n' % (name, " ".join(b.code))
    from concurrent.futures import ThreadPoolExecutor
    def comp(c):
        try: return ir.compile_ir(hdr + "".join(text(b, "h%d" % j) for j, b in enumerate(c)), pipe=ir.PIPE_LOOP)
        except ir.BuildError as e: return e
    with ThreadPoolExecutor(8) as ex: mods = list(ex.map(comp, chunks))
    tasks = []
    for q, (c, mod) in enumerate(zip(chunks, mods)):
        if isinstance(mod, ir.BuildError):
            err = [l for l in mod.out.splitlines() if "error:" in l][:2]
            for rule in dict.fromkeys(cats.values()): chk.fail(rule, "%s histories" % which, "the client does not compile: " + " / ".join(err), err[0].split(": ")[0] if err else "")
            continue
        for j, b in enumerate(c):
            def init():
                st = State(); src(st, "S", L.k(M)); return st, [Pt("S")], ()
            t = Task("history: " + "; ".join(b.names), "h%d" % j, init, post, throwing=ALL if throwing else (), module=q, small=[{}], finite=True); t.direct = 80
            t.interp = (Hist, {"exp": b.exp, "steps_": b.steps}); tasks.append(t)
    run_tasks(chk, None, mods, tasks, cats)
