"""C18: Delegate. The abstract states a delegate can be in are enumerated by closing the constructors under every operation;
each transition is interpreted and compared with the specified effect on the held callable."""
from .arraylib import *
from .. import lin, ir, typ
from ..seg import Interp, Terminate, nbytes, ptadd
R1 = "ownership: every callable and its storage exist and end exactly once"
R2 = "effect of each operation on the callables held"
R3 = "a call reaches the held callable with the arguments in order and returns its result"
R4 = "handle returns the held callable for its exact type only"
R5 = "deduction and call signatures"
HDR = PROBE + r'''
#include <xme/core/functional/delegate.hpp>
#include <new>
extern "C" {
void s_copy(void*, const void*); void s_move(void*, void*); void s_dtor(void*) noexcept; void t_copy(void*, const void*); void t_move(void*, void*);
long f_call(int kind, const void* self, long align, long value, long a, int* b, E* c, E* d);
void v_call(const void* self, E* c);
long fn_T(long, int*, E&, E&&);
}
#define SIG long a, int* b, E& c, E&& d
#define PASS(k, v) f_call(k, this, alignof(std::remove_cvref_t<decltype(*this)>), v, a, b, &c, &d)
struct Big { E e; long operator()(SIG) { return PASS(1, 0); } };
struct BigC { long pad; E e; long operator()(SIG) const { return PASS(2, 0); } };
struct Small { long v; long operator()(SIG) { return PASS(3, v); } };
struct Small2 { long w, v; long operator()(SIG) const { return PASS(4, v); } };
struct Nt { char d[8]; Nt(const Nt& o) { s_copy(this, &o); } Nt(Nt&& o) { s_move(this, &o); } ~Nt() noexcept { s_dtor(this); } long operator()(SIG) const { return PASS(5, 0); } };
struct alignas(32) Ov { long v; long operator()(SIG) const { return PASS(6, v); } };
struct Wide { long w, x, v; long operator()(SIG) { return PASS(7, v); } };
struct alignas(16) Ov16 { long w, v; long operator()(SIG) const { return PASS(9, v); } };
struct Sr { char d[8]; Sr(const Sr& o) { t_copy(this, &o); } Sr(Sr&& o) { t_move(this, &o); } long operator()(SIG) const { return PASS(10, 0); } };
struct Wide5 { long w, x, y, z, v; long operator()(SIG) const { return PASS(11, v); } };
struct Ntn { char d[8]; Ntn(const Ntn& o) { s_copy(this, &o); } Ntn(Ntn&& o) noexcept { s_move(this, &o); } ~Ntn() noexcept { s_dtor(this); } long operator()(SIG) { return PASS(12, 0); } };
struct Lv { long v; long operator()(SIG) & { return PASS(13, v); } long operator()(SIG) const& { return PASS(-13, v); } long operator()(SIG) && { return PASS(-13, v); } long operator()(SIG) const&& { return PASS(-13, v); } };
struct Em { long operator()(SIG) const { return PASS(8, 0); } };
using FP = long (*)(long, int*, E&, E&&);
using D = xme::Delegate<long(long, int*, E&, E&&)>;
'''
KINDS = ["Big", "BigC", "Small", "Small2", "Nt", "Ov", "Wide", "Em", "Ov16", "Sr", "Wide5", "Ntn", "Lv"]
CODE = {k: i + 1 for i, k in enumerate(KINDS)}
ELEM = {"Big": 0, "BigC": 8, "Nt": 0, "Sr": 0, "Ntn": 0}             # offset of the tracked element
VAL = {"Small": 0, "Small2": 8, "Ov": 0, "Wide": 16, "Ov16": 8, "Wide5": 32, "Lv": 0}     # offset of the tracked value
SIZE = {"Big": 24, "BigC": 32, "Nt": 8, "Small": 8, "Small2": 16, "Ov": 32, "Wide": 24, "Em": 1, "Ov16": 16, "Sr": 8, "Wide5": 40, "Ntn": 8, "Lv": 8}
TRIV = ("Sr",)                                        # no destructor call expected
def live(d): return d != RAW and d[0] != "kt"

def source():
    t = HDR
    f = lambda sig, body: 'extern "C" %s { %s }\n' % (sig, body)
    t += f("void c_def(D* d)", "new(d) D;")
    t += f("void c_fp(D* d, FP p)", "new(d) D(p);") + f("void c_fn(D* d)", "new(d) D(fn_T);")
    for k in KINDS:
        t += f("void c_l_%s(D* d, %s* s)" % (k, k), "new(d) D(*s);") + f("void c_c_%s(D* d, const %s* s)" % (k, k), "new(d) D(*s);") + f("void c_r_%s(D* d, %s* s)" % (k, k), "new(d) D(std::move(*s));")
        t += f("void a_l_%s(D* d, %s* s)" % (k, k), "*d = *s;") + f("void a_r_%s(D* d, %s* s)" % (k, k), "*d = std::move(*s);")
        t += f("const void* h_%s(const D* d)" % k, "return d->handle<%s>();" % k)
    t += f("void a_fp(D* d, FP p)", "*d = p;") + f("const void* h_fp(const D* d)", "return d->handle<FP>();") + f("void a_null(D* d)", "*d = nullptr;")
    t += f("void c_copy(D* d, const D* o)", "new(d) D(*o);") + f("void c_ncopy(D* d, D* o)", "new(d) D(*o);") + f("void c_crv(D* d, const D* o)", "new(d) D(std::move(*o));") + f("void c_move(D* d, D* o)", "new(d) D(std::move(*o));")
    t += f("void a_copy(D* d, const D* o)", "*d = *o;") + f("void a_ncopy(D* d, D* o)", "*d = *o;") + f("void a_move(D* d, D* o)", "*d = std::move(*o);") + f("void swap_(D* d, D* o)", "d->swap(*o);")
    t += f("bool tobool(const D* d)", "return static_cast<bool>(*d);") + f("long call(const D* d, long a, int* b, E* c, E* e)", "return (*d)(a, b, *c, std::move(*e));")
    t += f("long callm(D* d, long a, int* b, E* c, E* e)", "return (*d)(a, b, *c, std::move(*e));")
    t += f("void dtor(D* d)", "d->~D();") + f("void sizes(long* p)", "p[0] = sizeof(D); p[1] = alignof(D);")
    return t
MHDR = PROBE + r'''
#include <xme/core/functional/delegate.hpp>
struct W { long pad; long x; long m(long, E&&); long c(long, E&&) const; };
extern "C" long f_call(const void* self, long a, E* e);
extern "C" long fn_T(W&, long, E&&);
struct Lam { long v; long operator()(W& w, long a, E&& e) const; };
using FP = long (*)(W&, long, E&&);
using D = xme::Delegate<long(W&, long, E&&)>;
using DM = xme::Delegate<long&(W&)>;
using DP = xme::Delegate<long(W*, long, E&&)>;
using DV = xme::Delegate<void(E)>;
extern "C" void v_call(void*);
struct VF { long pad; void operator()(E e) const { v_call(&e); } };
'''
def msource():
    t = MHDR
    f = lambda sig, body: 'extern "C" %s { %s }\n' % (sig, body)
    t += f("void c_m(D* d)", "new(d) D(&W::m);") + f("void c_c(D* d)", "new(d) D(&W::c);") + f("void c_var(D* d, long (W::*p)(long, E&&))", "new(d) D(p);") + f("void c_fp(D* d, FP p)", "new(d) D(p);")
    t += f("void c_ptr(DP* d)", "new(d) DP(&W::m);") + f("void c_data(DM* d)", "new(d) DM(&W::x);") + f("void c_vf(DV* d, VF* s)", "new(d) DV(*s);")
    t += f("void a_var(D* d, long (W::*p)(long, E&&))", "*d = p;")
    t += f("bool tobool(const D* d)", "return static_cast<bool>(*d);") + f("long call(const D* d, W* w, long a, E* e)", "return (*d)(*w, a, std::move(*e));") + f("long callp(const DP* d, W* w, long a, E* e)", "return (*d)(w, a, std::move(*e));")
    t += f("long* calld(const DM* d, W* w)", "return &(*d)(*w);") + f("void c_dvar(DM* d, long W::* p)", "new(d) DM(p);") + f("void a_dvar(DM* d, long W::* p)", "new(d) DM(&W::x); *d = p;") + f("bool tobool_d(const DM* d)", "return static_cast<bool>(*d);") + f("void callv(const DV* d, E* e)", "(*d)(std::move(*e));")
    t += f("void dtor(D* d)", "d->~D();") + f("void c_copy(D* d, const D* o)", "new(d) D(*o);") + f("void c_move(D* d, D* o)", "new(d) D(std::move(*o));")
    return t

class DI(Interp):
    """operator new and delete, small tracked functors, calls into functors"""
    align = 8; bytewise = True
    def x_t_copy(self, st, i, a): return self.small(self.x_e_copy, st, i, a)
    def x_t_move(self, st, i, a): return self.small(self.x_e_move, st, i, a)
    def clobber(self, st, name, idx, rem, n, keep=None):
        r = st.mem[name]
        for o in [o for o, segs in r.elems.items() if o < rem + n and o + 8 > rem and segs[0][2][0] == "kt"]:
            r = st.wreg(name); del r.elems[o]            # its destructor does nothing
        return Interp.clobber(self, st, name, idx, rem, n, keep)
    def x__Znwm(self, st, i, a):
        n = self.int(a[0])
        if not n.const(): raise Unanalysable("allocation of symbolic size")
        name = st.fresh("heap"); r = Reg(name, n.c, L1, "heap", L1); r.site = 16; st.mem[name] = r
        return Pt(name)
    def x__ZnwmSt11align_val_t(self, st, i, a):
        p = self.x__Znwm(st, i, a); st.mem[p[1]].site = self.int(a[1]).c; return p
    def x__ZdlPvm(self, st, i, a):
        p = a[0]
        if p == U: raise Bad("life", "releases an uninitialised pointer")
        if p[1] == "null": return U
        r = st.reg(p[1])
        if r.kind == "freed": raise Bad("life", "releases a callable's storage twice")
        if r.kind != "heap" or not st.eq(p[2]): raise Bad("life", "releases storage that was not allocated")
        if len(a) > 1 and a[1][0] == "i" and not st.eq(a[1][1] - r.esize): raise Bad("life", "releases storage with another size than allocated")
        for o, s in r.elems.items():
            if any(live(d) for _, _, d in s): raise Bad("life", "releases the storage of a callable that was not destroyed")
        r = st.wreg(p[1]); r.st = ((LZ, r.len, FREED),); r.kind = "freed"
        return U
    def x__ZdlPv(self, st, i, a): return self.x__ZdlPvm(st, i, a)
    def x__ZdlPvmSt11align_val_t(self, st, i, a): return self.x__ZdlPvm(st, i, a[:2])
    def x__ZdlPvSt11align_val_t(self, st, i, a): return self.x__ZdlPvm(st, i, a[:1])
    def itop(self, st, l):
        try: return Interp.itop(self, st, l)
        except Unanalysable: return ("p", "wild", l)       # bytes of a callable read as a pointer: an error only when used
    def small(self, f, *a):
        self.esz = 8
        try: return f(*a)
        finally: self.esz = ESZ
    def x_s_copy(self, st, i, a): return self.small(self.x_e_copy, st, i, a)
    def x_s_move(self, st, i, a): return self.small(self.x_e_move, st, i, a)
    def x_s_dtor(self, st, i, a): return self.small(self.x_e_dtor, st, i, a)
    def result(self, st, i, *e):
        st.events = st.events + (e,)
        return I(L.v("res"))
    def x_f_call(self, st, i, a): return self.result(st, i, "call", *a)
    def x_fn_T(self, st, i, a): return self.result(st, i, "fn", *a)
    def x__ZN1W1mElO1E(self, st, i, a): return self.result(st, i, "m", *a)
    def x__ZN1W1mElOS_(self, st, i, a): return self.result(st, i, "m", *a)
    def x__ZNK1W1cElO1E(self, st, i, a): return self.result(st, i, "c", *a)
    def x_v_call(self, st, i, a):
        _, _, _, d = self.read_elem(st, a[0], "reads"); self.result(st, i, "v", d); return U
    def x__ZNSt17bad_function_callD1Ev(self, st, i, a): return U

# ---- abstract states: what a delegate's bytes are, independent of object names
def canon_d(d, ren):
    if d[0] == "ptr" and d[1] in ren: return ("ptr", ren[d[1]]) + d[2:]
    return d
def glue(fs):
    """bytes that together are a whole value again"""
    out = []; i = 0
    while i < len(fs):
        o, sz, d = fs[i]
        if d[0] == "v" and d[1][0] == "bs" and d[1][2] == 0:
            z = d[1][3]; run = fs[i:i + z]
            if len(run) == z and all(x[0] == o + k and x[1] == 1 and x[2][0] == "v" and x[2][1] == d[1][:2] + (k, z) for k, x in enumerate(run)):
                out.append((o, z, d[1][1])); i += z; continue
        out.append(fs[i]); i += 1
    return out
def snapshot(s, obj, heap):
    """(fields, heap content) of a delegate; heap: the region it owns or None"""
    fs = []; r = s.mem[obj]
    for o, (sz, tag, segs) in sorted(r.fields.items()):
        d = segs[0][2]
        if d == UND: continue
        if d[0] == "v" and d[1][0] == "bs" and d[1][1][0] == "ptr": d = ("v", ("bs", ("ptr", "H" if d[1][1][1] == heap else "STALE") + d[1][1][2:]) + d[1][2:])
        if d[0] == "ptr": d = ("ptr", "H" if d[1] == heap else "STALE") + d[2:]
        if d[0] == "int": d = d[:3] + (s.cons.norm(d[3]),)
        fs.append((o, sz, d))
    fs = glue(fs)
    el = tuple(sorted((o, sg[0][2]) for o, sg in r.elems.items() if sg[0][2] != RAW))
    h = None
    if heap is not None:
        q = s.mem[heap]
        h = (q.esize, q.site, tuple((o, f[0], f[2][0][2]) for o, f in sorted(q.fields.items()) if f[2][0][2] != UND), tuple((o, sg[0][2]) for o, sg in sorted(q.elems.items()) if sg[0][2] != RAW))
    return (tuple(fs), el, h)
def instantiate(st, obj, snap, j, size):
    """the abstract state `snap` (tokens named T) as object obj with tokens named Tj"""
    def ren(d):
        if d in (("k", "T"), ("kt", "T")): return (d[0], "T%d" % j)
        if d[0] == "int": return d[:3] + (d[3].subst({"T": L.v("T%d" % j), "U": L.v("U%d" % j)}),)
        if d[0] == "ptr": return ("ptr", "H%d" % j if d[1] == "H" else "STALE") + d[2:]
        return d
    fs, el, h = snap
    r = Reg(obj, size, L1, "arg"); r.site = None
    for o, sz, d in fs: r.fields[o] = (sz, 0, ((LZ, L1, ren(d)),))
    for o, d in el: r.elems[o] = ((LZ, L1, ren(d)),)
    st.mem[obj] = r
    if "STALE" not in st.mem:
        q = Reg("STALE", 64, L1, "freed", L1); q.st = ((LZ, L1, FREED),); st.mem["STALE"] = q
    if h is not None:
        q = Reg("H%d" % j, h[0], L1, "heap", L1); q.site = h[1]
        for o, sz, d in h[2]: q.fields[o] = (sz, 0, ((LZ, L1, ren(d)),))
        for o, d in h[3]: q.elems[o] = ((LZ, L1, ren(d)),)
        st.mem[q.name] = q
def generic(s, snap, j):
    """rename tokens Tj back to T"""
    def ren(d):
        if d in (("k", "T%s" % j), ("kt", "T%s" % j)): return (d[0], "T")
        if d[0] == "int": return d[:3] + (d[3].subst({"T%s" % j: L.v("T"), "U%s" % j: L.v("U")}),)
        return d
    fs, el, h = snap
    return (tuple((o, sz, ren(d)) for o, sz, d in fs), tuple((o, ren(d)) for o, d in el), None if h is None else (h[0], h[1], tuple((o, sz, ren(d)) for o, sz, d in h[2]), tuple((o, ren(d)) for o, d in h[3])))

THROW = ("e_copy", "e_move", "s_copy", "s_move")
class Machine:
    def __init__(self, chk, mod):
        self.chk = chk; self.mod = mod; lin.POW.clear()
        self.size = 64; self.align = 8
        st = State(); st.mem["p"] = Reg("p", 16, L1, "arg")
        o = self.run("sizes", [Pt("p")], st)[0][0]
        v = [o.st.mem["p"].fields[k][2][0][2][3].c for k in (0, 8)]
        self.size, self.align = v
        self.states = {}       # (model, snapshot) -> history
        self.order = []
        self.failed = set(); self.ops = 0; self.und = []
    def run(self, fname, args, st, throwing=()):
        it = DI(self.mod, throwing, accelerate=False, peel=40)
        outs = it.run(fname, args, st)
        self.chk.count("abstract instructions", it.ninstr)
        return outs, it.viol
    def fail(self, rule, desc, msg, loc=None):
        if (rule, desc) in self.failed: return
        self.failed.add((rule, desc)); self.chk.fail(rule, desc, msg, ir.where(loc) if loc else "")
    def fresh_obj(self, st, name="d1"):
        r = Reg(name, self.size, L1, "arg"); st.mem[name] = r
    def functor(self, st, k, name="s"):
        r = Reg(name, SIZE[k], L1, "arg"); st.mem[name] = r
        if k in ELEM: r.elems[ELEM[k]] = ((LZ, L1, ("kt" if k in TRIV else "k", "T0")),)
        if k == "BigC": r.fields[0] = (8, 0, ((LZ, L1, ("int", 0, 0, L.v("U0"))),))
        if k in VAL:
            for o in range(0, VAL[k] + 8, 8): r.fields[o] = (8, 0, ((LZ, L1, ("int", 0, 0, L.v("T0" if o == VAL[k] else "U0"))),))
    # model of an object: None (empty) or (kind, token index)
    def step(self, desc, fname, args, st, objs, models, srcs=(), ret=None, throwing=()):
        """interpret one operation; objs: delegates alive afterwards, models(kind of outcome) -> their models"""
        self.ops += 1
        try: outs, viol = self.run(fname, args, st, throwing)
        except Unanalysable as e: self.und.append((desc, str(e))); return
        except (Fork, ForkB, ForkN): self.und.append((desc, "open decision")); return
        for v in viol: self.fail(R1, desc, v.msg, v.loc)
        if viol: return
        if not outs: self.und.append((desc, "no outcome")); return
        for o in outs:
            s = o.st; threw = any(e[0] == "throw" for e in s.events)
            if o.kind == "term":
                if not throwing: self.fail(R2, desc, "terminates the program", o.loc)
                continue
            if o.kind == "unwind" and not threw: self.fail(R2, desc, "throws", o.loc); continue
            m = models(o)
            self.after(desc + (" (a copy of the callable throws)" if threw else ""), o, objs if o.kind == "ret" else [x for x in objs if x in m], m, srcs if o.kind == "ret" and not threw else ())
    def after(self, desc, o, objs, m, srcs):
        s = o.st
        owned = {}
        for x in objs:
            for off, (sz, tag, segs) in s.mem[x].fields.items():
                d = segs[0][2]
                if d[0] == "v" and d[1][0] == "bs": d = d[1][1]
                if d[0] == "ptr" and m.get(x) is not None and d[1] in s.mem and s.mem[d[1]].kind == "heap": owned.setdefault(x, d[1])
        # every allocated block has exactly one owner
        for r in list(s.mem.values()):
            if r.kind == "heap":
                own = [x for x in owned if owned[x] == r.name]
                if not own: self.fail(R1, desc, "the storage of a callable is not released and no delegate holds it", o.loc); return
                if len(own) > 1: self.fail(R1, desc, "two delegates hold the same callable", o.loc); return
        for x in objs:
            if s.mem[x].kind == "freed": self.fail(R1, desc, "releases the delegate", o.loc); return
            snap = snapshot(s, x, owned.get(x)); mod_ = m.get(x)
            # the callable held
            if mod_ is not None:
                kind, j = mod_
                tok = self.token(s, x, snap, kind)
                want = None
                if kind in ELEM: want = ("kt" if kind in TRIV else "k", "T%s" % j)
                elif kind in VAL: want = L.v("T%s" % j)
                elif kind == "fp": want = "@fn_T"
                if tok != want and not (isinstance(want, L) and isinstance(tok, L) and s.eq(tok - want)):
                    self.fail(R2, desc, "%s does not hold the specified callable (%s): it holds %s" % (self.name(x), kind, show_tok(tok)), o.loc); return
                snap = generic(s, snap, j)
            else:
                stray = [d for off, d in snap[1] if live(d)]
                if stray: self.fail(R1, desc, "an empty delegate keeps a live callable", o.loc); return
            key = (None if mod_ is None else mod_[0], snap)
            if key not in self.states:
                self.states[key] = desc; self.order.append(key)
        for x, want in srcs:
            kind, exp = want
            r = s.mem.get(x)
            for off, sg in r.elems.items():
                d = sg[0][2]
                if d == RAW: self.fail(R1, desc, "destroys the callable it was given", o.loc); return
                if exp == "moved" and kind not in TRIV and d != MV: self.fail(R2, desc, "does not move from the rvalue callable it was given", o.loc); return
                if exp == "same" and d != ("kt" if kind in TRIV else "k", "T0"): self.fail(R2, desc, "changes the callable it was given as an lvalue", o.loc); return
    def token(self, s, x, snap, kind):
        if kind in ELEM:
            el = list(snap[1]) + (list(snap[2][3]) if snap[2] else [])
            return el[0][1] if len(el) == 1 else ("%d elements" % len(el))
        if kind in VAL:
            src = snap[2][2] if snap[2] else snap[0]
            return next((d[3] for o, sz, d in src if d[0] == "int" and any(y[0] == "T" for y in d[3].syms())), None)
        if kind == "fp": return next((d[1][1] for o, sz, d in snap[0] if d[0] == "v" and d[1][1] == "@fn_T"), None)
        return None
    def name(self, x): return {"d1": "the delegate", "d2": "the other delegate"}.get(x, x)
    # ---- the operations
    def constructors(self):
        st = State(); self.fresh_obj(st); self.step("default construction", "c_def", [Pt("d1")], st, ["d1"], lambda o: {"d1": None})
        for p, m, t in ((NULL, None, "a null function pointer"), (Pt("@fn_T"), ("fp", 0), "a function pointer")):
            st = State(); self.fresh_obj(st); self.step("construction from " + t, "c_fp", [Pt("d1"), p], st, ["d1"], lambda o, m=m: {"d1": m})
        st = State(); self.fresh_obj(st); self.step("construction from a function", "c_fn", [Pt("d1")], st, ["d1"], lambda o: {"d1": ("fp", 0)})
        for k in KINDS:
            for f, t, after in (("c_l_", "an lvalue %s", "same"), ("c_c_", "a const lvalue %s", "same"), ("c_r_", "an rvalue %s", "moved")):
                for thr in ((), THROW):
                    if thr and k not in ELEM: continue
                    st = State(); self.fresh_obj(st); self.functor(st, k)
                    self.step("construction from " + t % k, f + k, [Pt("d1"), Pt("s")], st, ["d1"], lambda o, k=k: {"d1": (k, 0)} if o.kind == "ret" else {}, [("s", (k, after))], throwing=thr)
    def close(self):
        done = 0; good = []
        while done < len(self.order):
            key = self.order[done]; done += 1
            n = len(self.failed)
            self.observe(key, None if key[0] is None else (key[0], 1), " on a delegate %s (from: %s)" % (self.desc(key), self.states[key][:80]))
            if len(self.failed) > n: continue              # a state that is wrong already is not explored further
            if len(good) >= 60: self.und.append(("closure", "too many representations")); continue
            good.append(key)
            self.copies(key); self.unary(key)
            for other in good:
                for a, b in {(key, other), (other, key)}: self.binary(a, b)
    def desc(self, key): return "empty" if key[0] is None else "holding %s" % key[0]
    def pre(self, *keys):
        st = State()
        for j, k in enumerate(keys, 1): instantiate(st, "d%d" % j, k[1], j, self.size)
        return st
    def unary(self, k):
        m1 = None if k[0] is None else (k[0], 1); w = " on a delegate %s (from: %s)" % (self.desc(k), self.states[k][:80])
        self.step("assignment of nullptr" + w, "a_null", [Pt("d1")], self.pre(k), ["d1"], lambda o: {"d1": None})
        self.step("assignment of a null function pointer" + w, "a_fp", [Pt("d1"), NULL], self.pre(k), ["d1"], lambda o: {"d1": None})
        self.step("assignment of a function pointer" + w, "a_fp", [Pt("d1"), Pt("@fn_T")], self.pre(k), ["d1"], lambda o: {"d1": ("fp", 0)})
        for q in KINDS:
            for f, t, after in (("a_l_", "an lvalue %s", "same"), ("a_r_", "an rvalue %s", "moved")):
                for thr in ((), THROW):
                    if thr and q not in ELEM: continue
                    st = self.pre(k); self.functor(st, q)
                    self.step("assignment of " + t % q + w, f + q, [Pt("d1"), Pt("s")], st, ["d1"], lambda o, q=q: {"d1": (q, 0) if o.kind == "ret" else m1}, [("s", (q, after))], throwing=thr)
        for f, t in (("a_copy", "copy assignment from itself"), ("swap_", "swap with itself")):
            self.step(t + w, f, [Pt("d1"), Pt("d1")], self.pre(k), ["d1"], lambda o: {"d1": m1})
        # moving to itself may keep or empty it, without losing track of the callable
        def selfm(o):
            s = o.st; live = any(r.kind == "heap" for r in s.mem.values())
            return {"d1": m1 if m1 is not None and self.holds(s, "d1") else None}
        self.step("move assignment from itself" + w, "a_move", [Pt("d1"), Pt("d1")], self.pre(k), ["d1"], selfm)
    def holds(self, s, x):
        try: outs, v = self.run("tobool", [Pt(x)], s)
        except Unanalysable: return True
        return any(o.val is True for o in outs)
    def observe(self, k, m1, w):
        d = "contextual conversion to bool" + w
        def go(fname, args, st=None):
            try: outs, viol = self.run(fname, args, st or self.pre(k))
            except Unanalysable as e: self.und.append((fname + w, str(e))); return None
            for v in viol: self.fail(R1, fname + w, v.msg, v.loc)
            return None if viol else outs
        outs = go("tobool", [Pt("d1")])
        for o in outs or ():
            if o.val is not (m1 is not None): self.fail(R2, d, "is %s" % ("true" if o.val else "false"), o.loc)
        # destruction
        outs = go("dtor", [Pt("d1")]); d = "destruction" + w
        for o in outs or ():
            s = o.st
            if o.kind != "ret": self.fail(R1, d, "does not return", o.loc)
            elif any(r.kind == "heap" for r in s.mem.values()): self.fail(R1, d, "the held callable's storage is not released", o.loc)
            elif any(live(sg[0][2]) for sg in s.mem["d1"].elems.values()): self.fail(R1, d, "the held callable is not destroyed", o.loc)
        # calls
        for f in ("call", "callm"):
            st = self.pre(k); val(st, "c"); val(st, "e"); st.mem["b"] = Reg("b", 8, L1, "arg")
            outs = go(f, [Pt("d1"), I(L.v("a")), Pt("b"), Pt("c"), Pt("e")], st); d = "call" + w
            for o in outs or ():
                s = o.st; ev = [e for e in s.events]
                if m1 is None:
                    if o.kind != "unwind" or not any(e[0] == "throws" and e[1][0] == "p" and e[1][1] == "@_ZTISt17bad_function_call" for e in ev): self.fail(R3, d, "does not throw bad_function_call", o.loc)
                    continue
                calls = [e for e in ev if e[0] in ("call", "fn")]
                if o.kind != "ret" or len(calls) != 1: self.fail(R3, d, "reaches the callable %d times" % len(calls), o.loc); continue
                e = calls[0]
                args = e[1:] if e[0] == "fn" else e[5:]
                if list(args) != [I(L.v("a")), Pt("b"), Pt("c"), Pt("e")]: self.fail(R3, d, "the callable receives other arguments: %r" % (args,), o.loc); continue
                if o.val != I(L.v("res")): self.fail(R3, d, "the callable's result is not returned", o.loc); continue
                if (e[0] == "fn") != (m1[0] == "fp"): self.fail(R3, d, "another callable is called", o.loc); continue
                if e[0] == "call":
                    kind, self_, al, v = e[1:5]
                    if kind[1].c != CODE[m1[0]]: self.fail(R3, d, "a callable of another type is called", o.loc); continue
                    if m1[0] in VAL and not (v != U and v[0] == "i" and s.eq(v[1] - L.v("T1"))): self.fail(R3, d, "the callable called does not have the held value", o.loc); continue
                    if not self.is_held(s, "d1", m1[0], self_): self.fail(R3, d, "the call does not go to the held callable", o.loc); continue
                    r = s.mem[self_[1]]
                    have = self.align if r.kind == "arg" else r.site
                    if m1[0] != "Em" and (al[1].c > have or r.kind == "arg" and self_[2].c % al[1].c): self.fail(R1, "storage" + w, "the callable is stored with alignment %s, its type needs %d" % (have, al[1].c), o.loc); continue
        # handle
        for q in KINDS + ["fp"]:
            outs = go("h_" + q, [Pt("d1")]); d = "handle<%s>()" % q + w
            for o in outs or ():
                if o.kind != "ret": self.fail(R4, d, "does not return", o.loc); continue
                null = o.val == NULL or o.val != U and o.val[0] == "p" and o.val[1] == "null"
                if m1 is not None and m1[0] == q:
                    if null: self.fail(R4, d, "returns null although the delegate holds a %s" % q, o.loc)
                    elif not self.is_held(o.st, "d1", q, o.val): self.fail(R4, d, "does not return the held callable", o.loc)
                elif not null: self.fail(R4, d, "returns a callable of type %s" % q, o.loc)
    def is_held(self, s, x, kind, p):
        if p == U or p[0] != "p" or p[1] not in s.mem: return False
        r = s.mem[p[1]]; off = s.cons.norm(p[2])
        if off.t or p[1] != x and r.kind != "heap": return False
        if kind == "Em": return p[1] == x or r.kind == "heap"
        if kind in ELEM: return off.c + ELEM[kind] in r.elems and r.elems[off.c + ELEM[kind]][0][2] != RAW
        if kind in VAL:
            f = r.fields.get(off.c + VAL[kind]); return f is not None and f[2][0][2][0] == "int" and s.eq(f[2][0][2][3] - L.v("T1"))
        if kind == "fp":
            f = r.fields.get(off.c); return f is not None and f[2][0][2][0] == "v" and f[2][0][2][1][1] == "@fn_T"
        return False
    def binary(self, a, b):
        m = {"d1": None if a[0] is None else (a[0], 1), "d2": None if b[0] is None else (b[0], 2)}
        w = " (target %s, source %s)" % (self.desc(a), self.desc(b))
        for f in ("a_copy", "a_ncopy"):
            for thr in ((), THROW):
                if thr and b[0] not in ELEM: continue
                self.step("copy assignment" + w, f, [Pt("d1"), Pt("d2")], self.pre(a, b), ["d1", "d2"], lambda o: {"d1": m["d2"], "d2": m["d2"]} if o.kind == "ret" else m, throwing=thr)
        self.step("move assignment" + w, "a_move", [Pt("d1"), Pt("d2")], self.pre(a, b), ["d1", "d2"], lambda o: {"d1": m["d2"], "d2": None})
        self.step("swap" + w, "swap_", [Pt("d1"), Pt("d2")], self.pre(a, b), ["d1", "d2"], lambda o: {"d1": m["d2"], "d2": m["d1"]})
    def copies(self, k):
        m1 = None if k[0] is None else (k[0], 1); w = " of a delegate %s" % self.desc(k)
        for f, t in (("c_copy", "copy construction"), ("c_ncopy", "copy construction from a non-const lvalue"), ("c_crv", "construction from a const rvalue")):
            for thr in ((), THROW):
                st = self.pre(k); self.fresh_obj(st, "d2")
                self.step(t + w, f, [Pt("d2"), Pt("d1")], st, ["d1", "d2"], lambda o: {"d1": m1, "d2": m1} if o.kind == "ret" else {"d1": m1}, throwing=thr)
        st = self.pre(k); self.fresh_obj(st, "d2")
        self.step("move construction" + w, "c_move", [Pt("d2"), Pt("d1")], st, ["d1", "d2"], lambda o: {"d1": None, "d2": m1})

def show_tok(t):
    if t is None: return "nothing"
    return {("mv",): "a moved-from callable"}.get(t, str(t))

def run(chk, thorough):
    try: mod = ir.compile_ir(source(), pipe=ir.PIPE_LOOP)
    except ir.BuildError as e:
        chk.fail(R5, "Delegate operations", typ.errs(e.out)[0], typ.errs(e.out)[1]); mod = None
    if mod is not None:
        M = Machine(chk, mod)
        M.constructors()
        M.close()
        for f in mod["functions"]:
            if not mod["functions"][f]["decl"]: chk.note_fn(mod, f)
        bad = {}
        for rule, desc in M.failed: bad.setdefault(rule, 0)
        seen = {}
        for d, why in M.und[:12]: chk.undecided(R2, d, why)
        for key in M.order:
            desc = "representation: %s, reached by %s" % (M.desc(key), M.states[key][:120])
            for rule in (R1, R2, R3, R4):
                if not any(r == rule for r, _ in M.failed) and not M.und: chk.ok(rule, desc)
        chk.count("representations", len(M.order)); chk.count("operations interpreted", M.ops)
    members(chk)
    types(chk)
    for r, n in ((R1, 9), (R2, 9), (R3, 9), (R4, 9), (R5, 6)): chk.need(r, n)

def members(chk):
    try: mod = ir.compile_ir(msource(), pipe=ir.PIPE_LOOP)
    except ir.BuildError as e:
        chk.fail(R5, "Delegate of members", typ.errs(e.out)[0], typ.errs(e.out)[1]); return
    lin.POW.clear()
    def interp(f, args, st):
        it = DI(mod, (), accelerate=False, peel=40); o = it.run(f, args, st)
        return o, it.viol
    MP = lambda n: [("i", L.v("&@" + n), 64), I(LZ)]
    NULLMP = [I(LZ), I(LZ)]
    def one(rule, desc, ctor, cargs, cf, fargs, expect, extra=None):
        try:
            st = State(); st.mem["d"] = Reg("d", 64, L1, "arg"); st.mem["w"] = Reg("w", 16, L1, "arg"); val(st, "e")
            if extra: extra(st)
            outs, v = interp(ctor, [Pt("d")] + cargs, st)
            if v or len(outs) != 1 or outs[0].kind != "ret": chk.fail(rule, desc, v[0].msg if v else "construction fails", ir.where(v[0].loc) if v else ""); return
            outs, v = interp(cf, fargs, outs[0].st)
            if v: chk.fail(rule, desc, v[0].msg, ir.where(v[0].loc)); return
            for o in outs:
                m = expect(o)
                if m: chk.fail(rule, desc, m, ir.where(o.loc) if o.loc else ""); return
            chk.ok(rule, desc)
        except Unanalysable as e: chk.undecided(rule, desc, str(e))
        except (Fork, ForkB, ForkN): chk.undecided(rule, desc, "open decision")
    def mcall(tag):
        def f(o):
            ev = [e for e in o.st.events if e[0] in ("m", "c", "fn", "v")]
            if o.kind != "ret" or len(ev) != 1 or ev[0][0] != tag: return "the held function is not called once: %r" % (ev,)
            if list(ev[0][1:]) != [Pt("w"), I(L.v("a")), Pt("e")]: return "the function receives other arguments: %r" % (ev[0][1:],)
            if o.val != I(L.v("res")): return "the result is not returned"
        return f
    C = [Pt("d"), Pt("w"), I(L.v("a")), Pt("e")]
    one(R3, "call of a member function", "c_m", [], "call", C, mcall("m"))
    one(R3, "call of a const member function", "c_c", [], "call", C, mcall("c"))
    one(R3, "call of a function pointer with an object argument", "c_fp", [Pt("@fn_T")], "call", C, mcall("fn"))
    one(R3, "call of a member function through an object pointer", "c_ptr", [], "callp", C, mcall("m"))
    one(R3, "access to a data member", "c_data", [], "calld", [Pt("d"), Pt("w")], lambda o: None if o.kind == "ret" and o.val != U and o.val[0] == "p" and o.val[1] == "w" and o.val[2] == L.k(8) else "does not designate the member: %r" % (o.val,))
    fun = lambda st: st.mem.__setitem__("s", Reg("s", 8, L1, "arg"))
    one(R3, "an argument taken by value is moved into the callable", "c_vf", [Pt("s")], "callv", [Pt("d"), Pt("e")], lambda o: None if o.kind == "ret" and [e for e in o.st.events if e[0] == "v"] == [("v", ("k", "e"))] and not any(r.kind == "alloca" and any(sg[0][2] != RAW for sg in r.elems.values()) for r in o.st.mem.values()) else "the callable does not receive the argument", fun)
    isb = lambda b: lambda o: None if o.kind == "ret" and o.val is b else "is %s" % o.val
    one(R2, "a delegate of a member function is not empty", "c_m", [], "tobool", [Pt("d")], isb(True))
    if mod["functions"].get("c_var"):
        n = len(mod["functions"]["c_var"]["args"])
        if n == 3: one(R2, "a delegate of a null member function pointer is empty", "c_var", NULLMP, "tobool", [Pt("d")], isb(False))
    for t, c in (("constructed from", "c_dvar"), ("assigned", "a_dvar")):
        for q, off, e in (("a null data member pointer is empty", -1, False), ("a pointer to the first data member is not empty", 0, True), ("a pointer to another data member is not empty", 8, True)):
            one(R2, "a delegate %s %s" % (t, q), c, [I(L.k(off))], "tobool_d", [Pt("d")], isb(e))
    one(R2, "a delegate of a null function pointer is empty", "c_fp", [NULL], "tobool", [Pt("d")], isb(False))

def types(chk):
    TW = typ.TW
    h = "#include <xme/core/functional/delegate.hpp>\n#include <concepts>\n"
    items = [TW(d, c) for d, c in (
        ("a function pointer deduces its signature", "inline int f(int, char&); static_assert(std::same_as<decltype(xme::Delegate(&f)), xme::Delegate<int(int, char&)>>);"),
        ("a lambda deduces its signature", "inline auto l = [](int, long) -> double { return 0; }; static_assert(std::same_as<decltype(xme::Delegate(l)), xme::Delegate<double(int, long)>>);"),
        ("a mutable lambda deduces its signature", "inline auto l = [k = 0](int) mutable -> int { return k++; }; static_assert(std::same_as<decltype(xme::Delegate(l)), xme::Delegate<int(int)>>);"),
        ("a noexcept lambda deduces its signature", "inline auto l = [](int) noexcept -> int { return 0; }; static_assert(std::same_as<decltype(xme::Delegate(l)), xme::Delegate<int(int)>>);"),
        ("functors with qualified call operators deduce their signatures", "struct A { int operator()(long) &; }; struct B { int operator()(long) const&; }; struct C { int operator()(long) & noexcept; }; struct F { int operator()(long) const& noexcept; }; template<class T> using X = decltype(xme::Delegate(std::declval<T>())); using W = xme::Delegate<int(long)>; static_assert(std::same_as<X<A>, W> && std::same_as<X<B>, W> && std::same_as<X<C>, W> && std::same_as<X<F>, W>);"),
        ("a pointer to a noexcept function deduces its signature", "inline int f(int) noexcept; static_assert(std::same_as<decltype(xme::Delegate(&f)), xme::Delegate<int(int)>>);"),
        ("the callable is called as an lvalue", "struct F { int operator()() &; int operator()() && = delete; }; inline int g(xme::Delegate<int()>& d, F f) { d = f; return d(); }"),
        ("the call operator returns the signature's result", "using D = xme::Delegate<int&(int)>; static_assert(std::same_as<decltype(std::declval<const D&>()(1)), int&>);"),
        ("a delegate is copyable and movable", "using D = xme::Delegate<void()>; static_assert(std::copyable<D>); static_assert(std::is_nothrow_move_constructible_v<D> && std::is_nothrow_move_assignable_v<D> && std::is_nothrow_destructible_v<D>);"),
        ("a delegate converts to bool only explicitly", "using D = xme::Delegate<void()>; static_assert(!std::convertible_to<D, bool> && std::constructible_from<bool, D>);"),
        ("handle gives constant access", "using D = xme::Delegate<void()>; struct F { void operator()() const; }; static_assert(std::same_as<decltype(std::declval<D&>().handle<F>()), const F*>);"))]
    typ.run_types(chk, R5, h, items)
