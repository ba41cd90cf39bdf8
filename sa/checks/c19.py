"""C19: ScopedDelegate. Construction never calls; destruction calls the callable held exactly once, then destroys it; scopes
left normally, by return and by an exception; type witnesses for the operations that would duplicate or lose the call."""
from .arraylib import *
from .. import ir
from ..typ import TW, run_types, errs
from .c18 import DI
R1 = "construction takes the callable and does not call it"
R2 = "destruction calls the callable exactly once and then destroys it"
R3 = "every exit of the scope calls it, after the body"
R4 = "the call cannot be duplicated, reassigned or lost"
HDR = PROBE + r'''
#include <xme/core/functional/scoped_delegate.hpp>
extern "C" { void f_call(int kind, const void* self, long value); void fn_T(); int fn_I(); bool body(int); void s_copy(void*, const void*); void s_move(void*, void*); void s_dtor(void*) noexcept; void cap(int*); }
struct Big { E e; void operator()() { f_call(1, this, 0); } };
struct BigC { long pad; E e; int operator()() const { f_call(2, this, 0); return 5; } };
struct Small { long v; void operator()() { f_call(3, this, v); } };
struct Em { void operator()() const { f_call(4, this, 0); } };
struct Both { long v; void operator()() { f_call(5, this, v); } void operator()() const { f_call(6, this, v); } };
struct Ref { int* p; void operator()() const { cap(p); } };
struct Res { E e; Big operator()() const { f_call(7, this, 0); return Big{}; } };
using FP = void (*)(); using FI = int (*)();
'''
KINDS = {"Big": (1, "e", 0), "BigC": (2, "e", 8), "Small": (3, "v", 0), "Em": (4, None, 0), "Both": (5, "v", 0)}
SIZE = {"Big": 24, "BigC": 32, "Small": 8, "Em": 1, "Both": 8}
def source():
    t = HDR; f = lambda sig, body: 'extern "C" %s { %s }\n' % (sig, body)
    for k in list(KINDS) + ["FP"]:
        S = "xme::ScopedDelegate<%s>" % k
        t += f("void l_%s(%s* d, %s* s)" % (k, S, k), "new(d) %s(*s);" % S) + f("void r_%s(%s* d, %s* s)" % (k, S, k), "new(d) %s(std::move(*s));" % S) + f("void d_%s(%s* d)" % (k, S), "d->~ScopedDelegate();")
        t += f("void normal_%s(%s* s)" % (k, k), "xme::ScopedDelegate g(*s); body(1);") + f("bool ret_%s(%s* s)" % (k, k), "xme::ScopedDelegate g(*s); if(body(1)) return body(2); body(3); return true;")
        t += f("void loop_%s(%s* s)" % (k, k), "for(int i = 0; i < 2; ++i) { xme::ScopedDelegate g(std::move(*s)); if(body(1)) break; }")
    t += f("void sizes(long* p)", " ".join("p[%d] = sizeof(xme::ScopedDelegate<%s>);" % (i, k) for i, k in enumerate(list(KINDS) + ["FP"])))
    t += f("void lam(int* p)", "xme::ScopedDelegate g([p] { cap(p); }); body(1);") + f("void lamr(int* p)", "int* q = p; { xme::ScopedDelegate g([&q] { cap(q); }); q = q + 1; body(1); }")
    t += f("void two(Small* a, Small* b)", "xme::ScopedDelegate g(*a); xme::ScopedDelegate h(*b); body(1);")
    return t
class SI(DI):
    def x_f_call(self, st, i, a):
        k = self.int(a[0]).c; name = next((n for n, v in KINDS.items() if v[0] == k), None); tok = None
        if name and KINDS[name][1] == "e":
            p = a[1]
            tok = self.read_elem(st, ptadd(p, L.k(KINDS[name][2])), "calls")[3]
            if tok == MV: raise Bad("call", "calls a moved-from callable")
        elif name and KINDS[name][1] == "v": tok = a[2][1] if a[2] != U and a[2][0] == "i" else None
        st.events = st.events + (("call", k, tok),); return U
    def x_fn_T(self, st, i, a): st.events = st.events + (("call", "fn", None),); return U
    def x_body(self, st, i, a):
        k = self.int(a[0]).c; st.events = st.events + (("body", k),)
        return self.truth(st, ("ob", "body%d.%d" % (k, sum(e[0] == "body" for e in st.events))))
    def x__ZSt19uncaught_exceptionsv(self, st, i, a):
        st.cons.add_ge(L.v("pending"))         # destroyed while other exceptions are in flight, or not
        return ("i", L.v("pending") + (1 if any(e[0] == "throw" for e in st.events) else 0), 32)
    def x__ZSt18uncaught_exceptionv(self, st, i, a): return ("c", "ne", self.x__ZSt19uncaught_exceptionsv(st, i, a), I(LZ, 32))
    def pre_body(self, st, a): st.events = st.events + (("body", self.int(a[0]).c),)
    def x_cap(self, st, i, a): st.events = st.events + (("call", "cap", a[0]),); return U
def run(chk, thorough):
    try: mod = ir.compile_ir(source(), pipe=ir.PIPE_LOOP)
    except ir.BuildError as e:
        chk.fail(R1, "ScopedDelegate operations", *errs(e.out)); mod = None
    if mod is not None:
        for f in mod["functions"]: chk.note_fn(mod, f)
        analyse(chk, mod)
    types(chk)
    for r, n in ((R1, 12), (R2, 12), (R3, 20), (R4, 12)): chk.need(r, n)
def analyse(chk, mod):
    def run1(rule, desc, f, args, st, post, throwing=()):
        """post(out) -> message or None"""
        chk.count("operations analysed")
        it = SI(mod, throwing, accelerate=False, peel=40)
        try:
            outs = it.run(f, args, st); chk.count("abstract instructions", it.ninstr)
            if it.viol: chk.fail(rule, desc, it.viol[0].msg, ir.where(it.viol[0].loc)); return None
            if not outs: chk.undecided(rule, desc, "no path returns"); return None
            for o in outs:
                m = post(o)
                if m: chk.fail(rule, desc, m, ir.where(o.loc) if o.loc else ""); return None
        except (Fork, ForkB, ForkN): chk.undecided(rule, desc, "open decision"); return None
        except Unanalysable as e: chk.undecided(rule, desc, str(e)); return None
        chk.ok(rule, desc, "%d final states" % len(outs)); return outs
    st = State(); st.mem["p"] = Reg("p", 80, L1, "arg")
    it = SI(mod, ()); o = it.run("sizes", [Pt("p")], st)[0]
    size = {k: o.st.mem["p"].fields[8 * i][2][0][2][3].c for i, k in enumerate(list(KINDS) + ["FP"])}
    def src(st, k, name="s", tok="T"):
        if k == "FP":
            r = Reg(name, 8, L1, "arg"); r.fields[0] = (8, 0, ((LZ, L1, ("v", ("p", "@fn_T", LZ))),)); st.mem[name] = r; return
        r = Reg(name, SIZE[k], L1, "arg"); st.mem[name] = r; _, t, o = KINDS[k]
        if t == "e": r.elems[o] = ((LZ, L1, ("k", tok)),)
        if t == "v": r.fields[o] = (8, 0, ((LZ, L1, ("int", 0, 0, L.v(tok))),))
        if k == "BigC": r.fields[0] = (8, 0, ((LZ, L1, ("int", 0, 0, L.v("pad"))),))
    def called(e, k, tok="T"):
        if e[0] != "call": return False
        if k == "FP": return e[1] == "fn"
        kk, t, _ = KINDS[k]
        return e[1] == kk and (t is None or t == "e" and e[2] == ("k", tok) or t == "v" and isinstance(e[2], L) and e[2] == L.v(tok))
    def left(s, own=()):
        for r in s.mem.values():
            for o, sg in r.elems.items():
                if r.name not in own and sg[0][2] != RAW: return "a callable is not destroyed"
    for k in list(KINDS) + ["FP"]:
        t = None if k == "FP" else KINDS[k][1]
        for f, d in (("l_", "an lvalue"), ("r_", "an rvalue")):
            st = State(); src(st, k); st.mem["d"] = Reg("d", size[k], L1, "arg")
            def post(o):
                if o.kind != "ret": return "throws"
                if o.st.events: return "calls the callable during construction"
                if t == "e":
                    want = ("k", "T") if f == "l_" else MV
                    got = o.st.mem["s"].elems[KINDS[k][2]][0][2]
                    if got == RAW: return "destroys the callable it was given"
                    if f == "l_" and got != want: return "changes the callable it was given as an lvalue"
                return left(o.st, ("s", "d"))
            outs = run1(R1, "construction of ScopedDelegate<%s> from %s" % (k, d), f + k, [Pt("d"), Pt("s")], st, post)
            if not outs: continue
            def post(o):
                if o.kind != "ret": return "throws"
                ev = [e for e in o.st.events if e[0] == "call"]
                if len(ev) != 1: return "the callable is called %d times" % len(ev)
                if not called(ev[0], k): return "another callable than the one given is called: %r" % (ev[0],)
                return left(o.st, ("s",))
            st2 = outs[0].st
            run1(R2, "destruction of ScopedDelegate<%s> made from %s" % (k, d), "d_" + k, [Pt("d")], st2, post)
        for f, d in (("normal_", "left at its end"), ("ret_", "left by a return or at its end"), ("loop_", "left by break, continue or at its end")):
            if f == "loop_" and t == "e": continue
            for thr in (False, True):
                st = State(); src(st, k)
                def post(o):
                    if o.kind == "unwind" and not any(e[0] == "throw" for e in o.st.events): return "throws"
                    ev = [e for e in o.st.events if e[0] in ("call", "body")]
                    # body events and calls: one call at the end of each pass through the scope
                    calls = [j for j, e in enumerate(ev) if e[0] == "call"]; want = 0
                    passes = sum(e == ("body", 1) for e in ev)
                    if len(calls) != passes: return "the callable is called %d times in %d scopes (%s)" % (len(calls), passes, " ".join(str(e[0]) for e in ev))
                    if any(not called(ev[j], k) for j in calls): return "another callable than the one given is called"
                    start = [j for j, e in enumerate(ev) if e == ("body", 1)] + [len(ev)]
                    for a, b in zip(start, start[1:]):
                        c = [j for j in calls if a < j < b]
                        if len(c) != 1 or any(e[0] == "body" for e in ev[c[0]:b]): return "the callable is called before the scope is left (%s)" % " ".join(str(e[0]) for e in ev)
                    return left(o.st, ("s",))
                run1(R3, "a scope with a ScopedDelegate<%s> %s%s" % (k, d, ", or by an exception" if thr else ""), f + k, [Pt("s")], st, post, ("body",) if thr else ())
    for thr in (False, True):
        for f, d, off in (("lam", "a lambda capturing by value", 0), ("lamr", "a lambda capturing by reference", 4)):
            st = State(); st.mem["i"] = Reg("i", 8, L1, "arg")
            def post(o):
                ev = [e for e in o.st.events if e[0] in ("call", "body")]
                if [e[0] for e in ev] != ["body", "call"]: return "not called once after the body: %s" % [e[0] for e in ev]
                p = ev[1][2]
                if p == U or p[1] != "i" or not o.st.cons.eq0(p[2] - off): return "called with other captures"
            run1(R3, "a scope with %s%s" % (d, ", left by an exception" if thr else ""), f, [Pt("i")], st, post, ("body",) if thr else ())
        st = State(); src(st, "Small", "a", "A"); src(st, "Small", "b", "B")
        def post(o):
            ev = [e for e in o.st.events if e[0] in ("call", "body")]
            if [e[0] for e in ev] != ["body", "call", "call"] or not called(ev[1], "Small", "B") or not called(ev[2], "Small", "A"): return "the delegates are not run once each in reverse order"
        run1(R3, "two delegates in one scope%s" % (", left by an exception" if thr else ""), "two", [Pt("a"), Pt("b")], st, post, ("body",) if thr else ())
def types(chk):
    H = "#include <xme/core/functional/scoped_delegate.hpp>\n#include <type_traits>\nstruct F { void operator()(); }; struct G { int v; int operator()() const; }; struct NC { NC(NC&&); void operator()(); }; struct Arg { void operator()(int); };\n"
    T = []
    for n in ("F", "G", "NC", "void (*)()"):
        S = "xme::ScopedDelegate<%s>" % n
        T.append(TW("%s cannot be copied or moved" % S, "using S = %s; static_assert(!std::is_copy_constructible_v<S> && !std::is_move_constructible_v<S> && !std::is_constructible_v<S, S&> && !std::is_constructible_v<S, const S&&>);" % S))
        T.append(TW("%s cannot be assigned" % S, "using S = %s; static_assert(!std::is_copy_assignable_v<S> && !std::is_move_assignable_v<S> && !std::is_assignable_v<S&, S&> && !std::is_assignable_v<S&, const S&&>%s);" % (S, "")))
        T.append(TW("%s does not exist without a callable" % S, "using S = %s; static_assert(!std::is_default_constructible_v<S>);" % S))
        T.append(TW("construction of %s from an rvalue does not throw" % S, "using S = %s; static_assert(std::is_nothrow_constructible_v<S, std::remove_reference_t<%s>>);" % (S, "F" if n == "F" else n)))
    T.append(TW("deduces the callable from an lvalue and an rvalue", "void f(F& a) { xme::ScopedDelegate x(a); xme::ScopedDelegate y(static_cast<F&&>(a)); static_assert(std::is_same_v<decltype(x), xme::ScopedDelegate<F>> && std::is_same_v<decltype(y), xme::ScopedDelegate<F>>); }"))
    T.append(TW("a callable that can only be moved is accepted as an rvalue", "void f(NC& a) { xme::ScopedDelegate x(static_cast<NC&&>(a)); }"))
    T.append(TW("a callable that needs arguments is rejected", "using S = xme::ScopedDelegate<@@>;", "Arg", "F"))
    run_types(chk, R4, H, T)
