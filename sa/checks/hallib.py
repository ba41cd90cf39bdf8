"""SharedLibrary and the environment functions: interpreted over every ownership state, with the operating system's
functions as events and std::string as an abstract data type (sa/strs.py)."""
from .arraylib import *
from .. import lin, ir
from ..strs import *
SRC = r'''
#include <xme/hal/shared_library.hpp>
#include <xme/hal/platform.hpp>
#include <new>
using SL = xme::hal::SharedLibrary;
using namespace xme::hal;
typedef int F1(int);
extern "C" {
void c_def(SL* d) { new(d) SL; }
void c_open(SL* d, const char* p, size_t n) { new(d) SL(std::string_view(p, n)); }
void c_move(SL* d, SL* o) { new(d) SL(std::move(*o)); }
void a_move(SL* d, SL* o) { *d = std::move(*o); }
void open_(SL* d, const char* p, size_t n) { d->open(std::string_view(p, n)); }
void close_(SL* d) { d->close(); }
void dtor(SL* d) { d->~SL(); }
bool is_open(const SL* d) { return d->is_open(); }
void* sym_v(const SL* d, const char* p, size_t n) { return d->proc_address<void*>(std::string_view(p, n)); }
F1* sym_f(const SL* d, const char* p, size_t n) { return d->proc_address<F1*>(std::string_view(p, n)); }
const double* sym_d(const SL* d, const char* p, size_t n) { return d->proc_address<const double*>(std::string_view(p, n)); }
char* get_env(const char* p, size_t n) { return get_environment_variable(std::string_view(p, n)); }
void set_env(const char* p, size_t n, const char* q, size_t m) { set_environment_variable(std::string_view(p, n), std::string_view(q, m)); }
void sizes(long* p) { p[0] = sizeof(SL); p[1] = alignof(SL); }
}
'''
class OsI(StrI):
    def say(self, st, *e): st.events = st.events + (e,)
    def os(self, fn, i, st, n, a):
        h = getattr(self, "os_" + n, None)
        if h is None: raise Unanalysable("calls " + n)
        return self.finish_call(i, st, h(st, i, *a))
    def os_secure_getenv(self, st, i, p):
        self.say(st, "getenv", self.cstring(st, p))
        if "os" not in st.mem: st.mem["os"] = Reg("os", 1, L1, "os")
        return Pt("os")
    def os_getenv(self, st, i, p): return self.os_secure_getenv(st, i, p)
    def os_setenv(self, st, i, p, q, o):
        self.say(st, "setenv", self.cstring(st, p), self.cstring(st, q), not st.eq(self.int(o))); return I(L.v(st.fresh("rc")), 32)
    def os_unsetenv(self, st, i, p): self.say(st, "unsetenv", self.cstring(st, p)); return I(L.v(st.fresh("rc")), 32)
    def os_dlopen(self, st, i, p, fl):
        c = self.cstring(st, p); k = "dlopen%d" % sum(e[0] == "dlopen" for e in st.events)
        if not self.truth(st, ("ob", k + " succeeds")): self.say(st, "dlopen", c, None); return NULL
        name = st.fresh("lib"); st.mem[name] = Reg(name, 1, L1, "lib"); self.say(st, "dlopen", c, name)
        return Pt(name)
    def handle(self, st, p, what):
        if p == U: raise Bad("own", what + " an uninitialised handle")
        if p[1] == "null": return None
        r = st.mem.get(p[1])
        if r is None or not st.eq(p[2]): raise Unanalysable("handle")
        if r.kind == "gone": raise Bad("own", what + " a handle that was closed or belongs to another object")
        if r.kind != "lib": raise Bad("own", what + " something that is not a handle")
        return r
    def os_dlclose(self, st, i, p):
        r = self.handle(st, p, "closes")
        if r is None: raise Bad("own", "closes a null handle")
        r = st.wreg(r.name); r.kind = "gone"; self.say(st, "dlclose", r.name)
        return I(L.v(st.fresh("rc")), 32)
    def os_dlsym(self, st, i, p, q):
        r = self.handle(st, p, "looks a symbol up in")
        self.say(st, "dlsym", r.name if r else None, self.cstring(st, q))
        if not self.truth(st, ("ob", "dlsym finds it")): return NULL
        st.mem["sym"] = Reg("sym", 1, L1, "sym"); return Pt("sym")
    def os_dlerror(self, st, i): return NULL

class Hal:
    """cats: {category: rule}: own (handles), str (strings), eff (effect)"""
    def __init__(self, chk, cats):
        self.chk = chk; self.cats = cats; lin.POW.clear(); self.failed = set(); self.n = 0
        self.mod = ir.compile_ir(SRC, pipe=ir.PIPE_LOOP, drop=DROP)
        for f in self.mod["functions"]: chk.note_fn(self.mod, f)
        st = State(); st.mem["p"] = Reg("p", 16, L1, "arg")
        o = self.run("sizes", [Pt("p")], st)[0][0]
        self.size = o.st.mem["p"].fields[0][2][0][2][3].c
        self.states = {}; self.order = []
    def run(self, fname, args, st):
        it = OsI(self.mod, (), accelerate=False, peel=40)
        outs = it.run(fname, args, st); self.chk.count("abstract instructions", it.ninstr); self.chk.count("final states", len(outs))
        return outs, it.viol
    def rule(self, cat): return self.cats.get({"mem": "own", "life": "own"}.get(cat, cat))
    def fail(self, cat, desc, msg, loc=None):
        r = self.rule(cat)
        if r is None or (r, desc) in self.failed: return
        self.failed.add((r, desc)); self.chk.fail(r, desc, msg, ir.where(loc) if loc else "")
    def view(self, st, name, n=None):
        n = n if n is not None else L.v("n_" + name); st.cons.add_ge(n)
        r = Reg(name, 1, n, "view"); r.ro = True; st.mem[name] = r
        return [Pt(name), I(n)]
    def whole(self, s, c, name):
        """does the content consist of exactly the characters of the view?"""
        n = s.mem[name].len
        if not c: return s.cons.eq0(n)
        return len(c) == 1 and len(c[0]) == 3 and c[0][0] == name and s.cons.eq0(c[0][1]) and s.cons.eq0(c[0][2] - n)
    def op(self, desc, cats, fname, args, st, post):
        """post(out, fail(cat, msg)); cats: the categories this operation has obligations in"""
        self.n += 1
        try: outs, viol = self.run(fname, args, st)
        except Unanalysable as e: outs = None; why = str(e)
        except (Fork, ForkB, ForkN): outs = None; why = "open decision"
        except RecursionError: outs = None; why = "nesting too deep"
        if outs is not None:
            for v in viol: self.fail(v.kind, desc, v.msg, v.loc)
            if not viol:
                if not outs: outs = None; why = "no path returns"
                else:
                    for o in outs:
                        if o.kind != "term": post(o, lambda cat, msg, o=o: self.fail(cat, desc, msg, o.loc))
        for r in dict.fromkeys(self.rule(c) for c in cats):
            if r is None or (r, desc) in self.failed: continue
            # without the states an operation leads to, the operations on those states are not analysed either
            if outs is None: self.chk.undecided(r, desc, why, 20 if fname in ("c_def", "c_open", "open_") else 1)
            else: self.chk.ok(r, desc, "%d final states" % len(outs))
    # ---- environment
    def env(self):
        def post(o, fail):
            if o.kind != "ret": return
            s = o.st; ev = [e for e in s.events if e[0] != "throw"]
            if len(ev) != 1 or ev[0][0] != "getenv": fail("eff", "does not query the environment exactly once: %s" % [e[0] for e in ev]); return
            if not self.whole(s, ev[0][1], "name"): fail("str", "queries the name %s instead of the view's characters" % show(s, ev[0][1]))
            if not (o.val != U and o.val[0] == "p" and o.val[1] == "os"): fail("eff", "does not return what the system returned")
        st = State(); self.op("get_environment_variable", ("str", "eff"), "get_env", self.view(st, "name"), st, post)
        for t, n in (("empty", LZ), ("non-empty", None)):
            def post(o, fail, empty=n is not None):
                if o.kind != "ret": return
                s = o.st; ev = [e for e in s.events if e[0] != "throw"]
                for e in ev:
                    if not self.whole(s, e[1], "name"): fail("str", "names the variable %s instead of the view's characters" % show(s, e[1])); return
                last = ev[-1] if ev else ("nothing",)
                if empty:
                    if last[0] != "unsetenv": fail("eff", "an empty value does not unset the variable: %s" % last[0])
                else:
                    if last[0] != "setenv": fail("eff", "the variable is not set: %s" % last[0]); return
                    if not self.whole(s, last[2], "value"): fail("str", "sets the value %s instead of the view's characters" % show(s, last[2]))
                    if not last[3]: fail("eff", "does not overwrite an existing value")
            st = State(); a = self.view(st, "name") + self.view(st, "value", n)
            if n is None: st.cons.add_ge(a[3][1] + (-1))
            self.op("set_environment_variable with %s value" % ("an " + t if n is not None else "a " + t), ("str", "eff"), "set_env", a, st, post)
    # ---- library handles.  A state is (owns?, fields of the object with the owned handle as H and any other as STALE)
    def snap(self, s, x, h):
        fs = []
        for o, (sz, _, sg) in sorted(s.mem[x].fields.items()):
            d = sg[0][2]
            if d == UND: continue
            if d[0] == "ptr" and d[1] in s.mem and s.mem[d[1]].kind in ("lib", "gone"): d = ("ptr", "H" if d[1] == h else "STALE") + d[2:]
            fs.append((o, sz, d))
        return tuple(fs)
    def make(self, st, j, key):
        owns, fs = key; r = Reg("d%d" % j, self.size, L1, "arg")
        for o, sz, d in fs:
            if d[0] == "ptr" and d[1] == "H": d = ("ptr", "H%d" % j) + d[2:]
            r.fields[o] = (sz, 0, ((LZ, L1, d),))
        st.mem["d%d" % j] = r
        if owns: st.mem["H%d" % j] = Reg("H%d" % j, 1, L1, "lib")
        q = Reg("STALE", 1, L1, "gone"); st.mem["STALE"] = q
    def pre(self, *keys):
        st = State()
        for j, k in enumerate(keys, 1): self.make(st, j, k)
        return st
    def step(self, desc, fname, args, st, objs, want, view=None):
        """want(final state, completed) -> {object: handle or None} or a message; None: any consistent outcome"""
        def post(o, fail):
            s = o.st; done = o.kind == "ret"
            live = [r.name for r in s.mem.values() if r.kind == "lib"]
            for e in s.events:
                if e[0] == "dlopen" and view and not self.whole(s, e[1], view): fail("str", "opens the library %s instead of the view's characters" % show(s, e[1]))
            m = want(s, done)
            if isinstance(m, str): fail("eff", m); return
            here = [x for x in objs if done or x in m]
            for h in live:
                if h not in m.values(): fail("own", "a handle is never closed: no object owns it any more%s" % ("" if done else " (after running out of memory)")); return
            for x, h in m.items():
                if h is not None and h not in live: fail("own", "a library that should stay open was closed"); return
            for x in here:
                k = (m[x] is not None, self.snap(s, x, m[x]))
                if k not in self.states: self.states[k] = desc; self.order.append(k)
        self.op(desc, ("own", "str", "eff") if view else ("own", "eff"), fname, args, st, post)
    def opened(self, s):
        return [e[2] for e in s.events if e[0] == "dlopen"]
    def libs(self):
        fresh = lambda st: st.mem.__setitem__("d1", Reg("d1", self.size, L1, "arg")) or st
        self.step("default construction", "c_def", [Pt("d1")], fresh(State()), ["d1"], lambda s, done: {"d1": None})
        def op1(s, done, x="d1", old=None):
            n = self.opened(s)
            if not done: return {x: old if old in s.mem and s.mem[old].kind == "lib" else None} if old is not False else {}
            if not n: return "the library is not opened"
            return {x: n[-1]}           # an earlier success must have been closed
        st = fresh(State()); self.step("construction from a name", "c_open", [Pt("d1")] + self.view(st, "name"), st, ["d1"], lambda s, done: op1(s, done, old=False), view="name")
        done = 0; good = []
        while done < len(self.order):
            k = self.order[done]; done += 1; nf = len(self.failed); owns = k[0]
            w = " on %s library (from: %s)" % ("an open" if owns else "a closed", self.states[k][:90]); H1 = "H1" if owns else None
            # observations
            def obs(o, fail):
                if o.kind != "ret": fail("eff", "throws")
                elif o.st.cons.sat() and self.flag(o) is not owns: fail("eff", "reports %s" % ("not open" if owns else "open"))
                self.unchanged(o, k, fail)
            self.op("is_open" + w, ("eff",), "is_open", [Pt("d1")], self.pre(k), obs)
            if owns:
                for f, t in (("sym_v", "void*"), ("sym_f", "a function pointer"), ("sym_d", "a data pointer")):
                    def sym(o, fail):
                        self.unchanged(o, k, fail)
                        if o.kind != "ret": return
                        ev = [e for e in o.st.events if e[0] == "dlsym"]
                        if not ev: fail("eff", "the symbol is not looked up"); return
                        for e in ev:
                            if e[1] != "H1": fail("eff", "the symbol is looked up in another library")
                            if not self.whole(o.st, e[2], "name"): fail("str", "looks %s up instead of the view's characters" % show(o.st, e[2]))
                        want = "sym" if "sym" in o.st.mem else "null"
                        if o.val == U or o.val[0] != "p" or o.val[1] != want or not o.st.eq(o.val[2]): fail("eff", "does not return the symbol's address")
                    st = self.pre(k); self.op("proc_address of %s" % t + w, ("own", "str", "eff"), f, [Pt("d1")] + self.view(st, "name"), st, sym)
            if len(self.failed) > nf: continue
            if len(good) > 30: self.chk.undecided(next(iter(self.cats.values())), "closure", "too many representations"); break
            good.append(k)
            st = self.pre(k); self.step("open" + w, "open_", [Pt("d1")] + self.view(st, "name"), st, ["d1"], lambda s, d, H1=H1: op1(s, d, old=H1), view="name")
            self.step("close" + w, "close_", [Pt("d1")], self.pre(k), ["d1"], lambda s, d: {"d1": None})
            self.step("destruction" + w, "dtor", [Pt("d1")], self.pre(k), [], lambda s, d: {})
            self.step("self move assignment" + w, "a_move", [Pt("d1"), Pt("d1")], self.pre(k), ["d1"], lambda s, d, H1=H1: {"d1": H1})
            st = State(); self.make(st, 2, k); fresh(st); H2 = "H2" if owns else None
            self.step("move construction from %s library" % ("an open" if owns else "a closed") + " (from: %s)" % self.states[k][:60], "c_move", [Pt("d1"), Pt("d2")], st, ["d1", "d2"], lambda s, d, H2=H2: {"d1": H2, "d2": None})
            for q in list(good):
                for a, b in {(k, q), (q, k)}:
                    self.step("move assignment of %s library to %s one (from: %s; %s)" % ("an open" if b[0] else "a closed", "an open" if a[0] else "a closed", self.states[b][:50], self.states[a][:50]), "a_move", [Pt("d1"), Pt("d2")], self.pre(a, b), ["d1", "d2"],
                              lambda s, d, b=b: {"d1": "H2" if b[0] else None, "d2": None})
    def flag(self, o):
        v = o.val
        if isinstance(v, tuple) and v[0] == "i": v = not o.st.eq(v[1])
        return v
    def unchanged(self, o, k, fail):
        s = o.st
        if k[0] and s.mem["H1"].kind != "lib": fail("own", "closes the library")
        if any(r.kind == "lib" and r.name != "H1" for r in s.mem.values()): fail("own", "a handle is never closed")
        if self.snap(s, "d1", "H1") != k[1]: fail("eff", "changes the object")
