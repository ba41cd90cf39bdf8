"""C31: self-contained headers, inclusion orders, several translation units, module interfaces.

Everything is decided by the compilers' front ends and by comparing the code they would emit:
- every header alone, twice, first and last, in all ordered pairs (thorough), in both language modes, by both compilers
- the documented uses of every header (units.py) with only that header, with every header before it, in several orders
- no header defines a strong symbol (two translation units would not link)
- the functions emitted for a use are the same whatever was included before (one definition rule)
- every module interface unit builds, its exported names are reachable by an importer, xme re-exports all of them"""
import glob, hashlib, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .. import ir
from ..typ import errs
from .units import UNITS, PRE
STDS = ("c++20", "c++23")
def headers():
    base = os.path.join(ir.REPO, "include"); out = []
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith((".hpp", ".h")): out.append(os.path.relpath(os.path.join(d, f), base))
    # the branches of the other platforms are only included by platform.hpp there
    return sorted(h for h in out if "/windows/" not in h)
def inc(hs): return "".join("#include <%s>\n" % h for h in hs)
def stdinc(s): return "".join(l + "\n" for l in s.splitlines() if "<xme" not in l)
def wrap(n, c): return "namespace u_%s {\n%s%s\n}\n" % (n, PRE, c)
def unit(u): return PRE + u[3] + "\n"
def emit(src, flags=()):
    """the definitions clang would emit for src: {name: (linkage, text)}"""
    n = next(ir._seqs); f = os.path.join(ir.tmpdir(), "e%d_%d.cpp" % (os.getpid(), n))
    open(f, "w").write(src)
    rc, out = ir.sh([ir.CLANG] + ir.BASE[:1] + ["-I", os.path.join(ir.REPO, "include"), "-w", "-O0", "-S", "-emit-llvm", "-o", f + ".ll"] + list(flags) + [f])
    if rc: raise ir.BuildError(src, out)
    t = open(f + ".ll").read(); os.unlink(f + ".ll"); os.unlink(f)
    defs = {}
    for m in re.finditer(r"^define (.*?)@(\"[^\"]*\"|[\w.$]+)\((.*?)\n}\n", t, re.M | re.S): defs[m.group(2)] = (m.group(1), m.group(0))
    for m in re.finditer(r"^@(\"[^\"]*\"|[\w.$]+) = (.*)$", t, re.M): defs["@" + m.group(1)] = (m.group(2), m.group(0))
    return defs, t
def precompile(src):
    f = os.path.join(ir.tmpdir(), "h%d.hpp" % next(ir._seqs)); open(f, "w").write(src)
    rc, out = ir.sh([ir.CLANG] + ir.BASE[:1] + ["-I", os.path.join(ir.REPO, "include"), "-w", "-O0", "-x", "c++-header", "-o", f + ".pch", f])
    return f + ".pch" if rc == 0 else None
def canon(t):
    """the text of a definition without the numbers that depend on the rest of the translation unit"""
    t = re.sub(r"#\d+|!\w+(, )?|, align \d+ comdat| comdat(\(\$[\w.$\"]+\))?", "", t)
    t = re.sub(r"%(struct|class|union)\.([\w:.<>\", *&()~-]*?)\.\d+\b", r"%\1.\2", t)
    t = re.sub(r"@(\.str|__const\.[\w.]+|constinit|switch\.table[\w.]*)(\.\d+)*", r"@\1", t)
    return t
def run(chk, thorough):
    hs = headers(); jobs = []
    R1, R2, R3, R4, R5, R6 = "header alone", "inclusion order", "documented use", "several translation units", "same definition in every order", "module interface"
    def comp(rule, desc, src, gcc=False, std="c++20", flags=()): jobs.append((rule, desc, src, gcc, std, tuple(flags)))
    cc = {True: "g++", False: "clang++"}
    for h in hs:
        for g in (0, 1):
            for s in STDS: comp(R1, "%s alone (%s, %s)" % (h, cc[bool(g)], s), inc([h]), g, s)
            comp(R1, "%s twice, NDEBUG (%s)" % (h, cc[bool(g)]), inc([h, h]), g, flags=["-DNDEBUG"])
        for fl in (["-mavx2", "-DXME_SIMD_ENABLE_AVX2"], ["-DXME_MATH_CLIP_LH"]): comp(R1, "%s alone, %s" % (h, fl[-1]), inc([h]), 0, flags=fl)
    # order: sorted and reversed (between them every header precedes every other), shuffles; each header first and last in the thorough tier
    for k, h in enumerate(hs if thorough else []):
        rest = [x for x in hs if x != h]
        for g in (0, 1):
            comp(R2, "%s before all others (%s)" % (h, cc[bool(g)]), inc([h] + rest), g)
            comp(R2, "%s after all others (%s)" % (h, cc[bool(g)]), inc(rest + [h]), g)
    rnd = random.Random(31)
    orders = [hs, hs[::-1]]
    for k in range(4 if not thorough else 24):
        o = hs[:]; rnd.shuffle(o); orders.append(o)
    for k, o in enumerate(orders):
        for g in (0, 1): comp(R2, "order %d (%s)" % (k, cc[bool(g)]), inc(o), g, STDS[k % 2])
    for u in UNITS:
        n, h, s, c = u
        for g in (0, 1):
            for sd in STDS: comp(R3, "%s: %s alone (%s, %s)" % (n, h, cc[bool(g)], sd), inc([h]) + s + unit(u), g, sd)
        comp(R3, "%s: C++ headers first, then %s" % (n, h), s + inc([h]) + unit(u), 0)
    if thorough:
        for u in UNITS:
            for k, o in enumerate(orders[:2]): comp(R3, "%s after every header, order %d (g++)" % (u[0], k), inc(o) + stdinc(u[2]) + unit(u), 1)
    def one(j):
        rule, desc, src, g, std, fl = j
        return ir.compile_only(src, (), ["-std=" + std] + list(fl), False, bool(g))
    with ThreadPoolExecutor(8) as ex:
        for j, (ok, out) in zip(jobs, ex.map(one, jobs)):
            if ok: chk.ok(j[0], j[1], "compiles")
            else:
                e, at = errs(out); chk.fail(j[0], j[1], "rejected by the compiler: " + (e or out[-300:]), at)
        chk.count("translation units", len(jobs))
        # what each use makes the compiler define
        def defs(u):
            try: return emit(inc([u[1]]) + u[2] + unit(u)), None
            except ir.BuildError as e: return None, e
        # the headers in one order as a precompiled header, each use after it
        cfg = [orders[0], orders[1]] if not thorough else orders[:8]
        pch = list(ex.map(lambda o: precompile(inc(o)), cfg))
        def defs_after(a):
            u, k = a
            try: return emit(stdinc(u[2]) + unit(u), ["-include-pch", pch[k]]) if pch[k] else emit(inc(cfg[k]) + stdinc(u[2]) + unit(u)), None
            except ir.BuildError as e: return None, e
        alone = list(ex.map(defs, UNITS)); after = list(ex.map(defs_after, [(u, k) for u in UNITS for k in range(len(cfg))]))
        plain = list(ex.map(lambda h: emit1(inc([h])), hs))
    for h, (d, err) in zip(hs, plain):
        if err: chk.undecided(R4, h, "does not compile"); continue
        bad = strong(d)
        chk.ob(R4, "%s defines nothing that a second translation unit would define again" % h, not bad, "strong definitions: %s" % ", ".join(bad[:5]), h)
    nf = 0
    for k, u in enumerate(UNITS):
        (a, err) = alone[k]
        if err: chk.undecided(R5, u[0], "does not compile"); continue
        A, ta = a
        bad = [x for x in strong(a) if not mine(x)]
        chk.ob(R4, "%s: instantiations are not strong definitions" % u[0], not bad, "strong definitions: %s" % ", ".join(bad[:5]), u[1])
        shared = internal_state(A)
        chk.ob(R4, "%s: no inline function keeps its own copy of a variable per translation unit" % u[0], not shared, "; ".join(shared[:3]), u[1])
        for j, o in enumerate(cfg):
            b, err = after[k * len(cfg) + j]
            e, at = errs(err.out) if err else ("", "")
            chk.ob(R3, "%s after every header, order %d" % (u[0], j), not err, "rejected by the compiler: " + e, at)
            if err: continue
            B, _ = b; diff = []
            for n, (lk, t) in A.items():
                if n.startswith("@") or "internal" in lk or "private" in lk or "Ut" in n or "xme" not in n: continue
                nf += 1
                if n not in B: diff.append("%s is not used" % n); continue
                if canon(t) != canon(B[n][1]): diff.append("%s differs" % n)
            chk.ob(R5, "%s means the same alone and after every other header, order %d" % (u[0], j), not diff, "; ".join(demangle(diff[:4])), u[1])
    chk.count("definitions compared", nf)
    modules(chk, R6)
    for h in hs: chk.files.add("include/" + h)
    chk.need(R1, 250); chk.need(R2, 12); chk.need(R3, 250); chk.need(R4, 90); chk.need(R5, 90); chk.need(R6, 10)
def emit1(src):
    try: return emit(src), None
    except ir.BuildError as e: return None, e
def mine(n): return not re.match(r"@?_Z(TV|TI|TS|GV)?N[KVRO]*(3xme|3std)", n)
def strong(d):
    out = []
    for n, (lk, t) in d[0].items():
        if any(w in lk.split() for w in ("internal", "private", "linkonce_odr", "weak_odr", "linkonce", "weak", "available_externally", "external", "appending", "common", "extern_weak")): continue
        if n.startswith("@llvm."): continue
        out.append(n)
    return out
def internal_state(A):
    """inline functions of the library that use a non-constant variable of internal linkage"""
    vs = {n[1:] for n, (lk, t) in A.items() if n.startswith("@") and "internal" in lk.split() and " global " in " " + lk and "xme" in n}
    out = []
    for n, (lk, t) in A.items():
        if n.startswith("@") or not ("linkonce_odr" in lk or "weak_odr" in lk): continue
        for v in vs:
            if re.search(r"@%s\b" % re.escape(v), t): out.append("%s uses %s" % (n, v))
    return out
def demangle(ds):
    try: return subprocess.run(["c++filt"], input="\n".join(ds), capture_output=True, text=True).stdout.splitlines()
    except OSError: return ds
# --- modules ----------------------------------------------------------------------------------------------------
USES = {
 "xme.math": r'''
float u(xme::math::vec3 a, xme::math::mat4 m, xme::math::Quaternion<float> q, xme::math::Vector<double, 3> v, xme::math::Matrix<double, 2, 3> w) { auto s = a + a; s *= 2.f; auto k = m * m; auto p = xme::math::perspective(1.f, 1.f, 1.f, 2.f); return s[0] + k[0][0] + (q * q)[0] + float(v[0]) + float(w[0][0]) + p[0][0] + float(xme::math::radians(xme::math::pi)) + float(xme::math::sin(1.0)); }''',
 "xme.container": r'''
int u(xme::Array<int> a, xme::LinkedList<int> l, int (&c)[3]) { a.push_back(1); l.push_front(2); xme::ArrayView<int> v(c); xme::Tuple<int, long> t{1, 2l}; auto p = xme::make_pair(1, 2); auto q = xme::make_tuple(1, 2); return a[0] + l.front() + v[1] + xme::get<0>(t) + p.first + xme::apply([](int x, long y) { return int(x + y); }, t) + xme::get<1>(q); }''',
 "xme.functional": "struct F { int operator()(int a, int b) const { return a + b; } };\nint u(int x) { F f; xme::Delegate<int(int, int)> d(f); return d(1, 2) + xme::bind_front(f, 1)(x) + xme::bind_back(f, 1)(x); }",
 "xme.iterators": "int u(int* p) { xme::ReverseIterator<int*> i(p); ++i; return *i; }",
 "xme.utility": "int&& u(int& a) { return xme::forward_like<int&&>(a); }",
}
GMF = "#include <compare>\n#include <array>\n#include <memory>\n#include <functional>\n#include <iterator>\n#include <new>\n#include <utility>\n#include <cmath>\n"
def modules(chk, rule):
    base = os.path.join(ir.REPO, "modules"); out = ir.tmpdir() + "/pcm"; os.makedirs(out, exist_ok=True)
    units = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            if not f.endswith((".cppm", ".ixx")): continue
            p = os.path.join(d, f); t = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(p).read(), flags=re.S)
            m = re.search(r"^\s*export\s+module\s+([\w.:]+)\s*;", t, re.M)
            if not m: chk.undecided(rule, os.path.relpath(p, ir.REPO), "not a module interface unit"); continue
            units[m.group(1)] = (p, re.findall(r"^\s*export\s+import\s+([\w.:]+)\s*;|^\s*import\s+([\w.:]+)\s*;", t, re.M), exports(t))
    done = {}
    def build(n, stack=()):
        if n in done or n not in units or n in stack: return
        p, im, _ = units[n]
        for a, b in im: build(a or b, stack + (n,))
        rc, o = ir.sh([ir.CLANG, "-std=c++20", "-w", "-I", os.path.join(ir.REPO, "include"), "-fprebuilt-module-path=" + out, "--precompile", "-o", os.path.join(out, n + ".pcm"), "-x", "c++-module", p])
        done[n] = rc == 0; rel = os.path.relpath(p, ir.REPO)
        e, at = errs(o)
        chk.ob(rule, "%s: module %s exports only names the headers define" % (rel, n), rc == 0, "rejected by the compiler: " + e, at or rel)
    for n in sorted(units): build(n)
    def imp(n, how, code, desc, where):
        ok, o = ir.compile_only(GMF + "import %s;\n" % how + code, (), ["-fprebuilt-module-path=" + out])
        e, at = errs(o); chk.ob(rule, desc, ok, "rejected by the compiler: " + e, where)
    if not done.get("xme", False): chk.undecided(rule, "module xme", "not built")
    for n, (p, im, ex) in sorted(units.items()):
        if not done.get(n): continue
        rel = os.path.relpath(p, ir.REPO)
        for ns, x in ex:
            # an exported name can be named by an importer, from the part and from xme
            for how in ([n] if n == "xme" else [n, "xme"]):
                if done.get(how): imp(n, how, "using %s::%s;\n" % (ns, x), "%s::%s is reachable by import %s" % (ns, x, how), rel)
        for how in ([n, "xme"] if n in USES else []):
            if done.get(how): imp(n, how, USES[n], "the interface of %s is usable by import %s" % (n, how), rel)
        chk.files.add(rel)
def exports(t):
    out = []
    for m in re.finditer(r"export\s+namespace\s+([\w:]+)\s*\{", t):
        d = 1; i = m.end()
        while d and i < len(t):
            d += {"{": 1, "}": -1}.get(t[i], 0); i += 1
        for u in re.finditer(r"\busing\s+([\w:]+)\s*;", t[m.end():i]): out.append((m.group(1), u.group(1).split("::")[-1]))
    return out
