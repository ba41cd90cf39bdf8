from .simdlib import *
from .arraylib import src
R1 = "element i ends at position n-1-i"; R2 = "accesses stay inside the range"; R3 = "elements survive the reversal"; R4 = "accesses respect the objects' types"
FORMS = [("pointers", "{T}* f, {T}* l", "{T}*", "return xme::reverse(f, l);"),
         ("a sized sentinel", "{T}* f, {T}* l", "{T}*", "return xme::reverse(f, Pz<{T}>{{l}});"),
         ("a sentinel that only compares", "{T}* f, {T}* l", "{T}*", "return xme::reverse(f, Pe<{T}>{{l}});"),
         ("a range", "{T}* f, {T}* l", "{T}*", "Rg<{T}> r{{f, l}}; return xme::reverse(r);"),
         ("a span", "{T}* f, {T}* l", "{T}*", "std::span<{T}> r(f, l); return std::to_address(xme::reverse(r));"),
         ("random access iterators", "{T}* f, {T}* l", "{T}*", "return xme::reverse(Ra<{T}>(f), Ra<{T}>(l)).p;"),
         ("bidirectional iterators", "{T}* f, {T}* l", "{T}*", "return xme::reverse(Bi<{T}>(f), Bi<{T}>(l)).p;"),
         ("bidirectional iterators and a sentinel", "{T}* f, {T}* l", "{T}*", "return xme::reverse(Bi<{T}>(f), Se<{T}>{{l}}).p;")]
INC = "#include <xme/core/algorithm/reverse.hpp>\n"
ETYPE = ("E", 24)
def plan(cfg, thorough):
    out = []; main = cfg in MAIN
    for T in TYPES:
        if main or thorough or T[1] == 1 and T[0] in ("signed char", "T1", "bool"): out.append((T, FORMS[0]))
    rich = ("unsigned char", "T1", "int") if main else ("unsigned char",)
    for T in TYPES:
        if T[0] in (("char", "signed char", "bool", "short", "double", "T3", "T16") + rich if thorough else rich): out += [(T, F) for F in FORMS[1:]]
    out += [(ETYPE, F) for F in FORMS]
    return out
def run(chk, thorough):
    texts = {}; plans = {}
    for name, fl in CONFIGS:
        plans[name] = plan(name, thorough); s = HDR + INC
        for k, (T, F) in enumerate(plans[name]):
            if "*" in T[0]: s += "using TT%d = %s;\n" % (k, T[0])
            x = T[0] if "*" not in T[0] else "TT%d" % k
            s += 'extern "C" %s w%d(%s) { %s }\n' % (F[2].format(T=x), k, F[1].format(T=x), F[3].format(T=x))
        texts[name] = s
    mods = compile_all(CONFIGS, texts); tasks = []
    for q, ((name, fl), m) in enumerate(zip(CONFIGS, mods)):
        if isinstance(m, ir.BuildError):
            err = [l for l in m.out.splitlines() if "error:" in l][:2]
            chk.fail(R1, "%s: reverse" % name, "does not compile: " + " / ".join(err), err[0].split(": ")[0] if err else ""); continue
        for k, (T, F) in enumerate(plans[name]):
            esz = T[1]
            def end(o, esz=esz):
                v = o.val
                if o.kind != "ret": return [("content", "reverse does not return")]
                if v == U or v[0] != "p" or v[1] != "S" or not o.st.eq(v[2] - o.st.mem["S"].len * esz): return [("content", "reverse returns %s, not the end" % ("position %r" % (o.st.cons.norm(v[2]),) if v != U and v[0] == "p" else v,))]
                return []
            d = "%s: %s, %s" % (name, T[0], F[0]); sm = [0, 1, 2, 3, 4, 5, 7, 8, 9] + ([15, 16, 17, 31, 32, 33, 34, 47, 62, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129] if esz < 3 else [15, 16, 17, 31, 32, 33])
            if T is ETYPE:
                def init():
                    st = State(); st.cons.add_ge(n); st.cons.add_ge(-n + (1 << 40)); src(st, "S", n); return st, [Pt("S"), Pt("S", n * ESZ)], ("n",)
                def post(o, it, end=end):
                    s = o.st; ps = end(o)
                    if ps: return ps
                    x = segs_same(s, s.mem["S"].elems.get(0, ()), ((LZ, n, ("o", "S", -1, n + (-1))),))
                    if x is not None: return [("life" if x[2] in (RAW, MV) else "content", "position %r of %r holds %s" % (x[0].cons.norm(x[1]), x[0].cons.norm(n), x[2]))]
                    for r in s.mem.values():
                        if r.kind == "alloca":
                            for segs in r.elems.values():
                                if any(d != RAW for lo, hi, d in segs): return [("life", "a local element is never destroyed")]
                    return []
                t = Task(d, "w%d" % k, init, post, module=q, small=[{"n": x} for x in range(0, 9)])
            else:
                def post(o, it, end=end): return end(o) or reversed_(o.st, n)
                t = Task(d, "w%d" % k, setup("rev", esz, None), post, module=q, small=[{"n": x} for x in sm])
                t.interp = (SimdI, {"esize": esz, "nb": T[2], "ealign": T[3], "biteq": T[4]})
            tasks.append(t)
    run_tasks(chk, None, mods, tasks, {"content": R1, "hang": R1, "life": R3, "mem": R2})
    aliasing(chk, R4, CONFIGS, INC, "{T}* a{k}({T}* f, {T}* l) {{ return xme::reverse(f, l); }}", "void r{k}({T}* p, {T}* q) {{ {T} t = *p; *p = *q; *q = t; }}")
    chk.need(R1, 60); chk.need(R4, 100); chk.need(R2, 60)
