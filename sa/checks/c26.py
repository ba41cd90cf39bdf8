from .simdlib import *
R1 = "first equal position or the end"; R2 = "reads stay inside the range"; R3 = "the range is only read"; R4 = "accesses respect the objects' types"
FORMS = [("pointers", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "return xme::find(f, l, v);"),
         ("mutable pointers", "{T}* f, {T}* l, const {T}& v", "{T}*", "return xme::find(f, l, v);"),
         ("sequenced policy", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "return xme::find<std::execution::sequenced_policy>(f, l, v);"),
         ("parallel policy", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "return xme::find<std::execution::parallel_policy>(f, l, v);"),
         ("parallel unsequenced policy", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "return xme::find<std::execution::parallel_unsequenced_policy>(f, l, v);"),
         ("a sentinel that only compares", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "return xme::find(f, Pe<const {T}>{{l}}, v);"),
         ("a sized sentinel", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "return xme::find(f, Pz<const {T}>{{l}}, v);"),
         ("a range", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "Rg<const {T}> r{{f, l}}; return xme::find(r, v);"),
         ("a range with a sentinel", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "Rs<const {T}> r{{f, l}}; return xme::find(r, v);"),
         ("a range, sequenced policy", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "Rg<const {T}> r{{f, l}}; return xme::find<std::execution::sequenced_policy>(r, v);"),
         ("a forward range", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "Rf<const {T}> r{{f, l}}; return xme::find(r, v).p;"),
         ("a span", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "std::span<const {T}> r(f, l); return std::to_address(xme::find(r, v));"),
         ("forward iterators", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "return xme::find(Fw<const {T}>(f), Fw<const {T}>(l), v).p;"),
         ("random access iterators", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "return xme::find(Ra<const {T}>(f), Ra<const {T}>(l), v).p;"),
         ("single-pass iterators", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "return xme::find(In<const {T}>{{f}}, In<const {T}>{{l}}, v).p;"),
         ("bidirectional iterators and a sentinel", "const {T}* f, const {T}* l, const {T}& v", "const {T}*", "return xme::find(Bi<const {T}>(f), Se<const {T}>{{l}}, v).p;")]
INC = "#include <xme/core/algorithm/find.hpp>\n"
def plan(cfg, thorough):
    """[(type, form)]"""
    out = []; main = cfg in MAIN
    for k, T in enumerate(TYPES):
        if main or thorough or T[0] in ("signed char", "short", "int", "long", "T1", "T8", "float", "void*"): out.append((T, FORMS[0]))
    rich = ("signed char", "int", "float", "T2", "long") if main else ("signed char", "long")
    for T in TYPES:
        if T[0] in (("char", "unsigned char", "bool", "short", "unsigned", "double", "T1", "T8", "void*") + rich if thorough else rich): out += [(T, F) for F in FORMS[1:]] if main or thorough else [(T, FORMS[7])]
    return out
def run(chk, thorough):
    texts = {}; plans = {}
    for name, fl in CONFIGS:
        plans[name] = plan(name, thorough); s = HDR + INC
        for k, (T, F) in enumerate(plans[name]): s += 'extern "C" %s w%d(%s) { %s }\n' % ("auto" if False else F[2].format(T=T[0]) if "*" not in T[0] else F[2].format(T="TT%d" % k), k, F[1].format(T=T[0] if "*" not in T[0] else "TT%d" % k), F[3].format(T=T[0] if "*" not in T[0] else "TT%d" % k))
        s = s.replace(INC, INC + "".join("using TT%d = %s;\n" % (k, T[0]) for k, (T, F) in enumerate(plans[name]) if "*" in T[0]), 1)
        texts[name] = s
    mods = compile_all(CONFIGS, texts); tasks = []
    for q, ((name, fl), m) in enumerate(zip(CONFIGS, mods)):
        if isinstance(m, ir.BuildError):
            err = [l for l in m.out.splitlines() if "error:" in l][:2]
            chk.fail(R1, "%s: find" % name, "does not compile: " + " / ".join(err), err[0].split(": ")[0] if err else ""); continue
        for k, (T, F) in enumerate(plans[name]):
            esz, nb, al, be = T[1:]
            def post(o, it, esz=esz):
                if o.kind != "ret": return [("content", "find does not return")]
                ps = found(o.st, o.val, esz)
                return ps or kept(o.st)
            t = Task("%s: %s, %s" % (name, T[0], F[0]), "w%d" % k, setup("find", esz, None), post, module=q, small=[{"n": x} for x in ((0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 34, 47, 48, 63, 64, 65, 67) if esz == 1 else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 19))])
            t.interp = (SimdI, {"esize": esz, "nb": nb, "ealign": al, "biteq": be}); tasks.append(t)
            if T[0] in ("signed char", "int", "float", "long") and (F is FORMS[0] or F[0] in ("a sentinel that only compares", "forward iterators")):
                for N, P in ((1 << 31) + 70, (1 << 31) + 5), ((1 << 32) + 70, (1 << 32) + 69), ((1 << 31) + 1, None), ((1 << 32), (1 << 32) - 1), ((1 << 33) + 3, None):
                    def init(esz=esz, N=N, P=P):
                        st = world(L.k(N), esz); q = st.mem["S~"]; ne = ("v", ("ne",))
                        q.fields[0] = (1, 0, ((LZ, L.k(N), ne),) if P is None else merge(st.cons, ((LZ, L.k(P), ne), (L.k(P), L.k(P + 1), ("v", ("eq",))), (L.k(P + 1), L.k(N), ne))))
                        return st, [Pt("S"), Pt("S", L.k(N * esz)), Pt("V")], ()
                    t = Task("%s: %s, %s, %d elements, %s" % (name, T[0], F[0], N, "absent" if P is None else "at position %d" % P), "w%d" % k, init, post, module=q); t.det = True
                    t.interp = (SimdI, {"esize": esz, "nb": nb, "ealign": al, "biteq": be}); tasks.append(t)
    run_tasks(chk, None, mods, tasks, {"content": R1, "hang": R1, "life": R1, "mem": R2, "source": R3})
    aliasing(chk, R4, CONFIGS, INC, "const {T}* a{k}(const {T}* f, const {T}* l, const {T}& v) {{ return xme::find(f, l, v); }}", "bool r{k}(const {T}* p, const {T}* q) {{ return *p == *q; }}")
    chk.need(R1, 100); chk.need(R4, 100); chk.need(R2, 100)
