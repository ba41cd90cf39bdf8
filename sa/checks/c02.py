from .mathlib import *
H = VH
NAMES = "xyzw"
def wits(thorough):
    W = []
    types = ["float", "double", "int", "unsigned", "short", "unsigned char", "long", "bool"]
    conv = [("float", "float"), ("float", "double"), ("double", "float"), ("int", "float"), ("float", "int"), ("unsigned char", "int"), ("long", "short"), ("unsigned", "double"), ("double", "long"), ("short", "unsigned char"), ("double", "double"), ("int", "int"), ("bool", "int"), ("int", "bool"), ("float", "bool")]
    if thorough: conv = [(a, b) for a in types + ["long double"] for b in types + ["long double"]]
    sizes = [2, 3, 4, 5, 6, 7, 9]
    small = ["float", "int", "unsigned char"]
    # every constructor layout: list of argument widths (1 = scalar)
    layouts = {2: [[1, 1]], 3: [[1, 1, 1], [1, 2], [2, 1]], 4: [[1] * 4, [1, 1, 2], [1, 2, 1], [2, 1, 1], [2, 2], [1, 3], [3, 1]], 5: [[1] * 5], 6: [[1] * 6], 7: [[1] * 7], 9: [[1] * 9]}
    mix = ["float", "int", "double", "short"]
    for n in sizes:
        for T in types if n <= 5 or thorough else small:
            for ly in layouts[n]:
                for U in ([T, "float", "int"] if not thorough else types):
                    for mode in ("same", "mixed"):
                        ats = [U if mode == "same" else mix[(k + len(U)) % 4] for k in range(len(ly))]
                        if mode == "mixed" and (U != T): continue
                        sig = []; regs = []; src = []
                        for k, w in enumerate(ly):
                            a = "a%d" % k
                            if w == 1:
                                sig.append("%s %s" % (ats[k], a)); regs.append((a, ("val", ats[k]))); src.append((a, 0, ats[k]))
                            else:
                                sig.append("const %s& %s" % (V(ats[k], w), a)); regs.append((a, lay(ats[k])))
                                src += [(a, j, ats[k]) for j in range(w)]
                        for style in ("r = %s(%s);", "r = %s{%s};"):
                            def f(r, o, src=src, T=T, n=n):
                                yield from comps(r, "r", T, n, lambda i: o.conv(o.el(*src[i]), src[i][2], T))
                            W.append(Wit(nm(), ", ".join(sig + ["%s& r" % V(T, n)]), style % (V(T, n), ", ".join("a%d" % k for k in range(len(ly)))),
                                         regs + [("r", lay(T))], f, "%s(%s)" % (V(T, n), ", ".join(("%s" if w == 1 else "Vector<%s, %%d>" % t if False else "%s") % (t if w == 1 else V(t, w)) for t, w in zip(ats, ly))), exact=True))
                            if not thorough: break
        for T, U in conv if n <= 5 or thorough else conv[:6]:
            def fs(r, o, T=T, U=U, n=n):
                yield from comps(r, "r", T, n, lambda i: o.conv(o.el("s", 0, U), U, T))
            W.append(Wit(nm(), "%s s, %s& r" % (U, V(T, n)), "r = %s(s);" % V(T, n), [("s", ("val", U)), ("r", lay(T))], fs, "%s(%s)" % (V(T, n), U), exact=True))
            def fc(r, o, T=T, U=U, n=n):
                yield from comps(r, "r", T, n, lambda i: o.conv(o.el("b", i, U), U, T))
                yield from untouched(r, ["b"])
            W.append(Wit(nm(), "const %s& b, %s& r" % (V(U, n), V(T, n)), "%s t(b); r = t;" % V(T, n), [("b", lay(U)), ("r", lay(T))], fc, "%s(%s)" % (V(T, n), V(U, n)), exact=True))
            def fa(r, o, T=T, U=U, n=n):
                yield from comps(r, "a", T, n, lambda i: o.conv(o.el("b", i, U), U, T))
                yield from untouched(r, ["b"])
                yield from retptr(r, "p", 0, "a", "assignment returns its left operand")
            W.append(Wit(nm(), "%s& a, const %s& b, %s*& p" % (V(T, n), V(U, n), V(T, n)), "p = &(a = b);", [("a", lay(T)), ("b", lay(U)), ("p", ["p"])], fa, "%s = %s" % (V(T, n), V(U, n)), exact=True))
        for T in types if n <= 5 or thorough else small[:1]:
            s = sz(T)
            for cst in ("", "const "):
                for i in range(n):
                    def fi(r, o, i=i, s=s):
                        yield from retptr(r, "r", i * s, "a", "")
                    W.append(Wit(nm(), "%s%s& a, const %s*& r" % (cst, V(T, n), T), "r = &a[%d];" % i, [("a", lay(T)), ("r", ["p"])], fi, "&%s%s[%d]" % (cst, V(T, n), i)))
                for i in range(n):
                    def fsym(r, o, s=s, i=i): yield from retptr(r, "r", i * s, "a", "")
                    W.append(Wit(nm(), "%s%s& a, std::size_t i, const %s*& r" % (cst, V(T, n), T), "r = &a[i];", [("a", lay(T)), ("i", ("valk", "std::size_t", i)), ("r", ["p"])], fsym, "&%s%s[i] for a run-time i of %d" % (cst, V(T, n), i)))
                if n <= 4:
                    for k in range(n):
                        def fn(r, o, k=k, s=s):
                            yield from retptr(r, "r", k * s, "a", "")
                        W.append(Wit(nm(), "%s%s& a, const %s*& r" % (cst, V(T, n), T), "r = &a.%s;" % NAMES[k], [("a", lay(T)), ("r", ["p"])], fn, "&%s%s.%s" % (cst, V(T, n), NAMES[k])))
    return W
def asserts(thorough):
    W = []
    for n in [2, 3, 4, 5, 8] + ([1] if thorough else []):
        for T in ["float", "int", "double"]:
            for cst in ("", "const "):
                def f(r, o, n=n):
                    c = FALSE
                    for cond, loc in r.asserts: c = OR(c, cond)
                    bad = o.icmp("uge", o.el("i", 0, "std::size_t"), o.k(n, "std::size_t"))
                    yield "the debug assertion fires exactly for i >= %d" % n, c, bad, (r.asserts[0][1] if r.asserts else None)
                W.append(Wit(nm(), "%s%s& a, std::size_t i, const %s*& r" % (cst, V(T, n), T), "r = &a[i];", [("a", lay(T)), ("i", ("val", "std::size_t")), ("r", ["p"])], f, "%s%s[i]" % (cst, V(T, n))))
    return W
def run(chk, thorough):
    run_wits(chk, "construction and indexing", H, wits(thorough), chunk=50)
    run_wits(chk, "index assertion", H, asserts(thorough), ndebug=False)
    chk.need("construction and indexing", 800); chk.need("index assertion", 20)
