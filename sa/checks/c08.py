from .mathlib import *
H = MH
def proj(o, T, kind, lh, A):
    """columns of the specified matrix"""
    z, one = o.k(0, T), o.k(1, T)
    add = lambda x, y: o.bin("+", x, y, T); sub = lambda x, y: o.bin("-", x, y, T); mul = lambda x, y: o.bin("*", x, y, T); div = lambda x, y: o.bin("/", x, y, T)
    k = lambda c: o.k(c, T); neg = lambda x: o.neg(x, T)
    X = [[z] * 4 for _ in range(4)]
    sg = one if lh else k(-1)
    if kind == "fov":
        fov, asp, n, f = A
        t = o.fn("tan", div(fov, k(2)))
        X[0][0] = div(one, mul(asp, t)); X[1][1] = div(one, t)
    else:
        l, r, b, t, n, f = A
    if kind == "ortho":
        X[0][0] = div(k(2), sub(r, l)); X[1][1] = div(k(2), sub(t, b)); X[2][2] = mul(sg, div(k(2), sub(f, n)))
        X[3][0] = neg(div(add(r, l), sub(r, l))); X[3][1] = neg(div(add(t, b), sub(t, b))); X[3][2] = neg(div(add(f, n), sub(f, n))); X[3][3] = one
        return X
    if kind == "frustum":
        X[0][0] = div(mul(k(2), n), sub(r, l)); X[1][1] = div(mul(k(2), n), sub(t, b))
        X[2][0] = neg(mul(sg, div(add(r, l), sub(r, l)))); X[2][1] = neg(mul(sg, div(add(t, b), sub(t, b))))
    X[2][2] = mul(sg, div(add(f, n), sub(f, n))); X[2][3] = sg
    X[3][2] = neg(div(mul(mul(k(2), f), n), sub(f, n)))
    return X
def wits(lhconf, thorough):
    W = []
    for T in ["float", "double"] + (["long double"] if thorough else []):
        for fn in ("perspective", "perspective_lh", "perspective_rh", "ortho", "ortho_lh", "ortho_rh"):
            for na in ((4, 6) if fn.startswith("p") else (6,)):
                kind = "ortho" if fn.startswith("o") else "fov" if na == 4 else "frustum"
                lh = lhconf if "_" not in fn else fn.endswith("lh")
                names = ["fov", "aspect", "near", "far"] if na == 4 else ["left", "right", "bottom", "top", "near", "far"]
                def f(r, o, T=T, kind=kind, lh=lh, names=names):
                    X = proj(o, T, kind, lh, [o.el(n, 0, T) for n in names])
                    yield from elems(r, "r", T, 4, 4, lambda c, q: X[c][q])
                W.append(Wit(nm(), ", ".join("%s %s" % (T, n) for n in names) + ", %s& r" % M(T, 4, 4), "r = %s(%s);" % (fn, ", ".join(names)), [(n, ("val", T)) for n in names] + [("r", lay(T))], f,
                             "%s<%s>(%s) under %s clip convention" % (fn, T, ", ".join(names), "left-handed" if lhconf else "right-handed")))
    return W
def run(chk, thorough):
    run_wits(chk, "projection", H, wits(False, thorough), chunk=6)
    run_wits(chk, "projection", H, wits(True, thorough), chunk=6, defs=["XME_MATH_CLIP_LH"])
    chk.need("projection", 500)
