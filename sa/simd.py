"""Engine B with vectors: values taken from the elements of a range are bit lists; a bit is 0, 1, ("e", region, index, bit)
(a bit of one element, the index symbolic) or a formula over equalities between such bits.  Whether S[i] == value is a
typestate of every position (unknown / equal / different), split when a branch or a mask depends on it."""
from .har import *
from .vn import nbytes
def bw(t):
    if t[0] == "i": return t[1]
    if t[0] == "p": return 64
    if t[0] == "f": return nbytes(t) * 8
    if t[0] == "v": return t[1] * bw(t[2])
    if t[0] == "s": raise Unanalysable("aggregate used as bits")
    return nbytes(t) * 8
def isb(v): return isinstance(v, tuple) and len(v) > 0 and v[0] == "bits"
def fnot(a):
    if a in (0, 1): return 1 - a
    return a[1] if a[0] == "not" else ("not", a)
def fand(a, b):
    if a == 0 or b == 0: return 0
    if a == 1 or a == b: return b
    if b == 1: return a
    return ("and", a, b)
def for_(a, b): return fnot(fand(fnot(a), fnot(b)))
def fxor(a, b):
    if a in (0, 1): return b if a == 0 else fnot(b)
    if b in (0, 1): return a if b == 0 else fnot(a)
    if a == b: return 0
    if a[0] == "e" and b[0] == "e": return ("not", ("eqs", frozenset([frozenset([a, b])])))
    return ("xor", a, b)
SRC = ("S", "V")
class SimdI(Interp):
    steps = 40000
    esize = 1; nb = 8; ealign = 1; biteq = True; flt = False
    # ---- bits
    def bits(self, st, v, t):
        if isb(v): return v[1]
        n = bw(t)
        if isinstance(v, list): return tuple(b for x in v for b in self.bits(st, x, t[2]))
        if v == U: return ("u",) * n
        if v is True or v is False: return (int(v),)
        if v[0] == "i":
            l = st.cons.norm(v[1])
            if not l.const(): raise Unanalysable("bits of a symbolic number")
            return tuple((l.c >> k) & 1 for k in range(n))
        if v[0] == "p" and v[1] == "null" and not v[2].t: return tuple((v[2].c >> k) & 1 for k in range(n))
        if n == 1: return (("t", v),)
        raise Unanalysable("bits of %r" % (v[0],))
    def unbits(self, b, t):
        b = tuple(b)
        if t[0] == "i" and all(x in (0, 1) for x in b):
            n = sum(x << k for k, x in enumerate(b)); w = t[1]
            if w == 1: return bool(n)
            if w > 8 and n >= 1 << (w - 1): n -= 1 << w
            return ("i", L.k(n), w)
        if all(x == "u" for x in b): return U
        return ("bits", b)
    def ebits(self, r, idx): return tuple(("e", r, idx, k) if k < self.nb else 0 for k in range(8 * self.esize))
    # ---- formulas
    def at(self, st, idx):
        """S[idx] == value ?"""
        r = st.mem["S~"]; segs = r.fields[0][2]
        i = locate(st, segs, idx)
        if i is None: raise Bad("mem", "compares outside the range")
        d = segs[i][2][1][0]
        if d != "q": return d == "eq"
        out = []
        if self.biteq:
            idx = st.cons.norm(idx); al = {(("S", idx, q), ("V", q)) for q in range(self.nb)}
            ks = [k for k in st.facts if k[0] == "bits" and k[1] <= al]
            if any(not st.facts[k] for k in ks): vs = ("ne",)
            elif len({x for k in ks for x, _ in k[1]}) == self.nb: vs = ("eq",)
            else: vs = ("eq", "ne")
        else: vs = ("eq", "ne")
        for v in vs:
            s = st.copy(); q = s.wreg("S~"); q.fields[0] = (1, 0, put(s, q.fields[0][2], idx, ("v", (v,)))); out.append(s)
        raise ForkS(out)
    def part(self, st, ps):
        """do all these pairs of bits agree?  bits: ("S", index, bit), ("V", bit), ("c", 0 or 1)"""
        key = ("bits", frozenset(ps))
        if key in st.facts: return st.facts[key]
        def find(u, x):
            while u.get(x, x) != x: x = u[x]
            return x
        def join(u, x, y):
            x, y = find(u, x), find(u, y)
            if x != y: u[x] = y
        Z, O = ("c", 0), ("c", 1)
        u = {}; no = [[(Z, O)]]
        ks = [k for k in st.facts if k[0] == "bits"]
        for j in {x[1] for k in ks + [key] for p in k[1] for x in p if x[0] == "S"}:
            z = self.peek(st, j) if self.biteq else "q"; al = [(("S", j, q), ("V", q)) for q in range(self.nb)]
            if z == "eq":
                for x, y in al: join(u, x, y)
            elif z == "ne": no.append(al)
        for k in ks:
            if st.facts[k]:
                for x, y in k[1]: join(u, x, y)
            else: no.append(list(k[1]))
        if all(find(u, x) == find(u, y) for x, y in ps): return True
        w = dict(u)
        for x, y in ps: join(w, x, y)
        if any(all(find(w, x) == find(w, y) for x, y in al) for al in no): return False
        raise ForkB(key)
    def node(self, st, e):
        return e if e[0] == "c" else ("V", e[3]) if e[1] == "V" else ("S", st.cons.norm(e[2]), e[3])
    def peek(self, st, idx):
        segs = st.mem["S~"].fields[0][2]
        i = locate(st, segs, idx)
        return segs[i][2][1][0] if i is not None else "q"
    def ev(self, st, f):
        if f in (0, 1): return bool(f)
        if f == "u": raise Bad("mem", "depends on undefined bits")
        k = f[0]
        if k == "not": return not self.ev(st, f[1])
        if k == "and": return self.ev(st, f[1]) and self.ev(st, f[2])
        if k == "xor": return self.ev(st, f[1]) != self.ev(st, f[2])
        if k == "t": return self.truth(st, f[1])
        if k == "e": return self.part(st, [(self.node(st, f), ("c", 1))])
        if k == "eqs":
            by = {}; odd = []
            for p in f[1]:
                p = sorted(p, key=lambda e: (e[0] == "c", e[1] != "S", repr(e)))
                if p[0][0] == "e" and p[1][0] == "e" and p[0][1] == "S" and p[1][1] == "V": by.setdefault(st.cons.norm(p[0][2]), []).append((p[0][3], p[1][3]))
                else: odd.append((self.node(st, p[0]), self.node(st, p[1])))
            for idx, ps in by.items():
                if self.biteq and len(ps) == self.nb and all(x == y for x, y in ps):
                    if not self.at(st, idx): return False
                elif not self.part(st, [(("S", idx, x), ("V", y)) for x, y in ps]): return False
            return self.part(st, odd) if odd else True
        raise Unanalysable("a decision on element bits")
    def eqbits(self, a, b):
        """formula a == b"""
        ps = set(); f = 1
        for x, y in zip(a, b):
            if x == y and x != "u": continue
            if x == "u" or y == "u": return "u"
            if x in (0, 1) and y in (0, 1): return 0
            if x in (0, 1): x, y = y, x
            if y in (0, 1):
                if x[0] == "e": ps.add(frozenset([x, ("c", y)]))
                else: f = fand(f, x if y else fnot(x))
                continue
            if x[0] == "e" and y[0] == "e": ps.add(frozenset([x, y])); continue
            f = fand(f, fnot(fxor(x, y)))
        return fand(f, ("eqs", frozenset(ps))) if ps else f
    def truth(self, st, v):
        if isinstance(v, tuple) and v:
            if v[0] == "bits": return self.ev(st, v[1][0])
            if v[0] == "c" and (isb(v[2]) or isb(v[3])): return self.cmpbits(st, v[1], v[2], v[3])
            if v[0] == "fc": return self.fcmp(st, v[1], v[2], v[3])
        return Interp.truth(self, st, v)
    def cmpbits(self, st, p, a, b):
        w = len(a[1]) if isb(a) else len(b[1])
        x, y = self.bits(st, a, ["i", w]), self.bits(st, b, ["i", w])
        if p in ("eq", "ne"):
            # in order of the bits: the first set one decides
            if all(q == 0 for q in x) or all(q == 0 for q in y):
                z = y if all(q == 0 for q in x) else x
                if not any(isinstance(q, tuple) and q[0] == "e" for q in z): r = not any(self.ev(st, q) for q in z); return r == (p == "eq")
            return self.ev(st, self.eqbits(x, y)) == (p == "eq")
        if p == "slt" and all(q == 0 for q in y): return self.ev(st, x[-1])
        if p == "sgt" and all(q == 1 for q in y): return not self.ev(st, x[-1])
        xs, ys = self.fixed(st, x), self.fixed(st, y)
        sg = (lambda q: q - (1 << w) if q >> (w - 1) else q) if p[0] == "s" else (lambda q: q)
        xs, ys = sg(xs), sg(ys)
        return {"lt": xs < ys, "le": xs <= ys, "gt": xs > ys, "ge": xs >= ys}[p[1:]]
    def fixed(self, st, x):
        return sum(int(self.ev(st, q)) << k for k, q in enumerate(x))
    def fcmp(self, st, p, a, b):
        if not isb(a) or not isb(b): raise Unanalysable("floating comparison")
        es = sorted({(e[1], e[2]) for e in a[1] + b[1] if isinstance(e, tuple)}, key=lambda e: e[0])
        if len(es) != 2 or es[0][0] != "S" or es[1][0] != "V" or sorted(map(str, (a[1], b[1]))) != sorted(map(str, (self.ebits(*es[0]), self.ebits(*es[1])))): raise Unanalysable("floating comparison")
        v = self.at(st, es[0][1])
        if p == "oeq": return v
        if p == "une": return not v
        raise Unanalysable("floating comparison " + p)
    def int(self, v):
        if isb(v): raise Unanalysable("arithmetic on element bits")
        return Interp.int(self, v)
    # ---- memory
    def span(self, st, p, n, what):
        """(region, first index, byte in it, number of records)"""
        r = st.reg(p[1]); off = st.cons.norm(p[2]); q = off.divmod(self.esize)
        if q is None: raise Unanalysable("address inside an element at a symbolic offset")
        idx, rem = q; K = (rem + n + self.esize - 1) // self.esize
        if not st.ge(idx): raise Bad("mem", "%s before the start of the range (element %r)" % (what, st.cons.norm(idx)))
        if not st.ge(r.len - idx - K): raise Bad("mem", "%s of %d bytes at element %r of %r: past the end of the range" % (what, n, st.cons.norm(idx), st.cons.norm(r.len)))
        return r, idx, rem, K
    def inrange(self, p): return isinstance(p, tuple) and p[0] == "p" and p[1] in SRC
    def load(self, st, p, t):
        if not self.inrange(p):
            if t[0] == "v" and p != U and p[0] == "p" and p[1].startswith("@"): return self.load_global(st, p, t)
            return Interp.load(self, st, p, t)
        if t[0] in ("s", "a"): return Interp.load(self, st, p, t)
        n = 1 if t == ["i", 1] else (bw(t) + 7) // 8
        r, idx, rem, K = self.span(st, p, n, "read")
        out = []; segs = r.fields[0][2]
        j = 0
        while j < K:
            x = idx + j; d = d_at(segs[locate(st, segs, x)][2], x)
            if d[0] == "o": out += [e if e == 0 else ("e", d[1], st.cons.norm(d[3]), e[3]) for e in self.ebits("", LZ)]
            elif d[0] == "v" and isb(d[1]): out += d[1][1]
            else: out += ["u"] * (8 * self.esize)
            j += 1
        b = out[rem * 8:(rem + n) * 8]
        if t == ["i", 1]: b = b[:1]
        return self.unbits(b[:bw(t)], t)
    def from_d(self, st, d, idx, t):
        if d[0] == "o":
            d = d_at(d, idx)
            return self.unbits([e if e == 0 else ("e", d[1], st.cons.norm(d[3]), e[3]) for e in self.ebits("", LZ)][:bw(t)], t)
        if d[0] == "v" and isb(d[1]): return self.unbits(d[1][1], t)
        return Interp.from_d(self, st, d, idx, t)
    def to_d(self, st, v, t):
        if isb(v): return self.whole(st, v[1]) or ("v", v)
        return Interp.to_d(self, st, v, t)
    def whole(self, st, b):
        """the element these bits are, completely"""
        if len(b) != 8 * self.esize: return None
        e = b[0]
        if not isinstance(e, tuple) or e[0] != "e" or tuple(b) != self.ebits(e[1], e[2]): return None
        return ("o", e[1], 0, e[2])
    def store(self, st, p, v, t):
        if not self.inrange(p):
            if t[0] == "v" and isb(v):
                n = bw(t[2]); v = [self.unbits(v[1][k * n:(k + 1) * n], t[2]) for k in range(t[1])]
            return Interp.store(self, st, p, v, t)
        if t[0] in ("s", "a"): return Interp.store(self, st, p, v, t)
        b = self.bits(st, v, t) if bw(t) % 8 == 0 else tuple(self.bits(st, v, t)) + (0,) * (-bw(t) % 8)
        n = len(b) // 8
        r, idx, rem, K = self.span(st, p, n, "write")
        if rem or n % self.esize:
            # part of an element
            old = self.bits(st, self.load(st, ("p", p[1], idx * self.esize), ["v", K * self.esize, ["i", 8]]), ["v", K * self.esize, ["i", 8]])
            b = old[:rem * 8] + b + old[rem * 8 + len(b):]
        ds = []
        for j in range(K):
            c = b[j * 8 * self.esize:(j + 1) * 8 * self.esize]
            ds.append(self.whole(st, c) or ("v", ("bits", c)))
        q = st.wreg(p[1]); segs = q.fields[0][2]; j = 0
        while j < K:      # runs of consecutive elements
            d = ds[j]; e = j + 1; a = None
            while e < K and d[0] == "o" and ds[e][0] == "o" and ds[e][1] == d[1]:
                s = st.cons.norm(ds[e][3] - ds[e - 1][3])
                if s.t or abs(s.c) != 1 or a not in (None, s.c): break
                a = s.c; e += 1
            segs = put(st, segs, idx + j, d if e == j + 1 else (d[0], d[1], a, d[3] - (idx + j) * a), e - j)
            j = e
        q.fields[0] = (self.esize, 0, segs)
    def copy_bytes(self, st, d, s, n):
        if n.const() and (self.inrange(d) or self.inrange(s)):
            if n.c == 0: return
            if n.c > 64: raise Unanalysable("copy of %d bytes" % n.c)
            t = ["i", 8 * n.c]
            v = self.load(st, s, t) if self.inrange(s) else self.lo(st, s, n.c)
            if self.inrange(d): self.store(st, d, v, t)
            else: Interp.store(self, st, d, v if isb(v) else ("bits", self.bits(st, v, t)), t)
            return
        return Interp.copy_bytes(self, st, d, s, n)
    def lo(self, st, p, n):
        try: return Interp.load(self, st, p, ["i", 8 * n])
        except Unanalysable: return ("bits", tuple(b for k in range(n) for b in self.bits(st, Interp.load(self, st, ptadd(p, L.k(k)), ["i", 8]), ["i", 8])))
    def memcopy(self, st, d, s, n):
        n = st.cons.norm(n)
        if not n.const() and self.inrange(d) and self.inrange(s):
            q = n.divmod(self.esize); x, y = (st.cons.norm(z[2]).divmod(self.esize) for z in (d, s))
            if q is None or q[1] or None in (x, y) or x[1] or y[1]: raise Unanalysable("copy of a symbolic number of bytes")
            k = q[0]
            if not st.ge(k): raise Bad("mem", "copies a negative number of bytes")
            if st.eq(k): return
            for z, nm in ((x[0], d[1]), (y[0], s[1])):
                if not st.ge(z) or not st.ge(st.mem[nm].len - z - k): raise Bad("mem", "copy outside the range")
            pcs = split_range(st, st.mem[s[1]].fields[0][2], y[0], y[0] + k)
            r = st.wreg(d[1]); segs = r.fields[0][2]; dl = x[0] - y[0]
            for lo, hi, e in pcs:
                if e[0] == "o": e = (e[0], e[1], e[2], e[3] - dl * e[2])
                segs = put(st, segs, lo + dl, e, hi - lo)
            r.fields[0] = (self.esize, 0, segs)
            return
        return Interp.memcopy(self, st, d, s, n)
    def load_global(self, st, p, t):
        g = self.m["globals"].get(p[1][1:])
        if g is not None and not g.get("const"):
            v = self.ctor_value(p[1][1:])
            if v is None or st.cons.norm(p[2]).t or st.cons.norm(p[2]).c: raise Unanalysable("reads the global " + p[1])
            o = v; x = self.op(st, o)
            if bw(o["t"]) < bw(t): raise Unanalysable("reads the global " + p[1])
            return self.unbits(self.bits(st, x, o["t"])[:bw(t)], t)
        if t[0] == "v": 
            n = bw(t[2]) // 8
            return [Interp.load_global(self, st, ptadd(p, L.k(k * n)), t[2]) for k in range(t[1])]
        return Interp.load_global(self, st, p, t)
    ctors = None
    def ctor_value(self, name):
        """the constant a dynamic initialiser stores, when it is the only store to the object"""
        if self.ctors is None:
            self.ctors = {}
            for fn, f in self.m["functions"].items():
                if f["decl"]: continue
                for b in f["blocks"]:
                    for i in b["ins"]:
                        if i["op"] == "store" and i["ops"][1].get("k") == "g": self.ctors.setdefault(i["ops"][1]["n"], []).append((fn, i["ops"][0]))
        v = self.ctors.get(name, [])
        if len(v) == 1 and v[0][0].startswith("__cxx_global_var_init") and v[0][1]["k"] not in ("v",): return v[0][1]
        return None
    # ---- instructions
    def ins(self, fn, i, st, bid):
        o = i["op"]; ops = i.get("ops") or []; env = st.env
        if o in ("load", "store"):
            p = self.op(st, ops[0 if o == "load" else 1])
            if self.inrange(p) and i.get("align", 1) > self.ealign: raise Bad("mem", "%s assumes an alignment of %d bytes; elements are aligned to %d" % ("read" if o == "load" else "write", i["align"], self.ealign))
            return Interp.ins(self, fn, i, st, bid)
        if o in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem"):
            t = i["t"]; a, b = (self.op(st, x) for x in ops)
            if t[0] == "v" or isb(a) or isb(b): env[i["id"]] = self.vop(st, o, a, b, t); return
            return Interp.ins(self, fn, i, st, bid)
        if o == "icmp":
            a, b = (self.op(st, x) for x in ops); t = ops[0]["t"]
            if t[0] == "v":
                w = bw(t[2]); x, y = self.bits(st, a, t), self.bits(st, b, t); out = []
                for k in range(t[1]):
                    p, q = x[k * w:(k + 1) * w], y[k * w:(k + 1) * w]
                    if i["pred"] in ("eq", "ne"):
                        f = self.eqbits(p, q); out.append(f if i["pred"] == "eq" or f == "u" else fnot(f))
                    elif i["pred"] == "slt" and all(z == 0 for z in q): out.append(p[-1])
                    elif i["pred"] == "sgt" and all(z == 0 for z in p): out.append(q[-1])
                    elif i["pred"] == "sgt" and all(z == 1 for z in q): out.append(p[-1] if p[-1] == "u" else fnot(p[-1]))
                    else: raise Unanalysable("order of element bits")
                env[i["id"]] = self.unbits(out, i["t"]); return
            env[i["id"]] = ("c", i["pred"], a, b); return
        if o == "fcmp":
            if i["t"][0] == "v": raise Unanalysable("vector floating comparison")
            env[i["id"]] = ("fc", i["pred"], self.op(st, ops[0]), self.op(st, ops[1])); return
        if o in ("sext", "zext", "trunc"):
            v = self.op(st, ops[0]); t, s = i["t"], ops[0]["t"]
            if t[0] == "v" or isb(v):
                el = lambda z: z[2] if z[0] == "v" else z
                x = self.bits(st, v, s); w, w2 = bw(el(s)), bw(el(t)); out = []
                for k in range(len(x) // w):
                    e = x[k * w:(k + 1) * w]
                    out += e[:w2] if o == "trunc" else e + ((0,) if o == "zext" else e[-1:]) * (w2 - w)
                env[i["id"]] = self.unbits(out, t); return
            return Interp.ins(self, fn, i, st, bid)
        if o in ("bitcast", "freeze"):
            v = self.op(st, ops[0])
            if i["t"][0] in ("v", "i", "f") and (isb(v) or isinstance(v, list) or ops[0]["t"][0] == "v"):
                env[i["id"]] = self.unbits(self.bits(st, v, ops[0]["t"]), i["t"]); return
            env[i["id"]] = v; return
        if o in ("ptrtoint", "inttoptr"):
            v = self.op(st, ops[0])
            if isb(v): env[i["id"]] = v; return
            return Interp.ins(self, fn, i, st, bid)
        if o == "insertelement":
            t = i["t"]; w = bw(t[2]); k = st.cons.norm(self.int(self.op(st, ops[2])))
            if not k.const(): raise Unanalysable("lane chosen at run time")
            v = self.op(st, ops[0]); b = list(self.bits(st, v, t)); b[k.c * w:(k.c + 1) * w] = self.bits(st, self.op(st, ops[1]), t[2])
            env[i["id"]] = ("bits", tuple(b)); return
        if o == "extractelement":
            t = ops[0]["t"]; w = bw(t[2]); k = st.cons.norm(self.int(self.op(st, ops[1])))
            if not k.const(): raise Unanalysable("lane chosen at run time")
            env[i["id"]] = self.unbits(self.bits(st, self.op(st, ops[0]), t)[k.c * w:(k.c + 1) * w], i["t"]); return
        if o == "shufflevector":
            t = ops[0]["t"]; w = bw(t[2]); b = self.bits(st, self.op(st, ops[0]), t) + self.bits(st, self.op(st, ops[1]), t); out = []
            for m in i["mask"]: out += b[m * w:(m + 1) * w] if m >= 0 else ("u",) * w
            env[i["id"]] = self.unbits(out, i["t"]); return
        if o == "select" and (ops[0]["t"][0] == "v"):
            t = i["t"]; w = bw(t[2]); c = self.bits(st, self.op(st, ops[0]), ops[0]["t"]); a, b = (self.bits(st, self.op(st, x), t) for x in ops[1:])
            out = []
            for k, f in enumerate(c):
                for x, y in zip(a[k * w:(k + 1) * w], b[k * w:(k + 1) * w]): out.append(self.mux(f, x, y))
            env[i["id"]] = self.unbits(out, t); return
        if o == "ret":
            v = self.op(st, ops[0]) if ops else None
            if isinstance(v, tuple) and v and v[0] == "fc": v = self.truth(st, v)
            return "fin", [Final("ret", v, st, i.get("loc"))]
        return Interp.ins(self, fn, i, st, bid)
    def mux(self, f, x, y):
        if x == y: return x
        if f in (0, 1): return x if f else y
        if x in (0, 1) and y in (0, 1): return f if x else fnot(f)
        if isinstance(x, tuple) and x[0] == "e" or isinstance(y, tuple) and y[0] == "e": return ("mux", f, x, y)
        return for_(fand(f, x), fand(fnot(f), y))
    def vop(self, st, o, a, b, t):
        el = t[2] if t[0] == "v" else t
        w = bw(el); x, y = self.bits(st, a, t), self.bits(st, b, t)
        if o in ("and", "or", "xor"):
            g = {"and": fand, "or": for_, "xor": fxor}[o]
            def one(p, q):
                if p == "u" or q == "u": return 0 if o == "and" and 0 in (p, q) else 1 if o == "or" and 1 in (p, q) else "u"
                return g(p, q)
            return self.unbits([one(p, q) for p, q in zip(x, y)], t)
        out = []
        for k in range(len(x) // w):
            p, q = x[k * w:(k + 1) * w], y[k * w:(k + 1) * w]
            if o in ("shl", "lshr", "ashr"):
                if not all(z in (0, 1) for z in q): raise Unanalysable("shift by element bits")
                n = sum(z << j for j, z in enumerate(q))
                if n >= w: out += ["u"] * w; continue
                out += ((0,) * n + p)[:w] if o == "shl" else p[n:] + ((0,) if o == "lshr" else p[-1:]) * n
                continue
            if o == "sub" and all(z == 0 for z in p) and len({*q}) == 1: out += self.neg1(q, w); continue
            if all(z in (0, 1) for z in p + q):
                m, n = (sum(z << j for j, z in enumerate(s)) for s in (p, q))
                if o in ("add", "sub", "mul"): r = {"add": m + n, "sub": m - n, "mul": m * n}[o]
                elif o in ("udiv", "urem") and n: r = m // n if o == "udiv" else m % n
                else: raise Unanalysable("vector " + o)
                out += [(r >> j) & 1 for j in range(w)]; continue
            if t[0] == "v": raise Unanalysable("vector arithmetic")
            if any(isinstance(z, tuple) and z[0] in ("e", "mux") for z in p + q): raise Unanalysable("arithmetic on element bits")
            # a mask: decide its bits
            m, n = self.fixed(st, p), self.fixed(st, q)
            r = {"add": m + n, "sub": m - n, "mul": m * n}.get(o)
            if r is None:
                if o not in ("udiv", "urem") or not n: raise Unanalysable("division of a mask")
                r = m // n if o == "udiv" else m % n
            out += [(r >> j) & 1 for j in range(w)]
        return self.unbits(out, t)
    def neg1(self, q, w): return [q[0]] + [0] * (w - 1) if w == 1 else self.un("negation of a mask")
    def un(self, s): raise Unanalysable(s)
    def intrinsic(self, i, st, n, a):
        ar = [x for x in i["args"]]; fc = lambda v: self.finish_call(i, st, v)
        if ".pmovmskb" in n: b = self.bits(st, a[0], ar[0]["t"]); return fc(self.unbits(b[7::8] + (0,) * (32 - len(b) // 8), i["t"]))
        if ".movmsk." in n:
            b = self.bits(st, a[0], ar[0]["t"]); w = bw(ar[0]["t"][2]); m = b[w - 1::w]; return fc(self.unbits(m + (0,) * (32 - len(m)), i["t"]))
        if ".pshuf.b" in n:
            b, s = self.bits(st, a[0], ar[0]["t"]), self.bits(st, a[1], ar[1]["t"]); out = []
            for k in range(len(b) // 8):
                c = s[k * 8:k * 8 + 8]
                if not all(z in (0, 1) for z in c): raise Unanalysable("shuffle chosen at run time")
                c = sum(z << j for j, z in enumerate(c)); j = (k & ~15) + (c & 15)
                out += (0,) * 8 if c & 128 else b[j * 8:j * 8 + 8]
            return fc(self.unbits(out, i["t"]))
        if ".permd" in n or ".permps" in n:
            b, s = self.bits(st, a[0], ar[0]["t"]), self.bits(st, a[1], ar[1]["t"]); out = []
            for k in range(8):
                c = s[k * 32:k * 32 + 3]
                if not all(z in (0, 1) for z in c): raise Unanalysable("shuffle chosen at run time")
                c = sum(z << j for j, z in enumerate(c)); out += b[c * 32:c * 32 + 32]
            return fc(self.unbits(out, i["t"]))
        if ".ptestz" in n or ".ptestc" in n:
            x, y = self.bits(st, a[0], ar[0]["t"]), self.bits(st, a[1], ar[1]["t"])
            fs = [fand(p if "ptestz" in n else fnot(p), q) for p, q in zip(x, y)]
            z = not any(self.ev(st, f) for f in dict.fromkeys(f for f in fs if f != 0)); return fc(("i", L1 if z else LZ, 32))
        if n.startswith(("llvm.cttz", "llvm.ctlz", "llvm.ctpop")) and i["t"][0] == "i" and isb(a[0]):
            b = self.bits(st, a[0], i["t"])
            if n[5:9] == "ctpo": return fc(("i", L.k(sum(self.ev(st, f) for f in b)), i["t"][1]))
            for k, f in enumerate(b if n[5:9] == "cttz" else b[::-1]):
                if self.ev(st, f): return fc(("i", L.k(k), i["t"][1]))
            if a[1] is True: return fc(U)
            return fc(("i", L.k(len(b)), i["t"][1]))
        if n.startswith(("llvm.cttz", "llvm.ctlz", "llvm.ctpop")) and i["t"][0] == "i" and isinstance(a[0], tuple) and a[0][0] == "i" and st.cons.norm(a[0][1]).const():
            w = i["t"][1]; c = st.cons.norm(a[0][1]).c % (1 << w)
            if n[5:9] == "ctpo": r = bin(c).count("1")
            elif c == 0:
                if a[1] is True: return fc(U)
                r = w
            else: r = (c & -c).bit_length() - 1 if n[5:9] == "cttz" else w - c.bit_length()
            return fc(("i", L.k(r), w))
        if n.startswith(("llvm.bswap", "llvm.bitreverse")):
            b = self.bits(st, a[0], ar[0]["t"]); el = ar[0]["t"][2] if ar[0]["t"][0] == "v" else ar[0]["t"]; w = bw(el); out = []
            for k in range(len(b) // w):
                e = b[k * w:(k + 1) * w]
                out += e[::-1] if "bitrev" in n else sum((e[j:j + 8] for j in range(w - 8, -1, -8)), ())
            return fc(self.unbits(out, i["t"]))
        if n.startswith(("llvm.fshl", "llvm.fshr")):
            x, y, c = (self.bits(st, a[k], ar[k]["t"]) for k in range(3)); el = ar[0]["t"][2] if ar[0]["t"][0] == "v" else ar[0]["t"]; w = bw(el); out = []
            for k in range(len(x) // w):
                z = c[k * w:(k + 1) * w]
                if not all(q in (0, 1) for q in z): raise Unanalysable("rotation")
                z = sum(q << j for j, q in enumerate(z)) % w; e = y[k * w:(k + 1) * w] + x[k * w:(k + 1) * w]
                out += e[w - z:2 * w - z] if "fshl" in n else e[z:z + w]
            return fc(self.unbits(out, i["t"]))
        if n.startswith(("llvm.vector.reduce.or", "llvm.vector.reduce.and")):
            b = self.bits(st, a[0], ar[0]["t"]); w = bw(i["t"]); g = for_ if ".or" in n else fand; out = list(b[:w])
            for k in range(1, len(b) // w): out = [g(p, q) for p, q in zip(out, b[k * w:(k + 1) * w])]
            return fc(self.unbits(out, i["t"]))
        return Interp.intrinsic(self, i, st, n, a)
    # element comparison of user types
    def x_t_eq(self, st, i, a):
        x = []
        for p in a[:2]:
            v = self.load(st, p, ["i", 8 * self.esize]) if self.inrange(p) else self.lo(st, p, self.esize)
            w = self.whole(st, self.bits(st, v, ["i", 8 * self.esize]))
            if w is None: raise Bad("content", "compares something that is not an element")
            x.append((w[1], w[3]))
        x.sort(key=lambda e: e[0])
        if [e[0] for e in x] != ["S", "V"]: raise Unanalysable("compares two elements")
        return self.at(st, x[0][1])

def world(n, esize, value=True):
    st = State(); st.cons.add_ge(n); st.cons.add_ge(-n + (1 << 40))
    r = Reg("S", esize, n, "arg"); r.fields[0] = (esize, 0, ((LZ, n, ("o", "S", 1, LZ)),)); st.mem["S"] = r
    if value:
        q = Reg("S~", 1, n, "arg"); q.fields[0] = (1, 0, ((LZ, n, ("v", ("q",))),)); st.mem["S~"] = q
        v = Reg("V", esize, L1, "arg"); v.fields[0] = (esize, 0, ((LZ, L1, ("o", "V", 0, LZ)),)); st.mem["V"] = v
    return st
def kept(s, name="S"):
    x = segs_same(s, s.mem[name].fields[0][2], ((LZ, s.mem[name].len, ("o", name, 1, LZ)),))
    return [] if x is None else [("source", "the searched range is changed at position %r" % x[1])]
def found(s, v, esize):
    """problems of the returned position"""
    n = s.mem["S"].len
    if v == U or v[0] != "p" or v[1] != "S": return [("content", "find returns %s" % ("an undefined pointer" if v == U else v[1] if v[0] == "p" else v[0]))]
    q = s.cons.norm(v[2]).divmod(esize)
    if q is None or q[1]: return [("content", "find returns a pointer into the middle of an element")]
    r = q[0]
    if not s.ge(r) or not s.ge(n - r): return [("content", "find returns position %r of %r" % (s.cons.norm(r), s.cons.norm(n)))]
    segs = s.mem["S~"].fields[0][2]
    for lo, hi, d in split_range(s, segs, LZ, r):
        if d[1][0] != "ne": return [("content", "find returns position %r, the element at position %r %s" % (s.cons.norm(r), s.cons.norm(lo), "equals the value" if d[1][0] == "eq" else "was not compared and may equal the value"))]
    if s.eq(n - r): return []
    d = segs[locate(s, segs, r)][2][1][0]
    if d != "eq": return [("content", "find returns position %r, whose element %s the value" % (s.cons.norm(r), "differs from" if d == "ne" else "may differ from"))]
    return []
def reversed_(s, n):
    x = segs_same(s, s.mem["S"].fields[0][2], ((LZ, n, ("o", "S", -1, n + (-1))),))
    if x is None: return []
    d = x[2]
    return [("content", "position %r of %r holds %s, specified element %r" % (x[0].cons.norm(x[1]), x[0].cons.norm(n), "element %r" % x[0].cons.norm(d[3]) if d[0] == "o" else d[0] if d[0] != "v" else "a mixture", x[0].cons.norm(x[3][3]) if x[3][0] == "o" else x[3]))]
