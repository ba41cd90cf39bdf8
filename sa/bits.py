"""Known-bits + interval abstract interpretation of a scalar function with partitioning of its argument
(used for has_single_bit: the argument space is partitioned into 0, 2^k, and 'lowest set bit j, next set bit k,
anything above')."""
from . import ir

class Undecided(Exception): pass
class B:
    """value of width w: known zero bits z, known one bits o, unsigned range [lo, hi]"""
    __slots__ = ("w", "z", "o", "lo", "hi")
    def __init__(s, w, z, o, lo=0, hi=None):
        m = (1 << w) - 1; s.w = w; s.z = z & m; s.o = o & m
        s.lo = max(lo, s.o); s.hi = min(m if hi is None else hi, m & ~s.z)
        if s.lo > s.hi: raise Undecided("empty value")
        # bits above the highest differing bit of lo and hi are known
        d = (s.lo ^ s.hi).bit_length(); k = m & ~((1 << d) - 1)
        s.o |= s.lo & k; s.z |= ~s.lo & k & m
    def const(s): return s.lo if s.lo == s.hi else None
    @staticmethod
    def c(w, v): v &= (1 << w) - 1; return B(w, ~v, v, v, v)

def top(w): return B(w, 0, 0)
def add(a, b, cin=0):
    w = a.w; m = (1 << w) - 1
    z = o = 0; c0 = c1 = cin        # carry possible 0 / 1 sets encoded as min, max carry
    cmin = cmax = cin
    for i in range(w):
        bit = 1 << i
        amin = 1 if a.o & bit else 0; amax = 0 if a.z & bit else 1
        bmin = 1 if b.o & bit else 0; bmax = 0 if b.z & bit else 1
        smin, smax = amin + bmin + cmin, amax + bmax + cmax
        if smin == smax:
            if smin & 1: o |= bit
            else: z |= bit
        cmin, cmax = smin >> 1, smax >> 1
    lo, hi = a.lo + b.lo + cin, a.hi + b.hi + cin
    if lo > m: lo, hi = lo - m - 1, hi - m - 1
    if hi > m: lo, hi = 0, m
    return B(w, z, o, lo, hi)
def inv(a):
    m = (1 << a.w) - 1
    return B(a.w, a.o, a.z, m - a.hi, m - a.lo)
def sub(a, b): return add(a, inv(b), 1)
def and_(a, b): return B(a.w, a.z | b.z, a.o & b.o)
def or_(a, b): return B(a.w, a.z & b.z, a.o | b.o)
def xor(a, b): return B(a.w, (a.z & b.z) | (a.o & b.o), (a.z & b.o) | (a.o & b.z))
def zext(a, w): return B(w, a.z | (((1 << w) - 1) & ~((1 << a.w) - 1)), a.o, a.lo, a.hi)
def trunc(a, w): 
    m = (1 << w) - 1
    return B(w, a.z & m, a.o & m, *((a.lo, a.hi) if a.hi <= m else (0, m)))
def sext(a, w):
    s = 1 << (a.w - 1); hi = ((1 << w) - 1) & ~((1 << a.w) - 1)
    return B(w, a.z | (hi if a.z & s else 0), a.o | (hi if a.o & s else 0))
def pop(x): return bin(x).count("1")
def ctpop(a): return B(a.w, 0, 0, pop(a.o), a.w - pop(a.z))
def ctz(a):
    w = a.w; n = 0
    while n < w and a.z >> n & 1: n += 1
    m = n
    while m < w and not a.o >> m & 1: m += 1
    return B(w, 0, 0, min(n, w), min(m, w)) if w > 8 or w <= (1 << w) - 1 else top(w)
def ctlz(a): 
    def rev(x): return int(bin(x | 1 << a.w)[3:][::-1], 2)
    return ctz(B(a.w, rev(a.z), rev(a.o)))
def signed(a):
    s = 1 << (a.w - 1)
    if a.z & s or a.hi < s: return a.lo, a.hi
    if a.o & s or a.lo >= s: return a.lo - 2 * s, a.hi - 2 * s
    return -s, s - 1
def tri(t, f): return B.c(1, 1) if t else B.c(1, 0) if f else top(1)
def icmp(p, a, b):
    if p in ("eq", "ne"):
        diff = (a.o & b.z) | (a.z & b.o) or a.lo > b.hi or b.lo > a.hi
        same = a.const() is not None and a.const() == b.const()
        return tri(same, diff) if p == "eq" else tri(diff, same)
    (al, ah), (bl, bh) = ((a.lo, a.hi), (b.lo, b.hi)) if p[0] == "u" else (signed(a), signed(b))
    o = p[1:]
    if o == "lt": return tri(ah < bl, al >= bh)
    if o == "le": return tri(ah <= bl, al > bh)
    if o == "gt": return tri(al > bh, ah <= bl)
    return tri(al >= bh, ah < bl)
def shift(op, a, b):
    k = b.const()
    if k is None or k >= a.w: raise Undecided("shift by an unknown amount")
    m = (1 << a.w) - 1
    if op == "shl": return B(a.w, (a.z << k) | ((1 << k) - 1), a.o << k)
    if op == "lshr": return B(a.w, (a.z >> k) | (m & ~(m >> k)), a.o >> k, a.lo >> k, a.hi >> k)
    s = 1 << (a.w - 1); hi = m & ~(m >> k)
    return B(a.w, (a.z >> k) | (hi if a.z & s else 0), (a.o >> k) | (hi if a.o & s else 0))

def evaluate(f, args, fuel=20000):
    """abstract result of a function over scalars; control must be decided by the partition"""
    env = {a["id"]: v for a, v in zip(f["args"], args)}
    blocks = {b["id"]: b for b in f["blocks"]}
    cur = f["blocks"][0]["id"]; prev = None
    def op(o):
        if o["k"] == "v": return env[o["id"]]
        if o["k"] == "ci": return B.c(o["t"][1], int(o["v"]))
        if o["k"] in ("undef", "poison"): return top(o["t"][1])
        raise Undecided("operand " + o["k"])
    while True:
        nxt = None; phis = {}
        for i in blocks[cur]["ins"]:
            fuel -= 1
            if fuel < 0: raise Undecided("too many steps")
            k = i["op"]
            if k == "phi":
                phis[i["id"]] = next(op(v) for v, b in i["inc"] if b == prev); continue
            if phis: env.update(phis); phis = {}
            if k == "ret": return op(i["ops"][0])
            if k == "br":
                if "cond" not in i: nxt = i["succ"][0]; break
                c = op(i["cond"]).const()
                if c is None: raise Undecided("branch not decided by the partition")
                nxt = i["succ"][0 if c else 1]; break
            if k == "switch":
                c = op(i["cond"]).const()
                if c is None: raise Undecided("switch not decided by the partition")
                nxt = next((b for v, b in i["cases"] if int(v) == c), i["default"]); break
            if k == "call":
                n = i["callee"].get("n", "")
                if n.startswith("llvm.ctpop."): env[i["id"]] = ctpop(op(i["args"][0]))
                elif n.startswith("llvm.cttz."): env[i["id"]] = ctz(op(i["args"][0]))
                elif n.startswith("llvm.ctlz."): env[i["id"]] = ctlz(op(i["args"][0]))
                elif n.startswith("llvm.lifetime") or n.startswith("llvm.assume"): pass
                elif n.startswith("llvm.umin."): 
                    a, b = map(op, i["args"][:2]); env[i["id"]] = B(a.w, 0, 0, min(a.lo, b.lo), min(a.hi, b.hi))
                else: raise Undecided("call of " + n)
                continue
            o = [op(x) for x in i.get("ops", [])]
            if i["t"][0] != "i": raise Undecided("type of " + k)
            w = i["t"][1]
            if k == "add": r = add(*o)
            elif k == "sub": r = sub(*o)
            elif k == "and": r = and_(*o)
            elif k == "or": r = or_(*o)
            elif k == "xor": r = xor(*o)
            elif k == "icmp": r = icmp(i["pred"], *o)
            elif k == "zext": r = zext(o[0], w)
            elif k == "sext": r = sext(o[0], w)
            elif k == "trunc": r = trunc(o[0], w)
            elif k in ("shl", "lshr", "ashr"): r = shift(k, *o)
            elif k == "select":
                c = o[0].const()
                r = (o[1] if c else o[2]) if c is not None else B(w, o[1].z & o[2].z, o[1].o & o[2].o, min(o[1].lo, o[2].lo), max(o[1].hi, o[2].hi))
            elif k == "freeze": r = o[0]
            elif k == "mul" or k in ("udiv", "urem"):
                a, b = o[0].const(), o[1].const()
                if a is None or b is None or (k != "mul" and not b): raise Undecided(k + " of unknown values")
                r = B.c(w, a * b if k == "mul" else a // b if k == "udiv" else a % b)
            else: raise Undecided("instruction " + k)
            env[i["id"]] = r
        prev, cur = cur, nxt

def single_bit(chk, rule, H):
    T = {"unsigned char": 8, "unsigned short": 16, "unsigned": 32, "unsigned long": 64, "unsigned long long": 64}
    names = {t: "sb_" + t.replace(" ", "_") for t in T}
    src = H + "".join('extern "C" bool %s(%s n) { return xme::has_single_bit(n); }\n' % (names[t], t) for t in T)
    try: m = ir.compile_ir(src)
    except ir.BuildError as e:
        chk.fail(rule, "has_single_bit", "does not compile: " + " / ".join(l for l in e.out.splitlines() if "error:" in l)[:400]); return
    for t, w in T.items():
        f = m["functions"][names[t]]; chk.note_fn(m, names[t])
        loc = next((ir.where(i.get("loc")) for b in f["blocks"] for i in b["ins"] if i.get("loc") and "has_single_bit" in ir.where(i["loc"])), "?")
        mask = (1 << w) - 1
        parts = [("zero", B.c(w, 0), 0)] + [("2^%d" % k, B.c(w, 1 << k), 1) for k in range(w)]
        parts += [("lowest set bits %d and %d" % (j, k), B(w, ((1 << k) - 1) & ~(1 << j), (1 << j) | (1 << k)), 0) for k in range(w) for j in range(k)]
        for d, v, want in parts:
            chk.count("argument partitions")
            try: r = evaluate(f, [v])
            except Undecided as e: chk.undecided(rule, "%s on %s" % (t, d), str(e)); break
            if r.const() is None: chk.undecided(rule, "%s on %s" % (t, d), "result not determined by the partition"); break
            if r.const() != want:
                chk.fail(rule, "has_single_bit(%s) for every value with %s" % (t, d), "returns %s" % bool(r.const()), loc); break
        else: chk.ok(rule, "has_single_bit(%s) on all %d partitions" % (t, len(parts)), "true exactly on the powers of two")
