"""Engine B: abstract interpretation of container code over typestate segmentations.

Memory is a set of regions, each a symbolic number of equally sized records.  For every record field the analysis keeps a
segmentation of the index space [0,len): consecutive index ranges with symbolic (linear) bounds, each with one descriptor
(raw, live with the value that came from R[a*i+c], moved-from, pointer to R[a*i+c], null, ...).  States are disjunctions of
such memories with linear constraints over the sizes, positions and counts.  A loop is summarised by extrapolating the
state after k iterations from two successive ones and then proving, by analysing the body once from that general state,
that it is inductive (phases that differ are chained); what cannot be generalised is reported as not analysable, never
assumed."""
from .lin import L, ZERO as LZ, ONE as L1, Cons, tighten
from . import ir
from .vn import nbytes

class Unanalysable(Exception): pass
class Fork(Exception):
    def __init__(s, e): s.e = e           # linear: split on e >= 0 / e <= -1
class ForkB(Exception):
    def __init__(s, name): s.name = name  # split on an opaque boolean
class ForkS(ForkB):
    def __init__(s, states): s.states = states   # given successor states
class ForkN(Exception):
    def __init__(s, alts): s.alts = alts  # alternatives: lists of (e >= 0)
class Bad(Exception):
    """a definite violation on the current path"""
    def __init__(s, kind, msg): s.kind = kind; s.msg = msg
class Terminate(Exception): pass
class Dead(Exception): pass               # the path is infeasible or leaves the precondition

ESZ = 24
RAW = ("raw",); MV = ("mv",); UND = ("undef",); NULLD = ("null",); LIVE = ("live",); FREED = ("freed",)
U = ("u",)
NULL = ("p", "null", LZ)
HUGE = 1 << 52

def I(l, w=64): return ("i", l if isinstance(l, L) else L.k(l), w)
def Pt(r, l=LZ): return ("p", r, l if isinstance(l, L) else L.k(l))

class Reg:
    __slots__ = ("name", "esize", "len", "kind", "fields", "elems", "st", "allocn", "subs", "site", "ro", "owner")
    def __init__(s, name, esize, len_, kind, allocn=None):
        s.name = name; s.esize = esize; s.len = len_; s.kind = kind
        s.fields = {}     # offset -> (size, type tag, segs)
        s.elems = {}      # offset -> segs
        s.st = ((LZ, len_, LIVE),)
        s.allocn = allocn; s.subs = (); s.site = None; s.ro = False; s.owner = None
    def copy(s):
        r = Reg.__new__(Reg)
        r.name = s.name; r.esize = s.esize; r.len = s.len; r.kind = s.kind; r.fields = dict(s.fields); r.elems = dict(s.elems)
        r.st = s.st; r.allocn = s.allocn; r.subs = s.subs; r.site = s.site; r.ro = s.ro; r.owner = s.owner
        return r

class State:
    __slots__ = ("cons", "mem", "env", "log", "events", "facts", "n", "trace")
    def __init__(s):
        s.cons = Cons(); s.mem = {}; s.env = {}; s.log = (); s.events = (); s.facts = {}; s.n = 0; s.trace = ()
    def copy(s):
        r = State.__new__(State)
        r.cons = s.cons.copy(); r.mem = dict(s.mem); r.env = dict(s.env); r.log = s.log; r.events = s.events; r.facts = s.facts; r.n = s.n; r.trace = s.trace
        return r
    # ---- decisions
    def ge(s, e):
        """decide e >= 0, forking when open"""
        e = s.cons.norm(e)
        if not e.t: return e.c >= 0
        if abs(e.c) >= HUGE: return e.c > 0          # sizes stay below 2^48
        if s.cons.ge0(e): s.log = s.log + (e,); return True
        if s.cons.ge0(-e + (-1)): s.log = s.log + (-e + (-1),); return False
        raise Fork(e)
    def eq(s, e):
        e = s.cons.norm(e)
        if not e.t: return e.c == 0
        if not s.cons.sat_with(e): s.log = s.log + (-e + (-1),); return False
        if not s.cons.sat_with(-e): s.log = s.log + (e + (-1),); return False
        if any(True for x, _ in e.t if x[0] == "&"): return False    # an address is not a small number
        lo, hi = s.cons.ge0(e), s.cons.ge0(-e)
        if lo and hi: return True
        if tighten(e).t != e.t and e.div(gcd_of(e)) is None: return False
        if lo: raise ForkN([[-e], [e + (-1)]])
        if hi: raise ForkN([[e], [-e + (-1)]])
        raise ForkN([[e, -e], [e + (-1)], [-e + (-1)]])
    def assume(s, *es):
        for e in es:
            s.cons.add_ge(e); s.log = s.log + (e,)
    def reg(s, name):
        r = s.mem.get(name)
        if r is None: raise Unanalysable("unknown object " + str(name))
        return r
    def wreg(s, name):
        r = s.reg(name).copy(); s.mem[name] = r
        return r
    def fresh(s, p):
        s.n += 1
        return "%s%d" % (p, s.n)

def gcd_of(e):
    from math import gcd
    g = 0
    for _, c in e.t: g = gcd(g, c)
    return g or 1

# ------------------------------------------------------------------ segmentations
def d_at(d, x):
    """descriptor as a constant one, at index x"""
    if d[0] in ("o", "ptr", "int"): return (d[0], d[1], 0, x * d[2] + d[3]) + d[4:]
    return d
def d_single(d): return d[0] in ("o", "ptr", "int")
def d_norm(cons, d):
    if d[0] in ("o", "ptr", "int"): return (d[0], d[1], d[2], cons.norm(d[3])) + d[4:]
    return d
def as_affine(cons, lo, hi, d, a):
    """the descriptor over [lo,hi) in the form a*x+c, or None"""
    if d[0] not in ("o", "ptr", "int"): return None
    if d[2] == a: return d_norm(cons, d)
    if cons.eq0(hi - lo + (-1)): return d_norm(cons, (d[0], d[1], a, lo * d[2] + d[3] - lo * a) + d[4:])
    return None
def same_d(cons, lo, hi, d1, d2):
    """do d1 and d2 agree on [lo,hi)?"""
    if d1 == d2: return True
    if d1[0] != d2[0]: return False
    if d1[0] in ("o", "ptr", "int"):
        if d1[1] != d2[1] or d1[4:] != d2[4:]: return False
        if d1[2] == d2[2]: return cons.eq0(d1[3] - d2[3])
        if cons.eq0(hi - lo + (-1)): return cons.eq0(lo * d1[2] + d1[3] - lo * d2[2] - d2[3])
        return False
    return False
def merge(cons, segs):
    out = []
    for lo, hi, d in segs:
        if cons.eq0(hi - lo): continue
        if out:
            lo0, hi0, d0 = out[-1]
            if d0 == d: out[-1] = (lo0, hi, d); continue
            if d0[0] == d[0] and d[0] in ("o", "ptr", "int") and d0[1] == d[1] and d0[4:] == d[4:]:
                done = False
                for a in (1, 0, -1):
                    x, y = as_affine(cons, lo0, hi0, d0, a), as_affine(cons, lo, hi, d, a)
                    if x is not None and y is not None and cons.eq0(x[3] - y[3]):
                        out[-1] = (lo0, hi, x); done = True; break
                if done: continue
        out.append((lo, hi, d))
    return tuple(out)
def locate(st, segs, x):
    """the segment holding index x (forks when undecided)"""
    c = st.cons
    cand = []
    for i, (lo, hi, d) in enumerate(segs):
        a, b = x - lo, hi - x + (-1)
        if c.ge0(a) and c.ge0(b):
            st.log = st.log + (c.norm(a), c.norm(b))
            return i
        if c.sat_with(a, b): cand.append((i, a, b))
    if not cand: return None
    if len(cand) == 1 and not c.sat_with(segs[0][0] - x + (-1)) and not c.sat_with(x - segs[-1][1]): return cand[0][0]
    alts = [[a, b] for _, a, b in cand]
    if c.sat_with(segs[0][0] - x + (-1)): alts.append([segs[0][0] - x + (-1)])
    if c.sat_with(x - segs[-1][1]): alts.append([x - segs[-1][1]])
    if len(alts) == 1: return cand[0][0]
    raise ForkN(alts)
def put(st, segs, x, d, n=None):
    """descriptor d at index x (or over [x, x+n))"""
    end = x + (n if n is not None else 1)
    i = locate(st, segs, x)
    if i is None: raise Unanalysable("index outside its segmentation")
    j = i
    if n is not None:
        if st.eq(end - x): return segs
        j = locate(st, segs, end + (-1))
    pre = segs[:i] + ((segs[i][0], x, segs[i][2]),)
    post = ((end, segs[j][1], segs[j][2]),) + segs[j + 1:]
    return merge(st.cons, pre + ((x, end, d),) + post)
def split_range(st, segs, lo, hi):
    """the pieces of segs on [lo,hi)"""
    out = []
    c = st.cons
    for a, b, d in segs:
        if st.ge(lo - b) or st.ge(a - hi): continue
        x = lo if st.ge(lo - a) else a
        y = hi if st.ge(b - hi) else b
        if st.ge(y - x + (-1)): out.append((x, y, d))
    return out
def segs_same(st, A, B, limit=64):
    """equality of two segmentations of the same index space, by case analysis on undecided order; returns
    (None) when equal or (state, position, d1, d2) for a definite difference"""
    work = [(st, list(A), list(B))]
    n = 0
    while work:
        s, a, b = work.pop(); n += 1
        if n > limit: raise Unanalysable("too many cases comparing contents")
        try:
            r = _cmp(s, a, b)
            if r is not None: return (s,) + r
        except (Fork, ForkN) as f:
            for s2 in forks(s, f): work.append((s2, a, b))
    return None
def _cmp(s, a, b):
    c = s.cons
    a = [x for x in a if not s_empty(s, x)]; b = [x for x in b if not s_empty(s, x)]
    while a and b:
        lo1, hi1, d1 = a[0]; lo2, hi2, d2 = b[0]
        if s.ge(hi2 - hi1): hi = hi1
        else: hi = hi2
        if not same_d(c, lo1, hi, d1, d2):
            if d1[0] == d2[0] and d1[0] in ("o", "ptr", "int") and d1[1] == d2[1] and d1[4:] == d2[4:]:
                # may agree on some positions only: decide at the first position
                if s.eq(lo1 * d1[2] + d1[3] - lo1 * d2[2] - d2[3]):
                    if d1[2] == d2[2] or s.eq(hi - lo1 + (-1)): pass
                    else: return (lo1 + 1, d_at(d1, lo1 + 1), d_at(d2, lo1 + 1))
                else: return (lo1, d_at(d1, lo1), d_at(d2, lo1))
            else: return (lo1, d_at(d1, lo1), d_at(d2, lo1))
        def adv(q):
            l, h, d = q[0]
            if s.eq(h - hi): q.pop(0)
            else: q[0] = (hi, h, d)
        adv(a); adv(b)
    if a: return (a[0][0], d_at(a[0][2], a[0][0]), ("end of sequence",))
    if b: return (b[0][0], ("end of sequence",), d_at(b[0][2], b[0][0]))
    return None
def s_empty(s, x): return not s.ge(x[1] - x[0] + (-1))
def forks(st, f):
    out = []
    if isinstance(f, Fork): alts = [[f.e], [-f.e + (-1)]]
    elif isinstance(f, ForkS): return [s for s in f.states if s.cons.sat()]
    elif isinstance(f, ForkB):
        for v in (True, False):
            s = st.copy(); s.facts = dict(s.facts); s.facts[f.name] = v; out.append(s)
        return out
    else: alts = f.alts
    for es in alts:
        s = st.copy(); s.assume(*es)
        if s.cons.sat(): out.append(s)
    return out

# ------------------------------------------------------------------ the interpreter
class Violation:
    def __init__(s, kind, msg, loc, st): s.kind = kind; s.msg = msg; s.loc = loc; s.st = st
    def __repr__(s): return "%s: %s at %s" % (s.kind, s.msg, ir.where(s.loc))

class Final:
    def __init__(s, kind, val, st, loc=None): s.kind = kind; s.val = val; s.st = st; s.loc = loc

class Interp:
    MAXSTATES = 4000; steps = 400000
    def __init__(self, module, throwing=(), externs=None, accelerate=True, peel=3, steps=None):
        self.m = module; self.throwing = set(throwing); self.externs = externs or {}; self._typeids = {}
        self.viol = []; self.cuts = []; self.acc = accelerate; self.peel = peel; self.steps = steps or self.steps
        self.loops = {}; self.nloops = 0; self.ninstr = 0; self.nk = 0; self.summaries = 0; self.depth = 0
        self.locals = {}
    # ---- entry
    def run(self, fname, args, st):
        f = self.m["functions"].get(fname)
        if not f or f["decl"]: raise Unanalysable("no body for " + fname)
        return self.call_fn(fname, args, st)
    def call_fn(self, fname, args, st):
        f = self.m["functions"][fname]
        self.depth += 1
        if self.depth > 40: raise Unanalysable("recursion in " + fname)
        env0 = st.env
        s = st.copy(); s.env = {}
        for a, v in zip(f["args"], args): s.env[a["id"]] = v
        outs = self.walk(fname, 0, None, s, None, None)
        self.depth -= 1
        for o in outs: o.st = o.st.copy(); o.st.env = dict(env0)
        return outs
    # ---- loops of a function
    def loop_info(self, fname):
        if fname in self.loops: return self.loops[fname]
        f = self.m["functions"][fname]
        succ = {b["id"]: succs(b["ins"][-1]) for b in f["blocks"]}
        n = len(succ); pred = {b: [] for b in succ}
        for b, ss in succ.items():
            for x in ss: pred[x].append(b)
        # dominators
        order = []; seen = set()
        stack = [(0, iter(succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen: seen.add(x); stack.append((x, iter(succ[x]))); break
            else: stack.pop(); order.append(b)
        order.reverse()
        dom = {b: set(order) for b in order}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0: continue
                ps = [dom[p] for p in pred[b] if p in seen]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]: dom[b] = d; ch = True
        heads = {}
        for b in order:
            for x in succ[b]:
                if x in dom[b]:
                    body = heads.setdefault(x, {x}); w = [b]
                    while w:
                        y = w.pop()
                        if y not in body: body.add(y); w.extend(p for p in pred[y] if p in seen)
        blocks = {b["id"]: b for b in f["blocks"]}
        self.loops[fname] = (blocks, heads)
        return self.loops[fname]
    def local_ids(self, fn, head):
        k = (fn, head)
        if k not in self.locals:
            blocks, heads = self.loop_info(fn)
            self.locals[k] = [i["id"] for b in heads[head] for i in blocks[b]["ins"] if not (b == head and i["op"] == "phi")]
        return self.locals[k]
    def walk(self, fn, block, pred, st, head, body):
        """interpret from the entry of `block`; inside a loop (head, body) stop at its back edge and exits"""
        blocks, heads = self.loop_info(fn)
        outs = []; work = [(block, pred, st, False)]
        while work:
            b, p, s, started = work.pop()
            if body is not None and not started:
                if b == head and p is not None:
                    s = self.phis(blocks[b], p, s)
                    for v in self.local_ids(fn, head): s.env.pop(v, None)
                    outs.append(Final("back", None, s)); continue
                if b not in body: outs.append(Final("exit", (b, p), s)); continue
            if b in heads and not (b == head and p is None) and not started:
                for o in self.loop(fn, b, p, s):
                    if o.kind == "exit": work.append((o.val[0], o.val[1], o.st, False))
                    else: outs.append(o)
                continue
            if p is not None and not started: s = self.phis(blocks[b], p, s)
            self.block(fn, blocks[b], s, work, outs)
            if len(work) + len(outs) > self.MAXSTATES: raise Unanalysable("too many states")
        return outs
    def phis(self, blk, pred, st):
        s = st.copy(); new = {}
        for i in blk["ins"]:
            if i["op"] != "phi": break
            for v, b in i["inc"]:
                if b == pred: new[i["id"]] = self.op(st, v)
        s.env.update(new)
        return s
    def block(self, fn, blk, st0, work, outs):
        """run a block; forked states restart at the same instruction"""
        ins = blk["ins"]; k0 = 0
        while k0 < len(ins) and ins[k0]["op"] == "phi": k0 += 1
        pend = [(k0, st0)]
        while pend:
            k, st = pend.pop()
            while True:
                i = ins[k]; self.ninstr += 1
                if self.ninstr > self.steps: raise Unanalysable("analysis budget exceeded")
                try:
                    snap = st.copy()
                    r = self.ins(fn, i, snap, blk["id"])
                except (Fork, ForkB, ForkN) as f:
                    for s in forks(st, f): pend.append((k, s))
                    if len(pend) > 600: raise Unanalysable("too many cases")
                    break
                except Dead: break
                except Terminate: outs.append(Final("term", None, snap, i.get("loc"))); break
                except Bad as e:
                    self.bad(e.kind, e.msg, i.get("loc"), snap); break
                st = snap
                if r is None: k += 1; continue
                kind = r[0]
                if kind == "go":
                    for b, s in r[1]: work.append((b, blk["id"], s, False))
                elif kind == "gofin":
                    for b, s in r[1]: work.append((b, blk["id"], s, False))
                    outs.extend(r[2])
                elif kind == "fin":
                    for o in r[1]: outs.append(o)
                elif kind == "multi":       # several successor states for the next instruction
                    for s in r[1]: pend.append((k + 1, s))
                    outs.extend(r[2] if len(r) > 2 else ())
                elif kind == "also":        # outcomes that leave the function besides normal completion
                    outs.extend(r[1]); k += 1; continue
                break
    def bad(self, kind, msg, loc, st):
        self.viol.append(Violation(kind, msg, loc, st))
        if len(self.viol) > 60: raise Unanalysable("too many violations")
    # ---- loop summarisation
    def loop(self, fn, h, pred, st):
        blocks, heads = self.loop_info(fn)
        body = heads[h]
        self.nloops += 1
        outs = []
        memo = {}
        def run(S):
            k = id(S)
            if k not in memo:
                nv = len(self.viol)
                fs = self.walk_from(fn, h, S, body)
                memo[k] = ([o for o in fs if o.kind != "back"], [o.st for o in fs if o.kind == "back"], self.viol[nv:], S)
                del self.viol[nv:]
            return memo[k][:3]
        def commit(S):
            ex, bk, vi = run(S)
            outs.extend(ex); self.viol.extend(vi)
            return bk
        def handle(S, peel, phase, seen=()):
            if phase > 8: raise Unanalysable("a loop changes behaviour too often (%s)" % where_fn(blocks[h]))
            for B in commit(S):
                if not self.acc and any(self.matches(B, o, {}) for o in seen + (S,)):
                    self.bad("hang", "the loop repeats without end", blocks[h]["ins"][-1].get("loc"), B); continue
                if self.acc and accelerate(B, phase): continue
                few = self.pows and all(not B.cons.norm(L.v(p)).t for p in self.pows)      # a fixed small capacity
                if peel + 1 >= self.peel + (8 if few else 0):
                    self.cuts.append((fn, where_fn(blocks[h]))); continue
                handle(B, peel + 1, phase, (seen + (S,))[-4:])
        def accelerate(S1, phase):
            ex1, bk1, _ = run(S1)
            for S2 in bk1:
                ex2, bk2, _ = run(S2)
                base = self.guess(S1, S2)
                if base is None: continue
                # first the continuations that keep the pattern
                for S3 in sorted(bk2, key=lambda S: self.guess(S2, S) is None):
                    invs = self.guess_inv(S1, S2, S3, base[1])
                    r = self.prove(fn, h, body, base, invs, self.well_formed(S1, base), run)
                    if r is None: continue
                    ex, rest, vi = r
                    self.summaries += 1
                    outs.extend(ex); self.viol.extend(vi)
                    for B in rest: handle(B, 0, phase + 1)
                    return True
            return False
        S0 = self.phis(blocks[h], pred, st)
        handle(S0, 0, 0)
        return outs
    def walk_from(self, fn, h, S, body):
        s = S.copy(); s.log = ()
        return self.walk(fn, h, None, s, h, body)
    def guess(self, S1, S2):
        """the state after k further iterations, extrapolated from two successive ones"""
        k = "%%k%d" % self.nk; self.nk += 1
        c2 = S2.cons
        K = L.v(k)
        def lin(a, b):
            d = c2.norm(b - a)
            if d.t: raise KeyError
            return a + K * d.c
        def val(a, b):
            if a == b: return a
            if isinstance(a, list) and isinstance(b, list) and len(a) == len(b): return [val(x, y) for x, y in zip(a, b)]
            if not (isinstance(a, tuple) and isinstance(b, tuple)) or a[0] != b[0]: raise KeyError
            if a[0] == "i": return ("i", lin(a[1], b[1]), a[2])
            if a[0] == "p" and a[1] == b[1]: return ("p", a[1], lin(a[2], b[2]))
            raise KeyError
        def desc(x, y, s):
            if x == y: return x
            if x[0] != y[0]: raise KeyError
            if x[0] in ("o", "ptr", "int") and x[1] == y[1] and x[4:] == y[4:]:
                (lo1, hi1, _), (lo2, hi2, _) = s
                if x[2] != y[2]:
                    z = as_affine(S1.cons, lo1, hi1, x, y[2])
                    if z is None:
                        y2 = as_affine(S2.cons, lo2, hi2, y, x[2])
                        if y2 is None: raise KeyError
                        y = y2
                    else: x = z
                return (x[0], x[1], x[2], lin(x[3], y[3])) + x[4:]
            raise KeyError
        def segs(a, b):
            if len(a) != len(b): raise KeyError
            return tuple((lin(x[0], y[0]), lin(x[1], y[1]), desc(x[2], y[2], (x, y))) for x, y in zip(a, b))
        try:
            s = S1.copy(); s.log = ()
            for v in list(s.env):
                if v not in S2.env: del s.env[v]; continue
                a, b = s.env[v], S2.env[v]
                if a is b: continue
                try: s.env[v] = val(a, b)
                except KeyError:
                    s.env[v] = ("dead",)      # only an error when it is used
            if set(S1.mem) != set(S2.mem):
                # objects created by the iteration: locals of inlined callees
                for r in set(S1.mem) ^ set(S2.mem): raise KeyError
            for r in S1.mem:
                a, b = S1.mem[r], S2.mem[r]
                if a is b: continue
                x = a.copy(); x.len = lin(a.len, b.len)
                x.st = segs(a.st, b.st)
                for o in set(a.fields) | set(b.fields):
                    if o not in a.fields or o not in b.fields or a.fields[o][:2] != b.fields[o][:2]: raise KeyError
                    x.fields[o] = a.fields[o][:2] + (segs(a.fields[o][2], b.fields[o][2]),)
                for o in set(a.elems) | set(b.elems):
                    if o not in a.elems or o not in b.elems: raise KeyError
                    x.elems[o] = segs(a.elems[o], b.elems[o])
                s.mem[r] = x
            if S1.events != S2.events: raise KeyError
            s.n = max(S1.n, S2.n)
            s.cons.add_ge(K)
            return s, k
        except KeyError: return None
    def guess_inv(self, S1, S2, S3, k):
        """facts decided on the way that move linearly with the iteration"""
        K = L.v(k); out = []
        c = S3.cons; by = {}
        for e in dict.fromkeys(S2.log): by.setdefault(c.norm(e).t, []).append(e)
        by3 = {}
        for e in dict.fromkeys(S3.log): by3.setdefault(c.norm(e).t, []).append(e)
        pairs = []
        for t, es in by3.items():
            fs = by.get(t, ())
            pairs += zip(fs, es) if len(fs) == len(es) > 3 else [(e1, e2) for e2 in es for e1 in fs]      # a repeated access pattern: in order
        for e1, e2 in pairs:
            d = e2 - e1
            if d.t: d = c.norm(d)
            if d.t or d.c == 0: continue
            inv = e1 + (K + (-1)) * d.c
            # must hold before the first general iteration
            if inv not in out and S1.cons.ge0(inv.subst({k: LZ})): out.append(inv)
        return out
    def well_formed(self, S1, base):
        """the bounds of consecutive segments stay ordered"""
        S, k = base; out = []
        for r in S.mem.values():
            for segs in [f[2] for f in r.fields.values()] + list(r.elems.values()) + [r.st]:
                for lo, hi, d in segs:
                    e = hi - lo
                    if e.coef(k) and e not in out and S1.cons.ge0(e.subst({k: LZ})): out.append(e)
        return out
    def prove(self, fn, h, body, base, invs, wf, run):
        Sk, k = base
        invs = list(invs) + [e for e in wf if e not in invs]
        for attempt in range(4):
            s = Sk.copy()
            for e in invs: s.cons.add_ge(e)
            if not s.cons.sat(): return None
            try: ex, bk, vi = run(s)
            except Unanalysable: return None
            nxt = Sk.copy(); m = {k: L.v(k) + 1}
            rest = []; covered = 0; drop = set()
            for B in bk:
                if self.matches(B, Sk, m):
                    miss = [e for e in invs if not B.cons.ge0(e.subst(m))]
                    if any(e in wf and not B.cons.sat_with(e.subst(m)) for e in miss): rest.append(B); continue
                    if miss: drop.update(miss)
                    covered += 1
                else: rest.append(B)
            if drop:
                invs = [e for e in invs if e not in drop]; continue
            if not covered: return None
            return ex, rest, vi
        return None
    def matches(self, B, Sk, m):
        """is B an instance of Sk with k+1 for k?"""
        c = B.cons
        def v(a, b):
            if a == b: return True
            if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(v(x, y) for x, y in zip(a, b))
            if not isinstance(b, tuple) or a[0] != b[0]: return False
            if a[0] == "i": return c.eq0(a[1].subst(m) - b[1])
            if a[0] == "p": return a[1] == b[1] and c.eq0(a[2].subst(m) - b[2])
            return False
        for x, a in Sk.env.items():
            if a == ("dead",): continue
            if x not in B.env: return False
            b = B.env[x]
            if b is a and not mentions(a, m): continue
            if not v(a, b): return False
        if set(B.mem) != set(Sk.mem): return False
        for r in Sk.mem:
            a, b = Sk.mem[r], B.mem[r]
            if not c.eq0(a.len.subst(m) - b.len): return False
            if set(a.fields) != set(b.fields) or set(a.elems) != set(b.elems): return False
            def sub(segs): return tuple((lo.subst(m), hi.subst(m), d if not d_single(d) else (d[0], d[1], d[2], d[3].subst(m)) + d[4:]) for lo, hi, d in segs)
            prs = [(a.st, b.st)] + [(a.fields[o][2], b.fields[o][2]) for o in a.fields] + [(a.elems[o], b.elems[o]) for o in a.elems]
            for x, y in prs:
                x = sub(x)
                if x == y: continue
                try:
                    if segs_same(B, x, y) is not None: return False
                except Unanalysable: return False
        return B.events == Sk.events and B.facts == Sk.facts
    # ---- operands
    def op(self, st, o):
        k = o["k"]
        if k == "v":
            v = st.env.get(o["id"])
            if v is None: raise Unanalysable("undefined value")
            if v == ("dead",): raise Unanalysable("a value that changes irregularly is used")
            return v
        t = o.get("t")
        if k == "ci":
            w = t[1]; n = int(o["v"])
            if w == 1: return bool(n)
            if w > 8 and n >= 1 << (w - 1): n -= 1 << w
            return ("i", L.k(n), w)
        if k == "null": return NULL
        if k in ("undef", "poison"): return self.undef(t)
        if k == "zero": return self.zero(t)
        if k == "agg": return [self.op(st, e) for e in o["e"]]
        if k == "g": return ("p", "@" + o["n"], LZ)
        if k == "gep": return self.gep(st, o)
        if k == "ce" and o["op"] == "ptrtoint":
            v = self.op(st, o["ops"][0])
            if v[0] == "p": return ("i", v[2] if v[1] == "null" else v[2] + L.v("&" + v[1]), 64)
        if k == "cf": return ("o", "fp:" + o["v"])
        raise Unanalysable("operand " + k)
    def undef(self, t):
        if t[0] == "s": return [self.undef(e) for _, e in t[1]]
        if t[0] in ("a", "v"): return [self.undef(t[2]) for _ in range(t[1])]
        return U
    def zero(self, t):
        if t[0] == "i": return False if t[1] == 1 else ("i", LZ, t[1])
        if t[0] == "p": return NULL
        if t[0] == "s": return [self.zero(e) for _, e in t[1]]
        if t[0] in ("a", "v"): return [self.zero(t[2]) for _ in range(t[1])]
        return ("o", "0")
    def gep(self, st, g):
        b = self.op(st, g["base"])
        if "bad" in g: raise Unanalysable("gep")
        if b == U: return U
        if b[0] != "p": raise Unanalysable("gep on %r" % (b,))
        off = b[2] + g["off"]
        for x, s in g["idx"]:
            i = self.op(st, x)
            if i == U: raise Unanalysable("index from an undefined value")
            off = off + self.int(i) * s
        return ("p", b[1], off)
    def int(self, v):
        if v is True: return L1
        if v is False: return LZ
        if v[0] != "i": raise Unanalysable("not an integer: %r" % (v,))
        return v[1]
    def truth(self, st, v):
        if v is True or v is False: return v
        if v[0] == "c": return self.compare(st, v[1], v[2], v[3])
        if v[0] == "not": return not self.truth(st, v[1])
        if v[0] == "ob":
            if v[1] in st.facts: return st.facts[v[1]]
            raise ForkB(v[1])
        if v[0] == "and": return self.truth(st, v[1]) and self.truth(st, v[2])
        if v[0] == "or": return self.truth(st, v[1]) or self.truth(st, v[2])
        if v[0] == "i": return not st.eq(v[1])
        if v == U: raise Unanalysable("branch on an undefined value")
        raise Unanalysable("condition %r" % (v,))
    def compare(self, st, pred, a, b):
        if a == U or b == U: raise Bad("mem", "reads uninitialised memory")
        if isinstance(a, tuple) and a[0] in ("c", "not", "ob", "and", "or") or isinstance(a, bool) or isinstance(b, bool):
            x, y = self.truth(st, a), self.truth(st, b)
            return {"eq": x == y, "ne": x != y, "ugt": x > y, "ult": x < y}.get(pred, None) if pred in ("eq", "ne", "ugt", "ult") else self._nope(pred)
        if a[0] == "p" or b[0] == "p":
            if a[0] != b[0]: raise Unanalysable("pointer compared with an integer")
            ra, rb = a[1], b[1]
            if ra == rb: e = a[2] - b[2]
            elif pred in ("eq", "ne"):
                # distinct objects never share an address here
                if "null" in (ra, rb) or True: return pred == "ne"
            else: raise Unanalysable("order of unrelated pointers")
            if pred in ("ult", "ule", "ugt", "uge"): pred = "s" + pred[1:]
        else:
            if a[0] != "i" or b[0] != "i": raise Unanalysable("compare %r %r" % (a, b))
            x, y, w = a[1], b[1], a[2]
            if pred[0] == "s" and w == 8: x, y = (L.k(z.c - 256) if z.const() and z.c >= 128 else z for z in (x, y))
            if pred[0] == "u" and pred != "une":
                # unsigned: a negative residue denotes a value close to 2^w
                xn, yn = not st.ge(x), not st.ge(y)
                if xn != yn:
                    bigger = xn
                    return {"ult": yn, "ule": yn, "ugt": xn, "uge": xn}[pred]
                pred = "s" + pred[1:]
            e = x - y
        if pred == "eq": return st.eq(e)
        if pred == "ne": return not st.eq(e)
        if pred == "slt": return not st.ge(e)
        if pred == "sge": return st.ge(e)
        if pred == "sgt": return st.ge(e + (-1))
        if pred == "sle": return not st.ge(e + (-1))
        raise Unanalysable("predicate " + pred)
    def _nope(self, p): raise Unanalysable("predicate %s on booleans" % p)
    # ---- memory
    def addr(self, st, p, n, what, write=False):
        """(region, record index, offset in the record)"""
        if p == U: raise Bad("mem", "%s through an uninitialised pointer" % what)
        if p[0] != "p": raise Unanalysable("address %r" % (p,))
        if p[1] == "null": raise Bad("mem", "%s through a null pointer" % what)
        r = st.mem.get(p[1])
        if r is None: raise Unanalysable("object " + p[1])
        off = st.cons.norm(p[2])
        for so, name in r.subs:
            if off.t or off.c >= so:
                return self.addr(st, ("p", name, off - L.k(so)), n, what, write)
        q = off.divmod(r.esize)
        if q is None:
            raise Unanalysable("address inside a record at a symbolic offset")
        idx, rem = q
        if rem + n > r.esize and n: raise Unanalysable("access across records")
        if not st.ge(idx): raise Bad("mem", "%s before the start of the storage" % what)
        if st.ge(idx - r.len): raise Bad("mem", "%s past the end of the storage" % what)
        i = locate(st, r.st, idx)
        if r.st[i][2] == FREED: raise Bad("mem", "%s of released storage" % what)
        return r.name, idx, rem
    def load(self, st, p, t):
        if t[0] == "s": return [self.load(st, ptadd(p, o), e) for o, e in t[1]]
        if t[0] in ("a",): return [self.load(st, ptadd(p, i * t[3]), t[2]) for i in range(t[1])]
        if t[0] == "v": return [self.load(st, ptadd(p, i * nbytes(t[2])), t[2]) for i in range(t[1])]
        n = 1 if t == ["i", 1] else nbytes(t)
        if p != U and p[0] == "p" and p[1].startswith("@"): return self.load_global(st, p, t)
        name, idx, rem = self.addr(st, p, n, "read")
        r = st.mem[name]
        f = r.fields.get(rem)
        if f is None or f[0] != n:
            ov = [o for o, x in r.fields.items() if o < rem + n and o + x[0] > rem]
            if not ov:
                for o, segs in r.elems.items():
                    if o < rem + n and o + ESZ > rem: raise Unanalysable("reads the representation of an element")
                return U
            # all zero bytes read together
            parts = [d for o in ov for d in [r.fields[o][2][locate(st, r.fields[o][2], idx)][2]]]
            if self.bytewise:
                if len(ov) == 1 and r.fields[ov[0]][0] > n and ov[0] <= rem and n == 1:
                    d = parts[0]
                    return U if d == UND else ("bs", d_at(d, idx), rem - ov[0], r.fields[ov[0]][0])
                ps = sorted(zip(ov, parts))
                if len(ps) == n and all(o == rem + k and d[0] == "v" and d[1][0] == "bs" and d[1][2:] == (k, n) and d[1][1] == ps[0][1][1][1] for k, (o, d) in enumerate(ps)):
                    return self.from_d(st, ps[0][1][1][1], idx, t)
            if all(d[0] == "int" and st.cons.eq0(d[3]) and d[2] == 0 or d == NULLD for d in parts): return self.zero(t)
            if all(d == UND for d in parts): return U
            if all(o >= rem and o + r.fields[o][0] <= rem + n for o in ov):
                return ("b", n, tuple((o - rem, r.fields[o][0], d_at(d, idx)) for o, d in zip(ov, parts)))
            raise Unanalysable("partial read of a field")
        d = f[2][locate(st, f[2], idx)][2]
        return self.from_d(st, d, idx, t)
    def from_d(self, st, d, idx, t):
        if d == UND: return U
        if d == NULLD: return NULL if t[0] == "p" else ("i", LZ, t[1])
        if d[0] == "ptr":
            v = ("p", d[1], (idx * d[2] + d[3]) * d[4] + L.k(d[5]))
            return v
        if d[0] == "int":
            v = idx * d[2] + d[3]
            if t[0] == "p": 
                if st.cons.eq0(v): return NULL
                return self.itop(st, v)
            if t[0] != "i": raise Unanalysable("type of a field")
            return ("i", v, t[1])
        if d[0] == "v": return d[1]
        raise Unanalysable("field %r" % (d,))
    def to_d(self, st, v, t):
        if v == U: return UND
        if v is True or v is False or isinstance(v, tuple) and v[0] in ("c", "not", "ob", "and", "or"):
            return ("int", 0, 0, L1 if self.truth(st, v) else LZ)
        if v[0] == "i": return ("int", 0, 0, v[1])
        if v[0] == "p":
            if v[1] == "null" and not v[2].t and not v[2].c: return NULLD
            if v[1].startswith("@") or v[1] == "null": return ("v", v)
            r = st.mem.get(v[1])
            es = r.esize if r is not None else 1
            q = v[2].divmod(es)
            if q is None: return ("ptr", v[1], 0, v[2], 1, 0)
            return ("ptr", v[1], 0, q[0], es, q[1])
        return ("v", v)
    def load_global(self, st, p, t):
        g = self.m["globals"].get(p[1][1:])
        if g is None or not g.get("const") or "init" not in g: raise Unanalysable("reads the global " + p[1])
        from .vn import dig
        off = st.cons.norm(p[2])
        if off.t: raise Unanalysable("indexes a global")
        v = dig(g["init"], g["t"], off.c, t)
        if v is None: raise Unanalysable("global " + p[1])
        return self.op(st, v)
    def store(self, st, p, v, t):
        if t[0] == "s":
            for (o, e), x in zip(t[1], v): self.store(st, ptadd(p, o), x, e)
            return
        if t[0] in ("a", "v"):
            n = t[3] if t[0] == "a" else nbytes(t[2])
            for i in range(t[1]): self.store(st, ptadd(p, i * n), v[i], t[2])
            return
        n = 1 if t == ["i", 1] else nbytes(t)
        name, idx, rem = self.addr(st, p, n, "write", True)
        if v != U and v[0] == "b":
            self.clobber(st, name, idx, rem, n)
            q = st.wreg(name)
            for o, z, x in v[2]:
                f = q.fields.get(rem + o)
                segs = f[2] if f is not None and f[0] == z else ((LZ, q.len, UND),)
                q.fields[rem + o] = (z, 0, put(st, segs, idx, x))
            return
        d = self.to_d(st, v, t)
        self.clobber(st, name, idx, rem, n, keep=rem)
        r = st.wreg(name)
        f = r.fields.get(rem)
        segs = f[2] if f is not None and f[0] == n else ((LZ, r.len, UND),)
        r.fields[rem] = (n, 0, put(st, segs, idx, d))
    bytewise = False          # track single bytes of fields (regions of one record)
    def clobber(self, st, name, idx, rem, n, keep=None):
        r = st.mem[name]
        if self.bytewise:
            for o in [o for o, f in r.fields.items() if f[0] > 1 and o < rem + n and o + f[0] > rem and not (rem <= o and o + f[0] <= rem + n)]:
                r = st.wreg(name); z, _, segs = r.fields.pop(o); d = segs[0][2]
                for k in range(z):
                    if d != UND: r.fields[o + k] = (1, 0, ((LZ, r.len, ("v", ("bs", d, k, z))),))
        for o, segs in r.elems.items():
            if o < rem + n and o + ESZ > rem:
                d = segs[locate(st, segs, idx)][2]
                if d != RAW: raise Bad("life", "overwrites the bytes of a live element")
        drop = [o for o, f in r.fields.items() if o < rem + n and o + f[0] > rem and not (o == keep and f[0] == n)]
        if drop:
            r = st.wreg(name)
            for o in drop: r.fields[o] = (r.fields[o][0], 0, put(st, r.fields[o][2], idx, UND))
            for o in drop:
                if len(r.fields[o][2]) == 1 and r.fields[o][2][0][2] == UND: del r.fields[o]
    esz = ESZ
    def elem(self, st, p, what):
        name, idx, rem = self.addr(st, p, self.esz, what)
        r = st.mem[name]
        if rem not in r.elems:
            for o in r.elems:
                if o < rem + self.esz and o + self.esz > rem: raise Unanalysable("overlapping elements")
            r = st.wreg(name)
            r.elems[rem] = ((LZ, r.len, RAW),)
        segs = r.elems[rem]
        i = locate(st, segs, idx)
        return name, idx, rem, segs[i][2]
    def set_elem(self, st, name, idx, rem, d):
        r = st.wreg(name)
        r.elems[rem] = put(st, r.elems[rem], idx, d)
    def construct(self, st, p, d):
        name, idx, rem, old = self.elem(st, p, "construction")
        if old != RAW: raise Bad("life", "constructs an element over a live one")
        self.clobber(st, name, idx, rem, self.esz)
        self.set_elem(st, name, idx, rem, d)
    def read_elem(self, st, p, what):
        name, idx, rem, d = self.elem(st, p, what)
        if d == RAW: raise Bad("mem", "%s an element that does not exist" % what)
        return name, idx, rem, d_at(d, idx)
    def copy_bytes(self, st, d, s, n):
        if d == U or s == U or not n.const(): raise Unanalysable("copy of a symbolic number of bytes")
        n = n.c
        if n == 0: return
        sn, si, so = self.addr(st, s, min(n, 1), "read"); r = st.mem[sn]
        dn, di, do = self.addr(st, d, min(n, 1), "write", True)
        if so + n > r.esize or do + n > st.mem[dn].esize: raise Unanalysable("copy across records")
        mv = []
        for o, f in r.fields.items():
            if o >= so and o + f[0] <= so + n: mv.append((o - so, f[0], d_at(f[2][locate(st, f[2], si)][2], si)))
            elif o < so + n and o + f[0] > so: raise Unanalysable("partial copy of a field")
        for o, segs in r.elems.items():
            if o < so + n and o + ESZ > so and segs[locate(st, segs, si)][2] != RAW: raise Bad("life", "copies a live element bytewise")
        self.clobber(st, dn, di, do, n)
        q = st.wreg(dn)
        for o, z, x in mv:
            f = q.fields.get(do + o)
            segs = f[2] if f is not None and f[0] == z else ((LZ, q.len, UND),)
            q.fields[do + o] = (z, 0, put(st, segs, di, x))
    # ---- instructions
    def ins(self, fn, i, st, bid):
        o = i["op"]; env = st.env
        if o in ("add", "sub", "mul", "shl", "and", "or", "xor", "sdiv", "udiv", "ashr", "lshr", "srem", "urem"):
            env[i["id"]] = self.arith(st, i, o); return
        if o == "icmp":
            env[i["id"]] = ("c", i["pred"], self.op(st, i["ops"][0]), self.op(st, i["ops"][1])); return
        if o == "getelementptr": env[i["id"]] = self.gep(st, i); return
        if o == "load":
            env[i["id"]] = self.load(st, self.op(st, i["ops"][0]), i["t"]); return
        if o == "store":
            self.store(st, self.op(st, i["ops"][1]), self.op(st, i["ops"][0]), i["ops"][0]["t"]); return
        if o == "select":
            c, a, b = i["ops"]
            if i["t"] == ["i", 1] and b["k"] == "ci" and int(b["v"]) == 0: env[i["id"]] = ("and", self.op(st, c), self.op(st, a)); return
            if i["t"] == ["i", 1] and a["k"] == "ci" and int(a["v"]) != 0: env[i["id"]] = ("or", self.op(st, c), self.op(st, b)); return
            env[i["id"]] = self.op(st, a if self.truth(st, self.op(st, c)) else b); return
        if o in ("zext", "sext"):
            v = self.op(st, i["ops"][0])
            if i["ops"][0]["t"] == ["i", 1]:
                b = self.truth(st, v); env[i["id"]] = ("i", (L1 if o == "zext" else L.k(-1)) if b else LZ, i["t"][1]); return
            if v == U: env[i["id"]] = U; return
            l = self.int(v)
            if o == "zext" and not st.ge(l):
                l = l + (1 << i["ops"][0]["t"][1])
            if o == "sext" and l.const() and i["ops"][0]["t"][1] == 8 and l.c >= 128: l = L.k(l.c - 256)
            env[i["id"]] = ("i", l, i["t"][1]); return
        if o == "trunc":
            v = self.op(st, i["ops"][0])
            if i["t"] == ["i", 1]:
                l = self.int(v)
                if l.const(): env[i["id"]] = bool(l.c & 1)
                else: env[i["id"]] = ("c", "ne", v, ("i", LZ, v[2]))
                return
            env[i["id"]] = U if v == U else ("i", self.wrap(st, self.int(v), i["t"][1]), i["t"][1]); return
        if o == "ptrtoint":
            v = self.op(st, i["ops"][0])
            env[i["id"]] = U if v == U else ("i", v[2] if v[1] == "null" else v[2] + L.v("&" + v[1]), 64); return
        if o == "inttoptr":
            env[i["id"]] = self.itop(st, self.int(self.op(st, i["ops"][0]))); return
        if o in ("bitcast", "freeze", "addrspacecast"): env[i["id"]] = self.op(st, i["ops"][0]); return
        if o == "alloca":
            name = "%s:%d:%d" % (fn[:40], i["id"], self.depth)
            st.mem[name] = Reg(name, i["size"], L1, "alloca"); env[i["id"]] = Pt(name); return
        if o == "extractvalue":
            v = self.op(st, i["ops"][0])
            for x in i["ix"]:
                if v == U or v == ("exc",): break
                v = v[x]
            env[i["id"]] = v; return
        if o == "insertvalue":
            a = self.op(st, i["ops"][0]); v = self.op(st, i["ops"][1])
            if not isinstance(a, list): a = self.undef(i["t"])
            def ins(x, ix):
                x = list(x)
                x[ix[0]] = v if len(ix) == 1 else ins(x[ix[0]], ix[1:])
                return x
            env[i["id"]] = ins(a, i["ix"]); return
        if o == "landingpad": env[i["id"]] = [("exc",), ("i", L.k(env.pop("sel", 1)), 32)]; return
        if o == "br":
            if "cond" in i:
                c = self.truth(st, self.op(st, i["cond"]))
                return "go", [(i["succ"][0 if c else 1], st)]
            return "go", [(i["succ"][0], st)]
        if o == "switch":
            v = self.op(st, i["cond"]); 
            for c, b in i["cases"]:
                if st.eq(self.int(v) - L.k(int(c))): return "go", [(b, st)]
            return "go", [(i["default"], st)]
        if o == "ret":
            v = self.op(st, i["ops"][0]) if i["ops"] else None
            if isinstance(v, tuple) and v and v[0] in ("c", "not", "ob", "and", "or"): v = self.truth(st, v)
            return "fin", [Final("ret", v, st, i.get("loc"))]
        if o == "resume": return "fin", [Final("unwind", None, st, i.get("loc"))]
        if o == "unreachable": raise Dead()
        if o in ("call", "invoke"): return self.call(fn, i, st)
        if o == "fence": return
        if o in ("fadd", "fsub", "fmul", "fdiv", "fcmp", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "fneg", "shufflevector", "extractelement", "insertelement"):
            env[i["id"]] = ("dead",); return
        if o == "atomicrmw":
            p, v = self.op(st, i["ops"][0]), self.op(st, i["ops"][1]); t = i["ops"][1]["t"]
            old = self.load(st, p, t)
            if i["rmw"] == "xchg": new = v
            elif i["rmw"] in ("add", "sub") and old != U and old[0] == "i": new = ("i", old[1] + v[1] if i["rmw"] == "add" else old[1] - v[1], v[2])
            else: raise Unanalysable("atomic " + i["rmw"])
            self.store(st, p, new, t); env[i["id"]] = old; return
        if o == "cmpxchg": raise Unanalysable(o)
        raise Unanalysable("instruction " + o)
    def itop(self, st, l):
        l = st.cons.norm(l)
        rs = [x for x, c in l.t if x[0] == "&"]
        if len(rs) == 1 and l.coef(rs[0]) == 1: return ("p", rs[0][1:], l - L.v(rs[0]))
        if not l.t: return ("p", "null", l)
        raise Unanalysable("integer used as a pointer")
    def wrap(self, st, l, w):
        """the value kept of l in w bits, as a signed number (bytes: as they are when they fit)"""
        l = st.cons.norm(l); h = 1 << (w - 1); m = 1 << w
        if l.const():
            if -h <= l.c < (m if w == 8 else h): return l
            c = l.c % m
            return L.k(c if w == 8 or c < h else c - m)
        if st.ge(l + h) and not st.ge(l - h): return l
        if st.ge(l) and not st.ge(l - m): return l + (-m)
        k = L.v(st.fresh("%w"))
        st.cons.add_ge(l - k * m + h); st.cons.add_ge(k * m - l + (h - 1))
        return l - k * m
    def arith(self, st, i, o):
        a, b = (self.op(st, x) for x in i["ops"])
        t = i["t"]
        if t == ["i", 1]:
            if o == "xor":
                if b is True: return ("not", a) if not isinstance(a, bool) else not a
                return self.truth(st, a) != self.truth(st, b)
            if o == "and": return ("and", a, b)
            if o == "or": return ("or", a, b)
            raise Unanalysable("boolean " + o)
        if a == U or b == U: return U
        if t[0] != "i": return ("dead",)
        x, y, w = self.int(a), self.int(b), t[1]
        x, y = st.cons.norm(x), st.cons.norm(y)
        wr = (lambda e: self.wrap(st, e, w)) if w < 64 and not i.get("nsw") else (lambda e: e)
        if o == "add": return ("i", wr(x + y), w)
        if o == "sub": return ("i", wr(x - y), w)
        if o == "mul":
            if y.const(): return ("i", wr(x * y.c), w)
            if x.const(): return ("i", wr(y * x.c), w)
            raise Unanalysable("product of two unknowns")
        if o == "shl" and y.const(): return ("i", wr(x * (1 << y.c)), w)
        if o in ("sdiv", "udiv", "ashr", "lshr"):
            if not y.const(): raise Unanalysable("division by an unknown")
            k = (1 << y.c) if o in ("ashr", "lshr") else y.c
            if k <= 0: raise Unanalysable("division")
            q = x.div(k)
            if q is not None:
                if o in ("udiv", "lshr") and not st.ge(x): raise Unanalysable("unsigned division of a negative value")
                return ("i", q, w)
            if x.const(): return ("i", L.k(x.c // k if o in ("ashr", "lshr", "udiv") else int(x.c / k)), w)
            if not st.ge(x): raise Unanalysable("division of a negative value")
            dm = x.divmod(k)
            if dm is not None: return ("i", dm[0], w)
            q = L.v(st.fresh("%q"))
            st.cons.add_ge(x - q * k); st.cons.add_ge(q * k + (k - 1) - x); st.cons.add_ge(q)
            return ("i", q, w)
        if o in ("urem", "srem") and y.const():
            if x.const(): return ("i", L.k(x.c % y.c), w)
            if st.ge(x) and not st.ge(x - y): return ("i", x, w)
            dm = x.divmod(y.c)
            if dm is not None: return ("i", L.k(dm[1]), w)
            raise Unanalysable("remainder")
        if o == "and":
            for p, q in ((x, y), (y, x)):
                if q.const() and q.c == 1 and len(p.t) == 1 and p.t[0] == (p.t[0][0], 1) and p.t[0][0].startswith("&@"): return ("i", L.k(p.c & 1), w)    # functions are at even addresses
            if x.const() and y.const(): return ("i", L.k(x.c & y.c), w)
            if (x.const() or self.pow2(st, x + 1)) and not self.pow2(st, y + 1): x, y = y, x
            # ring index: x & (N-1) with N a power of two
            n = y + 1
            if n.const() and n.c > 0 and n.c & (n.c - 1) == 0 or self.pow2(st, n):
                for j in range(4):
                    if not st.ge(x + n * j): continue
                    if not st.ge(x - n): return ("i", x + n * j, w)
                    if not st.ge(x - n * 2): return ("i", x - n, w)
                    break
                else: raise Unanalysable("mask of a negative value")
            raise Unanalysable("bit mask")
        if o == "or" and (not x.t and x.c == 0): return b
        if o == "or" and (not y.t and y.c == 0): return a
        if o == "xor" and y.const() and y.c == -1: return ("i", -x + (-1), w)
        if x.const() and y.const(): return ("i", L.k({"or": x.c | y.c, "xor": x.c ^ y.c}[o]), w)
        if o == "xor" and x == y: return ("i", LZ, w)
        raise Unanalysable("bit operation " + o)
    pows = ()
    def pow2(self, st, n):
        n = st.cons.norm(n)
        return any(st.cons.norm(L.v(p)) == n for p in self.pows)
    def finish_call(self, i, st, val):
        st.env[i["id"]] = val
        if i["op"] == "invoke": return "go", [(i["normal"], st)]
        return None
    def typeid(self, n): return self._typeids.setdefault(n, 2 + len(self._typeids))
    def lands(self, fn, i, st):
        """where an exception of unknown type goes from an invoke: (transfers, exceptional exits).  Its type is decided where a
        handler first asks for one: every handler type is tried, and a type no handler names"""
        lp = next((x for x in self.loop_info(fn)[0][i["unwind"]]["ins"] if x["op"] == "landingpad"), None)
        cl = lp["clauses"] if lp else [""]
        if not isinstance(cl, list): cl = [""] if cl else []
        known = next((e[1] for e in st.events if e[0] == "exctype"), None)
        gos = []; rest = st
        for c in cl:
            if c in ("", "filter"):
                rest.env["sel"] = 1; gos.append((i["unwind"], rest)); rest = None; break
            if known == c or (known is None):
                s = rest.copy() if known is None else rest
                if known is None: s.events = s.events + (("exctype", c),)
                s.env["sel"] = self.typeid(c); gos.append((i["unwind"], s))
                if known == c: rest = None; break
        if rest is not None:
            if known is None and any(c not in ("", "filter") for c in cl): rest.events = rest.events + (("exctype", "another type"),)
            if lp is None or lp["cleanup"]: rest.env["sel"] = 0; gos.append((i["unwind"], rest)); rest = None
        return gos, ([Final("unwind", None, rest, i.get("loc"))] if rest is not None else [])
    def unwind(self, fn, i, st):
        if i["op"] == "invoke":
            g, f = self.lands(fn, i, st); return "gofin", g, f
        return "fin", [Final("unwind", None, st, i.get("loc"))]
    def call(self, fn, i, st):
        c = i["callee"]
        args = [self.op(st, a) if a["k"] not in ("md",) else None for a in i["args"]]
        if c["k"] == "g": name = c["n"]
        elif c["k"] == "asm": raise Unanalysable("inline assembly")
        else:
            v = self.op(st, c)
            if v == U: raise Bad("mem", "calls through an uninitialised pointer")
            if v[0] == "p" and v[1].startswith("@"): name = v[1][1:]
            elif v[0] == "p" and v[1] == "null": raise Bad("mem", "calls through a null pointer")
            elif v[0] == "p" and "call_indirect" in self.externs: return self.extern(fn, i, st, "call_indirect", [v] + args)
            else: raise Unanalysable("indirect call")
        if name.startswith("llvm."): return self.intrinsic(i, st, name, args)
        f = self.m["functions"].get(name)
        if f is not None and not f["decl"]:
            outs = self.call_fn(name, args, st)
            nxt = []; fins = []
            for o in outs:
                if o.kind == "ret":
                    o.st.env[i["id"]] = o.val
                    nxt.append(o.st)
                elif o.kind == "unwind":
                    if i["op"] == "invoke":
                        g, f = self.lands(fn, i, o.st); nxt += g; fins += f
                    else: fins.append(o)
                else: fins.append(o)
            if i["op"] == "invoke":
                return "gofin", [(i["normal"], x) if isinstance(x, State) else x for x in nxt], fins
            return "multi", nxt, fins
        return self.extern(fn, i, st, name, args)
    # ---- external functions
    def intrinsic(self, i, st, n, a):
        if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.donothing")): return self.finish_call(i, st, U)
        if n.startswith("llvm.expect"): return self.finish_call(i, st, a[0])
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcopy(st, a[0], a[1], self.int(a[2]))
            return self.finish_call(i, st, U)
        if n.startswith("llvm.memset"):
            self.memset(st, a[0], a[1], self.int(a[2])); return self.finish_call(i, st, U)
        if n.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin")):
            u = n[5] == "u"
            c = self.compare(st, "ult" if u else "slt", a[0], a[1])
            mx = n[6:9] == "max"
            return self.finish_call(i, st, (a[1] if mx else a[0]) if c else (a[0] if mx else a[1]))
        if n.startswith("llvm.abs"):
            return self.finish_call(i, st, a[0] if st.ge(self.int(a[0])) else ("i", -self.int(a[0]), a[0][2]))
        if n.startswith("llvm.trap") or n.startswith("llvm.ubsantrap"): raise Dead()
        if n.startswith("llvm.eh.typeid"): return self.finish_call(i, st, ("i", L.k(self.typeid(a[0][1][1:])), 32))
        if n.startswith("llvm.ctpop") and self.pow2(st, self.int(a[0])): return self.finish_call(i, st, ("i", L1, a[0][2]))
        if n.startswith("llvm.is.constant"): return self.finish_call(i, st, False)
        if n.startswith("llvm.objectsize"): return self.finish_call(i, st, ("i", L.k(-1), 64))
        raise Unanalysable(n)
    def memcopy(self, st, d, s, n):
        n = st.cons.norm(n)
        if not n.const(): raise Unanalysable("copy of a symbolic number of bytes")
        self.copy_bytes(st, d, s, n)
    def memset(self, st, d, v, n):
        n = st.cons.norm(n)
        if not n.const(): raise Unanalysable("memset of a symbolic size")
        if n.c == 0: return
        name, idx, rem = self.addr(st, d, 1, "write", True)
        r = st.mem[name]
        if rem + n.c > r.esize: raise Unanalysable("memset across records")
        self.clobber(st, name, idx, rem, n.c)
        if not (isinstance(v, tuple) and v[0] == "i" and v[1].const() and v[1].c == 0): return
        # zeroed words
        q = st.wreg(name); k = 0
        while k < n.c:
            z = 8 if (rem + k) % 8 == 0 and k + 8 <= n.c else 1
            f = q.fields.get(rem + k)
            segs = f[2] if f is not None and f[0] == z else ((LZ, q.len, UND),)
            q.fields[rem + k] = (z, 0, put(st, segs, idx, ("int", 0, 0, LZ)))
            k += z
    def extern(self, fn, i, st, name, a):
        throws = name in self.throwing
        nounwind = i.get("nounwind")
        h = self.externs.get(name) or getattr(self, "x_" + name, None)
        if h is None: raise Unanalysable("calls " + name)
        if throws and not nounwind:
            exc = st.copy()
            pre = getattr(self, "pre_" + name, None)
            if pre: pre(exc, a)
            # both outcomes: the exceptional one leaves the objects as they were
            try:
                v = h(st, i, a)
            except (Fork, ForkN, ForkB): raise
            st.env[i["id"]] = v
            exc.events = exc.events + (("throw", name),)
            if i["op"] == "invoke":
                g, f = self.lands(fn, i, exc); return "gofin", [(i["normal"], st)] + g, f
            return "also", [Final("unwind", None, exc, i.get("loc"))]
        v = h(st, i, a)
        if v is Ellipsis: return self.unwind(fn, i, st)
        if isinstance(v, tuple) and v and v[0] == "states": return "multi", v[1]
        return self.finish_call(i, st, v)
    # element operations
    def x_e_def(self, st, i, a): self.construct(st, a[0], ("k", "default")); return U
    def x_e_make(self, st, i, a):
        tag = a[1][1] if a[1][0] == "o" else repr(a[1][1])
        self.construct(st, a[0], ("k", tag)); return U
    def x_e_copy(self, st, i, a):
        _, _, _, d = self.read_elem(st, a[1], "copies")
        self.construct(st, a[0], d); return U
    def x_e_move(self, st, i, a):
        n, x, r, d = self.read_elem(st, a[1], "moves from")
        self.construct(st, a[0], d)
        self.set_elem(st, n, x, r, MV); return U
    def x_e_casg(self, st, i, a):
        _, _, _, d = self.read_elem(st, a[1], "assigns from")
        n, x, r, old = self.elem(st, a[0], "assignment")
        if old == RAW: raise Bad("mem", "assigns to an element that does not exist")
        self.set_elem(st, n, x, r, d); return U
    def x_e_masg(self, st, i, a):
        n2, x2, r2, d = self.read_elem(st, a[1], "move-assigns from")
        n, x, r, old = self.elem(st, a[0], "assignment")
        if old == RAW: raise Bad("mem", "assigns to an element that does not exist")
        self.set_elem(st, n, x, r, d)
        if n == n2 and r == r2 and st.eq(x - x2): self.set_elem(st, n2, x2, r2, MV); return U
        self.set_elem(st, n2, x2, r2, MV); return U
    def x_e_dtor(self, st, i, a):
        n, x, r, d = self.elem(st, a[0], "destruction")
        if d == RAW: raise Bad("life", "destroys an element that does not exist")
        self.set_elem(st, n, x, r, RAW); return U
    # allocation
    def x_a_alloc(self, st, i, a):
        n, sz = self.int(a[0]), self.int(a[1])
        if not sz.const(): raise Unanalysable("allocation of unknown element size")
        if sz.c != ESZ and n.const() and n.c == 1:
            name = "node:%s:%d" % (i.get("site", ""), i["id"])
            name = "nodes"
            r = st.mem.get(name)
            if r is None:
                r = Reg(name, sz.c, LZ, "family"); r.st = ()
            else: r = r.copy()
            idx = r.len; r.len = idx + 1
            r.st = merge(st.cons, r.st + ((idx, r.len, LIVE),))
            for o, f in list(r.fields.items()): r.fields[o] = f[:2] + (merge(st.cons, f[2] + ((idx, r.len, UND),)),)
            for o, s in list(r.elems.items()): r.elems[o] = merge(st.cons, s + ((idx, r.len, RAW),))
            st.mem[name] = r
            return ("p", name, idx * sz.c)
        if not st.ge(n): raise Bad("life", "allocates a negative number of elements")
        name = st.fresh("heap")
        r = Reg(name, sz.c, n, "heap", n)
        st.mem[name] = r
        return Pt(name)
    def x_a_free(self, st, i, a):
        p, n, sz = a[0], self.int(a[1]), self.int(a[2])
        if p == U: raise Bad("life", "releases an uninitialised pointer")
        if p[1] == "null": raise Bad("life", "releases a null pointer")
        r = st.reg(p[1])
        if r.kind == "freed": raise Bad("life", "releases storage twice")
        if r.kind not in ("heap", "family"): raise Bad("life", "releases storage that was not allocated")
        if r.kind == "family":
            _, idx, rem = self.addr(st, p, 0, "release")
            if rem: raise Bad("life", "releases a pointer into the middle of a node")
            if not st.eq(n + (-1)): raise Bad("life", "releases a node with the wrong size")
            for o, s in r.elems.items():
                if s[locate(st, s, idx)][2] != RAW: raise Bad("life", "releases a node whose element was not destroyed")
            r = st.wreg(p[1]); r.st = put(st, r.st, idx, FREED)
            return U
        if not st.eq(p[2]): raise Bad("life", "releases a pointer that is not the start of the storage")
        if not st.eq(n - r.allocn): raise Bad("life", "releases storage with a size other than the one allocated (%r, allocated %r)" % (st.cons.norm(n), st.cons.norm(r.allocn)))
        for o, s in r.elems.items():
            for lo, hi, d in s:
                if d != RAW and st.ge(hi - lo + (-1)): raise Bad("life", "releases storage that still holds live elements")
        r = st.wreg(p[1]); r.st = ((LZ, r.len, FREED),)
        r.allocn = r.allocn; r.kind = "freed"
        return U
    # the same through an allocator that carries an identity
    def x_a_allocg(self, st, i, a):
        p = self.x_a_alloc(st, i, a[1:])
        r = st.wreg(p[1])
        if r.kind != "heap": raise Unanalysable("a single node from an allocator with an identity")
        r.owner = self.int(a[0])
        return p
    def x_a_freeg(self, st, i, a):
        p = a[1]
        if p != U and p[0] == "p" and p[1] in st.mem:
            r = st.mem[p[1]]
            if r.owner is not None and not st.eq(r.owner - self.int(a[0])):
                raise Bad("life", "releases storage through an allocator other than the one it came from (allocator %r, allocated by %r)" % (st.cons.norm(self.int(a[0])), st.cons.norm(r.owner)))
        return self.x_a_free(st, i, a[1:])
    # exception runtime
    def x___cxa_begin_catch(self, st, i, a): return Pt("@exc")
    def x___cxa_end_catch(self, st, i, a): return U
    def x___cxa_rethrow(self, st, i, a): return Ellipsis
    def x___cxa_free_exception(self, st, i, a): return U
    def x___cxa_throw(self, st, i, a):
        st.events = st.events + (("throws", a[1]),)
        return Ellipsis
    def x___cxa_allocate_exception(self, st, i, a):
        name = st.fresh("exc"); st.mem[name] = Reg(name, self.int(a[0]).c, L1, "exc"); return Pt(name)
    def x___clang_call_terminate(self, st, i, a): raise Terminate()
    def x__ZSt9terminatev(self, st, i, a): raise Terminate()

def mentions(v, m):
    if isinstance(v, list): return any(mentions(x, m) for x in v)
    if isinstance(v, tuple):
        return any(mentions(x, m) for x in v)
    if isinstance(v, L): return any(x in m for x, _ in v.t)
    return False
def ptadd(p, o):
    if p == U: return U
    return ("p", p[1], p[2] + o)
def succs(t):
    o = t["op"]
    if o == "br": return list(t["succ"])
    if o == "switch": return [t["default"]] + [b for _, b in t["cases"]]
    if o == "invoke": return [t["normal"], t["unwind"]]
    return []
def where_fn(blk):
    for i in blk["ins"]:
        if i.get("loc"):
            w = ir.where(i["loc"])
            if w != "?": return w
    return "?"
