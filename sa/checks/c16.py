"""C16: publication protocol of the queue, one side at a time against every behaviour of the other side"""
from .queuelib import *
from .queuelib import HDR
from .. import seg, lin, ir
from ..seg import nbytes
R1 = "slot accesses are ordered by an acquire of the other side's position"
R2 = "the own position is published by a release after the slot accesses"
R3 = "each position is written by its own side only, atomically"
R4 = "no other cell is shared"
REL = ("release", "acq_rel", "seq_cst"); ACQ = ("acquire", "acq_rel", "seq_cst")

class Shared(Interp):
    """the other side's position is an arbitrary value at every load; accesses to slots and positions are recorded in order"""
    lib = None; side = None; nonempty = False; in_elem = False
    def own(self): return self.lib.w if self.side == "producer" else self.lib.r
    def other(self): return self.lib.r if self.side == "producer" else self.lib.w
    def cell(self, st, p):
        if p == U or p[0] != "p" or p[1] != "x": return None
        off = st.cons.norm(p[2])
        if off.t or self.lib.kind == "static" and off.c >= self.lib.off: return None
        return off.c
    def position(self, st):
        name = "o%d" % (st.n + 1); v = L.v(name); n = self.lib.N
        st.cons.add_ge(v); st.cons.add_ge(n - v + (-1))
        if self.nonempty and not any(e[:2] == ("store", "own") for e in st.events):
            me = self.cell_value(st, self.own()); hi, lo = v - me + (-1), me - v + (-1); c = st.cons
            if not (c.ge0(hi) or c.ge0(lo)):
                a, b = c.sat_with(hi), c.sat_with(lo)
                if a and b: raise ForkN([[hi], [lo]])
                if not (a or b): raise seg.Dead()
                c.add_ge(hi if a else lo)
        st.n += 1
        return I(v)
    def cell_value(self, st, off):
        d = st.mem["x"].fields[off][2][0][2]
        if d[0] != "int": raise Unanalysable("position is not a number")
        return d[3]
    def rec(self, st, *e): st.events = st.events + (e,)
    def access(self, st, i, p, t):
        """records a read of a cell; the value read"""
        c = self.cell(st, p); o = i.get("ord")
        if c is not None and t[0] not in "sav":
            n = nbytes(t)
            if c <= self.other() < c + n or self.other() <= c < self.other() + 8:
                if c != self.other() or n != 8: raise Unanalysable("partial access to a position")
                v = self.position(st); self.rec(st, "load", "other", o, v[1], i.get("loc")); return v
            if c == self.own(): v = self.load(st, p, t); self.rec(st, "load", "own", o, v[1] if v != U else None, i.get("loc")); return v
            if o is None: self.rec(st, "plain load", c, n, i.get("loc"))
        return self.load(st, p, t)
    def assign(self, st, i, p, v, t):
        c = self.cell(st, p); o = i.get("ord")
        if c is not None and t[0] not in "sav":
            n = nbytes(t)
            for nm, off in (("own", self.own()), ("other", self.other())):
                if c < off + 8 and off < c + n:
                    if c != off or n != 8: raise Unanalysable("partial access to a position")
                    self.rec(st, "store", nm, o, v[1] if v != U and v[0] == "i" else None, i.get("loc"))
                    if nm == "other": return
                    break
            else:
                if o is None: self.rec(st, "plain store", c, n, i.get("loc"))
        self.store(st, p, v, t)
    def ins(self, fn, i, st, bid):
        o = i["op"]
        if o == "load": st.env[i["id"]] = self.access(st, i, self.op(st, i["ops"][0]), i["t"]); self.loc = i.get("loc"); return
        if o == "store": self.assign(st, i, self.op(st, i["ops"][1]), self.op(st, i["ops"][0]), i["ops"][0]["t"]); return
        if o == "fence": self.rec(st, "fence", i.get("ord"), i.get("loc")); return
        if o == "atomicrmw":
            p, v = self.op(st, i["ops"][0]), self.op(st, i["ops"][1]); t = i["ops"][1]["t"]
            if self.cell(st, p) is None: return Interp.ins(self, fn, i, st, bid)
            old = self.access(st, i, p, t)
            if i["rmw"] == "xchg": new = v
            elif i["rmw"] in ("add", "sub"): new = ("i", old[1] + v[1] if i["rmw"] == "add" else old[1] - v[1], v[2])
            else: raise Unanalysable("atomic " + i["rmw"])
            self.assign(st, i, p, new, t); st.env[i["id"]] = old; return
        self.cur = i.get("loc")
        return Interp.ins(self, fn, i, st, bid)
    def elem(self, st, p, what):
        r = Interp.elem(self, st, p, what)
        if r[0] == "Q": self.rec(st, "slot", r[1], what, self.cur)
        return r
    def x___assert_fail(self, st, i, a): raise Terminate()

def mod_lt(s, a, b, base, n, full):
    """(a - base) mod n < (b - base) mod n, where b == base counts as n when full"""
    def dist(v):
        d = v - base
        if not s.ge(d): d = d + n
        elif s.ge(d - n): d = d - n
        return d
    da = dist(a); db = dist(b)
    if full and s.eq(db): return True
    return not s.ge(da - db)

def protocol(lib, side, s, kind, ret, pre):
    """problems of one path"""
    n = lib.N; ps = []
    acq = []; loaded = []; pending = []; pub = w if side == "producer" else r
    pend_slot = False; fence_after = True
    for e in s.events:
        if e[0] == "load":
            if e[1] == "other":
                if e[2] is None: ps.append(("owner", "reads the other side's position without an atomic access", e[4])); continue
                loaded.append(e[3])
                (acq if e[2] in ACQ else pending).append(e[3])
        elif e[0] == "fence":
            if e[1] in ACQ: acq += pending; pending = []
            if e[1] in REL: fence_after = True
        elif e[0] == "slot":
            pend_slot = True; fence_after = False
            if side == "consumer" and pre and s.eq(e[1] - pub): continue
            if any(mod_lt(s, e[1], a, pub, n, side == "producer") for a in acq): continue
            if any(mod_lt(s, e[1], a, pub, n, side == "producer") for a in loaded): why = "the load of the other side's position that allows it is not an acquire"
            else: why = "it is not known to belong to the %s" % side
            ps.append(("slot", "%s of slot %r: %s" % (e[2], s.cons.norm(e[1]), why), e[3]))
        elif e[0] == "store":
            if e[1] == "other": ps.append(("owner", "the %s writes the other side's position" % side, e[4])); continue
            if e[2] is None: ps.append(("owner", "the %s writes its position without an atomic access" % side, e[4]))
            elif pend_slot and e[2] not in REL and not fence_after: ps.append(("publish", "the %s's position is stored with order %s after an access to a slot" % (side, e[2]), e[4]))
            new = e[3]
            if new is None: ps.append(("publish", "stores an undefined position", e[4])); continue
            if not s.ge(new) or s.ge(new - n): ps.append(("publish", "the position stored (%r) is outside the ring" % s.cons.norm(new), e[4])); continue
            if not s.eq(new - pub):
                if side == "producer":
                    if not any(mod_lt(s, new, a, pub, n, True) for a in loaded): ps.append(("publish", "the position stored can make a full queue look empty", e[4]))
                else:
                    step = pub + 1 if not s.eq(pub + 1 - n) else LZ
                    if not (pre and s.eq(new - step)) and not any(not mod_lt(s, a, new, pub, n, False) for a in loaded):
                        ps.append(("publish", "the position stored passes elements that may not exist", e[4]))
            pub = new; pre = False
    if kind == "ret" and ret is not None and side == "consumer":
        # a positive number of readable elements permits reading them
        v = ret[1]
        if s.ge(v + (-1)):
            def within(a):
                d = a - r
                if not s.ge(d): d = d + n
                return s.ge(d - v)
            if not any(within(a) for a in acq): ps.append(("slot", "a positive result is not ordered after the producer's writes by an acquire of the write position", None))
    return ps

def tasks(lib, ndebug):
    out = []
    n_ = lib.N; syms = ("w", "r") + (("N",) if lib.cap is None else ())
    title = ("dynamic storage" if lib.cap is None else "%d static slots" % lib.cap) + ("" if ndebug else ", assertions on")
    def add(desc, fname, side, extra, args, pre=False, result=False):
        for order in ("lin", "wrap"):
            def init(order=order):
                st = State(); lib.build(st, order, shared=side)
                if side == "producer": forget(st, lib, "r")
                else: forget(st, lib, "w")
                if extra: extra(st)
                return st, [Pt("x")] + args, syms
            def post(o, it):
                if o.kind == "term": return [("publish", "%s terminates the program" % fname)]
                res = o.val if result else None
                if result and (o.kind != "ret" or o.val == U): return [("slot", "no result")]
                return [(c, m) for c, m, l in protocol(lib, side, o.st, o.kind, res, pre)]
            t = Task("%s (%s): %s" % (desc, title, side), fname, init, post, throwing=("e_make", "e_def", "e_copy", "e_move") if ndebug else (), pows=("N",) if lib.cap is None else ())
            t.interp = (Shared, dict(lib=lib, side=side, nonempty=pre))
            out.append(t)
            break
    v = lambda st: val(st, "v")
    def rawout(st): st.mem["out"] = Reg("out", ESZ, L1, "arg"); st.mem["out"].elems[0] = ((LZ, L1, RAW),)
    add("push(const&)", "push", "producer", v, [Pt("v")])
    add("push(&&)", "pushm", "producer", v, [Pt("v")])
    add("push(convertible)", "pushc", "producer", None, [I(L.v("t"))])
    add("emplace()", "empl0", "producer", None, [])
    add("emplace(arguments)", "empl", "producer", None, [I(L.v("t"))])
    add("write_available", "wavail", "producer", None, [])
    add("pop", "pop", "consumer", None, [], True)
    add("consume(E&&)", "consume", "consumer", rawout, [Pt("out")], True)
    add("consume(const E&)", "consumec", "consumer", rawout, [Pt("out")], True)
    add("read_available", "ravail", "consumer", None, [], False, True)
    return out
def forget(st, lib, sym):
    """drop what is known about the other side's position; keep only the own index in [0,N)"""
    n_ = lib.N; keep = r if sym == "w" else w
    st.cons = type(st.cons)()
    if lib.cap is None: general(st, n_ + (-2), -n_ + LIM)
    general(st, keep, n_ - keep + (-1))

def run(chk, thorough):
    caps = (2, 4, 8, 64) if thorough else (2, 8)
    cats = {"slot": R1, "publish": R2, "owner": R3}
    for rule, n in ((R1, 20), (R2, 20), (R3, 20)): pass
    mods, ts = [], []; cells = {}
    for nd in (True, False):
        for k, mod, lib in libs(chk, caps, nd, True):
            name = "SPSCQueue (%s%s)" % (k[0] if k[1] is None else "%d static slots" % k[1], "" if nd else ", assertions on")
            if mod is None:
                for rule in (R1, R2, R3):
                    if isinstance(lib, str) and "compile" in lib: chk.fail(rule, name, lib)
                    else: chk.undecided(rule, name, "representation: %s" % lib, 10)
                continue
            mods.append(mod)
            mine = tasks(lib, nd)
            for t in mine: t.module = len(mods) - 1
            if lib.extra:
                for rule in (R1, R2, R3): chk.undecided(rule, name, "cells besides the two positions change", 10)
            else: ts += mine
            shared_cells(chk, mod, lib, mine, name)
    run_tasks(chk, None, mods, ts, cats)
    chk.need(R1, 40); chk.need(R2, 40); chk.need(R3, 40); chk.need(R4, 4)

def shared_cells(chk, mod, lib, ts, name):
    """cells other than the positions: written by one side and accessed by the other without atomics"""
    use = {}; und = None
    for t in ts:
        lin.POW.clear(); lin.POW.update(t.pows)
        st, args, _ = t.init()
        it = Shared(mod, t.throwing, t.externs); it.pows = t.pows
        for k, v in t.interp[1].items(): setattr(it, k, v)
        side = t.interp[1]["side"]
        try: outs = it.run(t.fname, args, st)
        except (Unanalysable, RecursionError) as e: und = str(e); continue
        for o in outs:
            for e in o.st.events:
                if e[0] in ("plain load", "plain store"):
                    for b in range(e[1], e[1] + e[2]): use.setdefault(b, {}).setdefault(side, set()).add((e[0], t.fname, ir.where(e[3]) if e[3] else ""))
    for b, d in sorted(use.items()):
        if len(d) < 2: continue
        for side in d:
            for e in sorted(d[side], key=str):
                if e[0] == "plain store":
                    other = next(iter(sorted(d[[x for x in d if x != side][0]], key=str)))
                    chk.fail(R4, name, "the cell at offset %d is written by the %s (%s) and accessed by the other side (%s) without synchronisation" % (b, side, e[1], other[1]), e[2]); return
    if und: chk.undecided(R4, name, und)
    else: chk.ok(R4, name, "%d bytes of plain state" % len(use))
