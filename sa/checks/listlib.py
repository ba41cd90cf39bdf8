"""LinkedList operations analysed by engine B (used by C13, C14): the chain is followed through symbolic runs of nodes."""
from .arraylib import *
from .arraylib import HDR as AHDR
HDR = AHDR + r'''
#include <xme/container/linked_list.hpp>
using S = xme::LinkedList<E, Al<E>>;
static inline S::const_iterator at(S* x, long k) { S::const_iterator it = x->before_begin(); for (; k; --k) ++it; return it; }
'''
TEMPLATE = 'extern "C" void tmpl(S* x, const E* f, const E* l) { new(x) S(f, l); }\nextern "C" void tnull(S* x) { new(x) S(); }\n'

class LLib:
    """object and node layout, taken from the constructors"""
    def __init__(self, mod):
        st = State(); st.mem["x"] = Reg("x", 4096, L1, "arg"); src(st, "S", L.k(3))
        outs = [o for o in Interp(mod, peel=8, accelerate=False).run("tmpl", [Pt("x"), Pt("S"), Pt("S", 3 * ESZ)], st) if o.kind == "ret"]
        if len(outs) != 1: raise Unanalysable("no template")
        s = outs[0].st
        nodes = s.mem.get("nodes")
        if nodes is None or s.cons.norm(nodes.len) != L.k(3): raise Unanalysable("nodes are not allocated one by one")
        self.nsz = nodes.esize
        nx = [off for off, (sz, tag, segs) in nodes.fields.items() if len(segs) == 2 and segs[0][2][0] == "ptr" and segs[0][2][1] == "nodes"]
        hd = [off for off, (sz, tag, segs) in s.mem["x"].fields.items() if segs[0][2][0] == "ptr"]
        if len(nx) != 1 or len(hd) != 1 or len(nodes.elems) != 1: raise Unanalysable("node layout")
        self.next = nx[0]; self.head = hd[0]; self.elem = next(iter(nodes.elems))
        self.into = nodes.fields[self.next][2][0][2][5]          # offset of the pointed-to part within a node
        s0 = State(); s0.mem["x"] = Reg("x", 4096, L1, "arg")
        o = Interp(mod).run("tnull", [Pt("x")], s0)[0].st
        self.xfields = {off: (sz, segs[0][2]) for off, (sz, tag, segs) in o.mem["x"].fields.items()}
        self.bytes = max([8] + [off + sz for off, (sz, d) in self.xfields.items()])
    def ptr(self, reg, a, c): return ("ptr", reg, a, c, self.nsz, self.into)
    def rawobj(self, st, name): st.mem[name] = Reg(name, (self.bytes + 7) // 8 * 8, L1, "arg")
    def obj(self, st, name, P, count):
        """a list of `count` nodes, count >= 1 or exactly 0"""
        self.rawobj(st, name); r = st.mem[name]
        for off, (sz, d) in self.xfields.items(): r.fields[off] = (sz, 0, ((LZ, L1, d),))
        if count is None: return
        r.fields[self.head] = (8, 0, ((LZ, L1, self.ptr(P, 0, LZ)),))
        p = Reg(P, self.nsz, count, "family")
        p.fields[self.next] = (8, 0, merge(st.cons, ((LZ, count + (-1), self.ptr(P, 1, L1)), (count + (-1), count, NULLD))))
        p.elems[self.elem] = ((LZ, count, ("o", P, 1, LZ)),)
        st.mem[P] = p
    def walk(self, s, name):
        """-> (pieces [(region, first, count, direction)], problems)"""
        f = s.mem[name].fields.get(self.head)
        if f is None: return None, [("life", "%s has no first node" % name)]
        d = f[2][0][2]; out = []; steps = 0
        while True:
            steps += 1
            if steps > 24: return None, [("chain", "the chain of %s does not end" % name)]
            if d == NULLD or d[0] == "int" and d[2] == 0 and s.eq(d[3]): return out, []
            if d[0] != "ptr" or d[1] not in s.mem: return None, [("chain", "the chain of %s continues with %s" % (name, "an undefined pointer" if d == UND else "something that is not a node"))]
            R, i = d[1], d[3]
            r = s.mem[R]
            if r.kind != "family" or d[4] != self.nsz or d[5] != self.into: return None, [("chain", "the chain of %s continues with something that is not a node" % name)]
            if not s.ge(i) or s.ge(i - r.len): return None, [("chain", "the chain of %s leaves its nodes" % name)]
            fx = r.fields.get(self.next)
            if fx is None: return None, [("chain", "the chain of %s holds a node without a link" % name)]
            segs = fx[2]; k = locate(s, segs, i); lo, hi, e = segs[k]
            if e[0] == "ptr" and e[1] == R and e[2] == 1 and s.eq(e[3] - 1) and e[5] == self.into:
                out.append((R, i, hi - i, 1)); d = ("ptr", R, 0, hi, self.nsz, self.into); continue
            if e[0] == "ptr" and e[1] == R and e[2] == 1 and s.eq(e[3] + 1) and e[5] == self.into:
                out.append((R, i, i - lo + 1, -1)); d = ("ptr", R, 0, lo + (-1), self.nsz, self.into); continue
            out.append((R, i, L1, 1))
            if e[0] == "ptr": d = (e[0], e[1], 0, i * e[2] + e[3]) + e[4:]
            else: d = e
    def values(self, s, pieces):
        """segmentation of the list positions -> element descriptors; problems for dead nodes"""
        out = []; p = LZ; ps = []
        for R, i, c, dr in pieces:
            r = s.mem[R]
            a = i if dr == 1 else i - c + 1
            for lo, hi, d in split_range(s, r.st, a, a + c):
                if d == FREED: ps.append(("chain", "the chain holds a node that has been released (position %r)" % s.cons.norm(p + (lo - a))))
            el = r.elems.get(self.elem, ((LZ, r.len, RAW),))
            segs = split_range(s, el, a, a + c)
            if dr == 1:
                for lo, hi, d in segs:
                    q = p + (lo - i)
                    if d_single(d): d = (d[0], d[1], d[2], d[3] + (i - p) * d[2])
                    out.append((q, p + (hi - i), d))
            else:
                for lo, hi, d in reversed(segs):
                    # record x sits at list position p + (i - x)
                    if d_single(d): d = (d[0], d[1], -d[2], d[3] + (p + i) * d[2])
                    out.append((p + (i - hi + 1), p + (i - lo + 1), d))
            p = p + c
        return out, p, ps
    def check(self, s, lists, raw=()):
        """well-formed, owned, nothing lost -> ({name: (pieces, values, length)}, problems)"""
        info = {}; ps = []; total = LZ
        for x in lists:
            pieces, p = self.walk(s, x)
            if p: return info, p
            v, ln, p = self.values(s, pieces)
            ps += p
            for lo, hi, d in v:
                if d == RAW: ps.append(("life", "the node at position %r of %s holds no element" % (s.cons.norm(lo), x)))
            info[x] = (pieces, v, ln); total = total + ln
        live = LZ
        for r in s.mem.values():
            if r.kind == "family":
                for lo, hi, d in r.st:
                    if d == FREED: continue
                    live = live + (hi - lo) if s.ge(hi - lo) else live
            if r.kind == "alloca":
                for off, segs in r.elems.items():
                    if any(d != RAW for lo, hi, d in segs): ps.append(("life", "a local element is never destroyed"))
        if not s.eq(live - total): ps.append(("life", "%r nodes are allocated but %r are reachable" % (s.cons.norm(live), s.cons.norm(total))))
        return info, ps
    def contents(self, s, name, got, length, pieces):
        exp = []; p = LZ
        for c, f in pieces: exp.append((p, p + c, f(p))); p = p + c
        if not s.eq(p - length): return [("content", "%s holds %r elements, specified %r" % (name, s.cons.norm(length), s.cons.norm(p)))]
        r = segs_same(s, tuple(got), tuple(exp))
        if r is None: return []
        s2, a, d1, d2 = r
        return [("content", "position %r of %s holds %s, specified %s" % (s2.cons.norm(a), name, show(s2, d1), show(s2, d2)))]

def build_list(lib):
    ops = []
    def op(desc, sig, body, init, post, throwing=()):
        name = "op%d" % len(ops)
        ops.append((name, 'extern "C" %s { %s }\n' % (sig.replace("@", name), body), desc, init, post, (), throwing))
    THR = ("e_def", "e_make", "e_copy", "e_move", "e_casg", "e_masg", "a_alloc")
    def gen(st, x="x", P="A", c=n):
        general(st, c + (-1), -c + LIM); lib.obj(st, x, P, c)
    def emp(st, x="x"): lib.obj(st, x, None, None)
    def raw(st): lib.rawobj(st, "x")
    def mk(pre, extra, args, syms):
        def init():
            st = State(); pre(st)
            if extra: extra(st)
            return st, args, syms
        return init
    def post_l(checks, objs=("x",), srcs=(), vals=(), ctor=False, rv=None, dead=(), arrays=()):
        def post(o, it):
            s = o.st; threw = any(e[0] == "throw" for e in s.events)
            if o.kind == "term": return [("propagate", "the exception of an element operation ends in std::terminate")] if threw else [("life", "the operation terminates the program")]
            ps = [("propagate", "an exception of an element operation is swallowed")] if o.kind == "ret" and threw else []
            live = [x for x in objs if x not in dead and not (ctor and x == "x" and o.kind == "unwind")]
            info, p = lib.check(s, live); ps += p
            for q in srcs: ps += alive(s, q)
            if o.kind == "ret" and not ps:
                for x, f in checks.items():
                    if x in info: ps += lib.contents(s, x, info[x][1], info[x][2], f)
                for q in srcs: ps += unchanged(s, q)
                for q, d in vals: ps += unchanged(s, q, d)
                if rv is not None and not ps: ps += rv(s, info, o.val)
            if o.kind == "unwind": ps = [("exc" if c in ("life", "chain") else c, m + " | when an element operation throws") for c, m in ps]
            return ps
        return post
    X = [Pt("x")]
    def srcn(st): general(st, m, -m + LIM); src(st, "S", m)
    SP = [Pt("S"), Pt("S", m * ESZ)]
    def ctor(desc, sig, body, extra, args, pieces, syms, srcs=(), vals=(), ys=(), checks=None):
        ch = {"x": pieces}; ch.update(checks or {})
        op(desc, sig, body, mk(raw, extra, X + args, syms), post_l(ch, ctor=True, srcs=srcs, vals=vals, objs=("x",) + tuple(ys)), THR)
    ctor("LinkedList()", "void @(S* x)", "new(x) S();", None, [], [], ())
    ctor("LinkedList(n)", "void @(S* x, std::size_t n)", "new(x) S(n);", lambda st: general(st, n, -n + LIM), [I(n)], [(n, const("default"))], ("n",))
    ctor("LinkedList(n, value)", "void @(S* x, std::size_t n, const E& v)", "new(x) S(n, v);", lambda st: (general(st, n, -n + LIM), val(st, "v")), [I(n), Pt("v")], [(n, const("v"))], ("n",), vals=[("v", ("k", "v"))])
    ctor("LinkedList{initializer list}", "void @(S* x, std::initializer_list<E> l)", "new(x) S(l);", srcn, [Pt("S"), I(m)], [(m, orig("S", LZ))], ("m",), srcs=["S"])
    for nm, a in (("pointers", "f, l"), ("forward iterators", "FwdIt{f}, FwdIt{l}"), ("single-pass iterators", "InIt{f}, InIt{l}"), ("a range", "PtrR{f, l}")):
        ctor("LinkedList(%s)" % nm, "void @(S* x, const E* f, const E* l)", "new(x) S(%s);" % a, srcn, SP, [(m, orig("S", LZ))], ("m",), srcs=["S"])
    for nm, a in (("modifiable pointers", "f, l"), ("a modifiable range", "MutR{f, l}")):
        ctor("LinkedList(%s)" % nm, "void @(S* x, E* f, E* l)", "new(x) S(%s);" % a, srcn, SP, [(m, orig("S", LZ))], ("m",), srcs=["S"])
    Y = [Pt("y")]
    for sfx, yp, pc, sy in (("", lambda st: gen(st, "y", "B", m), [(m, orig("B", LZ))], ("m",)), (" of an empty list", lambda st: emp(st, "y"), [], ())):
        ctor("LinkedList(const LinkedList&)" + sfx, "void @(S* x, const S* y)", "new(x) S(*y);", yp, Y, pc, sy, ys=["y"], checks={"y": pc})
        ctor("LinkedList(LinkedList&)" + sfx, "void @(S* x, S* y)", "new(x) S(*y);", yp, Y, pc, sy, ys=["y"], checks={"y": pc})
        ctor("LinkedList(LinkedList&&)" + sfx, "void @(S* x, S* y)", "new(x) S(std::move(*y));", yp, Y, pc, sy, ys=["y"], checks={"y": []})
        for xs, xp, xpc, sx in (("", gen, [(n, orig("A", LZ))], ("n",)), (" to an empty list", emp, [], ())):
            op("copy assignment" + sfx + xs, "void @(S* x, const S* y)", "*x = *y;", mk(xp, yp, X + Y, sx + sy), post_l({"x": pc, "y": pc}, objs=("x", "y")), THR)
            op("move assignment" + sfx + xs, "void @(S* x, S* y)", "*x = std::move(*y);", mk(xp, yp, X + Y, sx + sy), post_l({"x": pc, "y": []}, objs=("x", "y")), THR)
    for xs, xp, xpc, sx in (("", gen, [(n, orig("A", LZ))], ("n",)), (" of an empty list", emp, [], ())):
        op("self copy assignment" + xs, "void @(S* x)", "*x = *x;", mk(xp, None, X, sx), post_l({"x": xpc}), THR)
        op("self move assignment" + xs, "void @(S* x)", "*x = std::move(*x);", mk(xp, None, X, sx), post_l({"x": xpc}), THR)
        op("destruction" + xs, "void @(S* x)", "x->~S();", mk(xp, None, X, sx), post_l({}, dead=("x",)), THR)
        op("clear" + xs, "void @(S* x)", "x->clear();", mk(xp, None, X, sx), post_l({"x": []}), THR)
        op("reverse" + xs, "void @(S* x)", "x->reverse();", mk(xp, None, X, sx), post_l({"x": [(n, lambda p: ("o", "A", -1, n + (-1)))] if sx else []}), THR)
        for nm, sg, a, ex, ar, dsc in (("assign(pointers)", "const E* f, const E* l", "f, l", srcn, SP, None), ("assign(range)", "const E* f, const E* l", "PtrR{f, l}", srcn, SP, None), ("assign(single-pass iterators)", "const E* f, const E* l", "InIt{f}, InIt{l}", srcn, SP, None), ("assign(modifiable pointers)", "E* f, E* l", "f, l", srcn, SP, None), ("assign(modifiable range)", "E* f, E* l", "MutR{f, l}", srcn, SP, None), ("assign(initializer list)", "std::initializer_list<E> l", "l", srcn, [Pt("S"), I(m)], None)):
            op(nm + xs, "void @(S* x, %s)" % sg, "x->assign(%s);" % a, mk(xp, ex, X + ar, sx + ("m",)), post_l({"x": [(m, orig("S", LZ))]}, srcs=["S"]), THR)
        op("assignment of an initializer list" + xs, "void @(S* x, std::initializer_list<E> l)", "*x = l;", mk(xp, srcn, X + [Pt("S"), I(m)], sx + ("m",)), post_l({"x": [(m, orig("S", LZ))]}, srcs=["S"]), THR)
        for nm, sg, a, vl in (("push_front(const&)", "const E& v", "v", 1), ("push_front(&&)", "E& v", "std::move(v)", 0)):
            op(nm + xs, "void @(S* x, %s)" % sg, "x->push_front(%s);" % a, mk(xp, lambda st: val(st, "v"), X + [Pt("v")], sx), post_l({"x": [(L1, const("v"))] + xpc}, vals=[("v", ("k", "v") if vl else MV)]), THR)
        def rfirst(s, info, v):
            R, i, c, d = info["x"][0][0]
            return [] if v != U and v[0] == "p" and v[1] == R and s.eq(v[2] - i * lib.nsz - L.k(lib.elem)) else [("content", "does not return a reference to the new first element")]
        op("emplace_front(arguments)" + xs, "E* @(S* x, long t)", "return &x->emplace_front(t);", mk(xp, None, X + [I(L.v("t"))], sx), post_l({"x": [(L1, const("t"))] + xpc}, rv=rfirst), THR)
        op("emplace_front(E&&)" + xs, "E* @(S* x, E& v)", "return &x->emplace_front(std::move(v));", mk(xp, lambda st: val(st, "v"), X + [Pt("v")], sx), post_l({"x": [(L1, const("v"))] + xpc}, rv=rfirst, vals=[("v", MV)]), THR)
        op("emplace_front(E&)" + xs, "E* @(S* x, E& v)", "return &x->emplace_front(v);", mk(xp, lambda st: val(st, "v"), X + [Pt("v")], sx), post_l({"x": [(L1, const("v"))] + xpc}, rv=rfirst, vals=[("v", ("k", "v"))]), THR)
        op("emplace_front()" + xs, "E* @(S* x)", "return &x->emplace_front();", mk(xp, None, X, sx), post_l({"x": [(L1, const("default"))] + xpc}, rv=rfirst), THR)
        # positions: pos nodes precede the insertion point
        P = pos if sx else LZ
        posn = (lambda st: general(st, pos, n - pos)) if sx else None
        psy = sx + (("pos",) if sx else ())
        def ins(pc): return ([(P, orig("A", LZ))] if sx else []) + pc + ([(n - pos, orig("A", pos))] if sx else [])
        def rpos(k, P=P):
            def f(s, info, v):
                # the element at list position k
                p = LZ
                for R, i, c, d in info["x"][0]:
                    if not s.ge(k - p - c):
                        if not s.ge(k - p): break
                        w = i + (k - p) * d
                        return [] if v != U and v is not None and v[0] == "p" and v[1] == R and s.eq(v[2] - w * lib.nsz - L.k(lib.elem)) else [("content", "does not return the position of the element inserted last")]
                    p = p + c
                return [("content", "returns a position outside the list")]
            return f
        def both(f1, st):
            if f1: f1(st)
        for nm, sg, a, vl in (("insert_after(pos, const&)", "const E& v", "v", 1), ("insert_after(pos, &&)", "E& v", "std::move(v)", 0)):
            op(nm + xs, "E* @(S* x, long pos, %s)" % sg, "return &*x->insert_after(at(x, pos), %s);" % a, mk(xp, lambda st, q=posn: (both(q, st), val(st, "v")), X + [I(P), Pt("v")], psy), post_l({"x": ins([(L1, const("v"))])}, vals=[("v", ("k", "v") if vl else MV)], rv=rpos(P)), THR)
        for nm, a, d in (("E&&", "std::move(v)", MV), ("E&", "v", ("k", "v"))):
            op("emplace_after(pos, %s)%s" % (nm, xs), "E* @(S* x, long pos, E& v)", "return &*x->emplace_after(at(x, pos), %s);" % a, mk(xp, lambda st, q=posn: (both(q, st), val(st, "v")), X + [I(P), Pt("v")], psy), post_l({"x": ins([(L1, const("v"))])}, vals=[("v", d)], rv=rpos(P)), THR)
        op("emplace_after(pos, arguments)" + xs, "E* @(S* x, long pos, long t)", "return &*x->emplace_after(at(x, pos), t);", mk(xp, posn, X + [I(P), I(L.v("t"))], psy), post_l({"x": ins([(L1, const("t"))])}, rv=rpos(P)), THR)
        for nm, a in (("pointers", "f, l"), ("a range", "PtrR{f, l}"), ("single-pass iterators", "InIt{f}, InIt{l}")):
            op("insert_after(pos, %s)%s" % (nm, xs), "E* @(S* x, long pos, const E* f, const E* l)", "auto r = x->insert_after(at(x, pos), %s); return f == l ? nullptr : &*r;" % a, mk(xp, lambda st, q=posn: (both(q, st), srcn(st)), X + [I(P)] + SP, psy + ("m",)),
               post_l({"x": ins([(m, orig("S", LZ))])}, srcs=["S"], rv=lambda s, info, v, P=P: [] if s.eq(m) else rpos(P + m + (-1))(s, info, v)), THR)
        for nm, a in (("modifiable pointers", "f, l"), ("a modifiable range", "MutR{f, l}")):
            op("insert_after(pos, %s)%s" % (nm, xs), "E* @(S* x, long pos, E* f, E* l)", "auto r = x->insert_after(at(x, pos), %s); return f == l ? nullptr : &*r;" % a, mk(xp, lambda st, q=posn: (both(q, st), srcn(st)), X + [I(P)] + SP, psy + ("m",)), post_l({"x": ins([(m, orig("S", LZ))])}, srcs=["S"]), THR)
        if not sx: continue
        op("pop_front", "void @(S* x)", "x->pop_front();", mk(xp, None, X, sx), post_l({"x": [(n + (-1), orig("A", L1))]}), THR)
        op("erase_after(pos)", "void @(S* x, long pos)", "x->erase_after(at(x, pos));", mk(xp, lambda st: general(st, pos, n - pos + (-1)), X + [I(pos)], psy), post_l({"x": [(pos, orig("A", LZ)), (n - pos + (-1), orig("A", pos + 1))]}), THR)
        op("erase_after(pos, last)", "void @(S* x, long pos, long cnt)", "auto f = at(x, pos); auto l = f; ++l; for (long k = cnt; k; --k) ++l; x->erase_after(f, l);", mk(xp, lambda st: general(st, pos, cnt, n - pos - cnt), X + [I(pos), I(cnt)], psy + ("cnt",)), post_l({"x": [(pos, orig("A", LZ)), (n - pos - cnt, orig("A", pos + cnt))]}), THR)
        # iterators: positions, both kinds
        def relem(k):
            def f(s, info, v):
                return [] if isinstance(v, tuple) and v[0] == "p" and v[1] == "A" and s.eq(v[2] - k * lib.nsz - L.k(lib.elem)) else [("content", "does not designate the element at position %r" % s.cons.norm(k))]
            return f
        def rtrue(s, info, v): return [] if truth_of(s, v) else [("content", "the answer is false")]
        whole = [(n, orig("A", LZ))]
        for kd, ty, bg in (("iterator", "S::iterator", "x->begin()"), ("const_iterator", "S::const_iterator", "static_cast<const S*>(x)->begin()")):
            adv = "%s it = %s; for (long k = pos; k; --k) ++it; " % (ty, bg)
            inl = lambda st: general(st, pos, n - pos + (-1)); inl2 = lambda st: general(st, pos, n - pos + (-2))
            for nm, body, k, pre in (("*", "return (E*)&*it;", pos, inl), ("->", "return (E*)it.operator->();", pos, inl), ("pre-increment", "auto& r = ++it; return (E*)&*r;", pos + 1, inl2), ("pre-increment, the iterator", "++it; return (E*)&*it;", pos + 1, inl2), ("post-increment", "auto r = it++; return (E*)&*r;", pos, inl), ("post-increment, the iterator", "it++; return (E*)&*it;", pos + 1, inl2)):
                op("%s of a %s" % (nm, kd), "E* @(S* x, long pos)", adv + body, mk(xp, pre, X + [I(pos)], psy), post_l({"x": whole}, rv=relem(k)), THR)
            op("== of %ss" % kd, "bool @(S* x, long pos, long cnt)", adv + "%s jt = it; for (long k = cnt; k; --k) ++jt; return (it == jt) == (cnt == 0) && (it != jt) == (cnt != 0);" % ty, mk(xp, lambda st: general(st, pos, cnt, n - pos - cnt), X + [I(pos), I(cnt)], psy + ("cnt",)), post_l({"x": whole}, rv=rtrue), THR)
            op("pre-increment returns the %s" % kd, "bool @(S* x, long pos)", adv + "return &++it == &it;", mk(xp, inl2, X + [I(pos)], psy), post_l({"x": whole}, rv=rtrue), THR)
            op("a default constructed %s is the end" % kd, "bool @(S* x)", "return %s{} == static_cast<%sS*>(x)->end();" % (ty, "" if kd == "iterator" else "const "), mk(xp, None, X, sx), post_l({"x": whole}, rv=rtrue), THR)
            op("before_begin of a %s" % kd, "E* @(S* x)", "%s it = static_cast<%sS*>(x)->before_begin(); ++it; return (E*)&*it;" % (ty, "" if kd == "iterator" else "const "), mk(xp, None, X, sx), post_l({"x": whole}, rv=relem(LZ)), THR)
        op("const_iterator from iterator", "E* @(S* x, long pos)", "S::iterator it = x->begin(); for (long k = pos; k; --k) ++it; S::const_iterator c = it; return (E*)&*c;", mk(xp, lambda st: general(st, pos, n - pos + (-1)), X + [I(pos)], psy), post_l({"x": whole}, rv=relem(pos)), THR)
        op("cbefore_begin", "E* @(S* x)", "auto it = x->cbefore_begin(); ++it; return (E*)&*it;", mk(xp, None, X, sx), post_l({"x": whole}, rv=relem(LZ)), THR)
        op("insert_after(pos, an empty range)", "bool @(S* x, long pos, const E* f)", "auto q = at(x, pos); return S::const_iterator(x->insert_after(q, f, f)) == q;", mk(xp, lambda st: (general(st, pos, n - pos), srcn(st)), X + [I(pos), Pt("S")], psy + ("m",)), post_l({"x": whole}, srcs=["S"], rv=rtrue), THR)
        for nm, a in (("push_front", "x->push_front(*f)"), ("insert_after", "x->insert_after(at(x, cnt), *f)"), ("emplace_front", "x->emplace_front(*f)")):
            k = cnt if nm == "insert_after" else LZ
            op("%s of an element of the list" % nm, "void @(S* x, long pos, long cnt)", "auto f = x->begin(); for (long k = pos; k; --k) ++f; %s;" % a, mk(xp, lambda st: general(st, pos, n - pos + (-1), cnt, n - cnt), X + [I(pos), I(cnt)], psy + ("cnt",)), post_l({"x": [(k, orig("A", LZ)), (L1, orig("A", pos)), (n - k, orig("A", k))]}), THR)
        op("iteration", "bool @(S* x, long pos)", "auto it = x->begin(); for (long k = pos; k; --k) ++it; return it == x->end();", mk(xp, lambda st: general(st, pos, n - pos), X + [I(pos)], psy), post_l({"x": [(n, orig("A", LZ))]}, rv=lambda s, info, v: [] if s.eq(n - pos) == truth_of(s, v) else [("content", "iteration ends at the wrong element")]), THR)
    return ops
def truth_of(s, v): return Interp({"functions": {}, "globals": {}}).truth(s, v)

def run_list(chk, cats, throwing):
    m0 = ir.compile_ir(HDR + TEMPLATE, pipe=ir.PIPE_LOOP)
    try: lib = LLib(m0)
    except (Unanalysable, KeyError, IndexError, StopIteration) as e:
        chk.undecided("list representation", "xme::LinkedList", "the representation after construction could not be determined: %s" % e); return
    run_ops(chk, HDR, build_list(lib), cats, throwing)
