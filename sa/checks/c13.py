from .arraylib import *
from .arraylib import HDR as AHDR, run_array
from .listlib import run_list
from .queuelib import run_queue
from .histlib import run_hist
R4 = "destruction algorithms"
R1 = "elements and storage when an element operation throws"; R2 = "the exception propagates"; R3 = "elements built and sources when nothing throws"
HDR = AHDR + """
#include <xme/ranges/uninitialized.hpp>
struct OutIt { using value_type = E; using difference_type = std::ptrdiff_t; using pointer = E*; using reference = E&; using iterator_category = std::forward_iterator_tag;
    E* p = nullptr; E& operator*() const { return *p; } OutIt& operator++() { ++p; return *this; } OutIt operator++(int) { auto t = *this; ++p; return t; } bool operator==(const OutIt&) const = default; };
struct OutR { E* f; E* l; E* begin() const { return f; } E* end() const { return l; } };
namespace xr = xme::ranges;
"""
THR = ("e_def", "e_make", "e_copy", "e_move", "e_casg", "e_masg", "a_alloc")
def build():
    """the algorithms themselves: m source elements, raw destination of cap elements"""
    ops = []
    def op(desc, sig, body, extra, args, post, throwing=THR):
        name = "op%d" % len(ops)
        def init():
            st = State(); general(st, m, -m + LIM, cap, -cap + LIM)
            if extra: extra(st)
            return st, args, ("m", "cap")
        ops.append((name, 'extern "C" %s { %s }\n' % (sig.replace("@", name), body), desc, init, post, (), throwing))
    def dest(st): st.mem["O"] = Reg("O", ESZ, cap, "arg"); st.mem["O"].elems[0] = ((LZ, cap, RAW),)
    def fill(count, piece, src_after, ret, fields=1):
        def post(o, it):
            s = o.st; ps = []; threw = any(e[0] == "throw" for e in s.events)
            if o.kind == "term": return [("propagate", "the exception of an element operation ends in std::terminate")]
            if o.kind == "ret" and threw: ps.append(("propagate", "an exception of an element operation is swallowed"))
            segs = s.mem["O"].elems.get(0, ((LZ, cap, RAW),))
            if o.kind == "unwind":
                for lo, hi, d in segs:
                    if d != RAW and s.ge(hi - lo + (-1)): ps.append(("exc", "the element built at position %r of the destination is not destroyed when the operation throws" % s.cons.norm(lo)))
                if "S" in s.mem: ps += [("exc", x[1]) for x in alive(s, "S")]
                return ps
            c = count(s)
            exp = merge(s.cons, ((LZ, c, piece), (c, cap, RAW)))
            x = segs_same(s, segs, exp)
            if x is not None: ps.append(("content", "position %r of the destination holds %s, specified %s" % (x[0].cons.norm(x[1]), show(x[0], x[2]), show(x[0], x[3]))))
            if "S" in s.mem:
                ps += alive(s, "S")
                if src_after == "same": ps += unchanged(s, "S")
            v = o.val
            want = ret(s, c)
            got = v if isinstance(v, list) else [v]
            if want is not None and not ps:
                for g, w in zip(got, want):
                    if g == U or g[0] != "p" or g[1] != w[1] or not s.eq(g[2] - w[2]): ps.append(("content", "returns the wrong position"))
            return ps
        return post
    SRC = lambda st: (src(st, "S", m), dest(st))
    mn = lambda s: m if s.ge(cap - m) else cap
    le = lambda st: (src(st, "S", m), dest(st), general(st, cap - m))
    io = ("o", "S", 1, LZ)
    SP = [Pt("S"), Pt("S", m * ESZ)]; OP = [Pt("O"), Pt("O", cap * ESZ)]
    R2c = lambda s, c: [Pt("S", c * ESZ), Pt("O", c * ESZ)]
    P = "struct PP { const E* a; E* b; };\n"
    for nm, a, b in (("pointers", "f, l", "o, e"), ("forward iterators", "FwdIt{f}, FwdIt{l}", "OutIt{o}, OutIt{e}")):
        pre = "#ifndef PPD\n#define PPD\n" + P + "#endif\n"
        op("uninitialized_copy_a(%s)" % nm, "std::pair<const E*, E*> @(const E* f, const E* l, E* o, E* e)".replace("std::pair<const E*, E*>", "long"), "Al<E> al; auto r = xr::uninitialized_copy_a(%s, %s, al); return &*r.second - o;" % (a, b), SRC, SP + OP, fill_n(mn, io, "same", fill))
    op("uninitialized_copy_a(ranges)", "long @(const E* f, const E* l, E* o, E* e)", "Al<E> al; PtrR s{f, l}; OutR d{o, e}; auto r = xr::uninitialized_copy_a(s, d, al); return &*r.second - o;", SRC, SP + OP, fill_n(mn, io, "same", fill))
    op("uninitialized_copy_a: position reached in the source", "long @(const E* f, const E* l, E* o, E* e)", "Al<E> al; auto r = xr::uninitialized_copy_a(f, l, o, e, al); return r.first - f;", SRC, SP + OP, fill_n(mn, io, "same", fill))
    for nm, a, b, c in (("pointers", "f, l", "o", "r"), ("forward iterators", "OutIt{f}, OutIt{l}", "OutIt{o}", "r.p")):
        op("uninitialized_move_a(%s)" % nm, "long @(E* f, E* l, E* o)", "Al<E> al; auto r = xr::uninitialized_move_a(%s, %s, al); return %s - o;" % (a, b, c), le, SP + [Pt("O")], fill_n(lambda s: m, io, "moved", fill))
        op("uninitialized_fill_n_a(%s)" % nm, "long @(E* o, std::size_t k, const E& v)", "Al<E> al; auto r = xr::uninitialized_fill_n_a(%s, k, v, al); return %s - o;" % (b, c), lambda st: (val(st, "v"), dest(st), general(st, cap - m)), [Pt("O"), I(m), Pt("v")], fill_n(lambda s: m, ("k", "v"), "same", fill))
    # the destruction algorithms: exactly the elements given, each once
    def live(st): st.mem["O"] = Reg("O", ESZ, cap, "arg"); st.mem["O"].elems[0] = ((LZ, cap, ("o", "O", 1, LZ)),); general(st, cap - m)
    def gone(lo, cnt):
        def post(o, it):
            s = o.st
            if o.kind != "ret": return [("life", "the operation does not return")]
            segs = s.mem["O"].elems.get(0, ())
            x = segs_same(s, segs, merge(s.cons, ((LZ, lo, ("o", "O", 1, LZ)), (lo, lo + cnt, RAW), (lo + cnt, cap, ("o", "O", 1, LZ)))))
            return [] if x is None else [("life", "element %r %s" % (x[0].cons.norm(x[1]), "is not destroyed" if x[3] == RAW else "is destroyed though it was not given"))]
        return post
    for nm, a in (("pointers", "f, l"), ("forward iterators", "OutIt{f}, OutIt{l}"), ("a range", "OutR{f, l}")):
        op("destroy_a(%s)" % nm, "void @(E* f, E* l)", "Al<E> al; xr::destroy_a(%s, al);" % a, live, [Pt("O"), Pt("O", m * ESZ)], gone(LZ, m), ())
    for nm, a in (("pointers", "f"), ("forward iterators", "OutIt{f}")):
        op("destroy_n_a(%s)" % nm, "void @(E* f, long n)", "Al<E> al; xr::destroy_n_a(%s, n, al);" % a, live, [Pt("O"), I(m)], gone(LZ, m), ())
    one = lambda k: lambda st: (live(st), general(st, cap - m + (-k)))
    op("destroy_at_a", "void @(E* f)", "Al<E> al; xr::destroy_at_a(f, al);", one(1), [Pt("O", m * ESZ)], gone(m, L1), ())
    op("destroy_at_a of an array", "void @(E (*f)[3])", "Al<E> al; xr::destroy_at_a(f, al);", one(3), [Pt("O")], gone(LZ, L.k(3)), ())
    op("destroy_at_a of an array of arrays", "void @(E (*f)[2][2])", "Al<E> al; xr::destroy_n_a(f, 1, al);", one(4), [Pt("O")], gone(LZ, L.k(4)), ())
    return ops
def fill_n(count, piece, after, fill):
    base = fill(count, piece, after, lambda s, c: None)
    def post(o, it):
        ps = base(o, it)
        if o.kind == "ret" and not ps:
            s = o.st
            if not (o.val[0] == "i" and s.eq(o.val[1] - count(s))): ps = [("content", "returns the wrong position")]
        return ps
    return post
def run(chk, thorough):
    cats = {"exc": R1, "propagate": R2}
    run_array(chk, cats, True, thorough)
    run_list(chk, cats, True)
    run_queue(chk, cats, True)
    ops = build()
    run_ops(chk, HDR, ops, dict(cats, life=R3, mem=R3, content=R3, source=R3), True)
    run_ops(chk, HDR, [o for o in ops if not o[6]], {"life": R4, "mem": R4, "hang": R4}, False)
    run_hist(chk, "array", cats, True, plan=((1, 1), (2, 1), (3, 97)) if thorough else ((1, 1), (2, 11)))
    run_hist(chk, "list", cats, True, plan=((1, 1), (2, 1), (3, 29)) if thorough else ((1, 1), (2, 7)))
    chk.need(R1, 100)
