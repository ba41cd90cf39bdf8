"""std::string as an abstract data type, and the operating system functions that take C strings.

The witness is compiled with the member functions of std::basic_string left external; an object of that type is the
sequence of pieces it was built from: byte ranges of the view under analysis, of other strings, literals."""
import re, subprocess
from .seg import *
from .seg import _cmp
from .vn import dig
DROP = r"_ZN(K)?St7__cxx1112basic_string.*"
SZ = 32
_dem = {}
def demangle(n):
    if n not in _dem: _dem[n] = subprocess.run(["c++filt", n], stdout=subprocess.PIPE).stdout.decode().strip()
    return _dem[n]
def member(n):
    """(member name, parameter list) of a std::string member"""
    d = demangle(n).replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "S").replace("[abi:cxx11]", "").replace("std::basic_string_view<char, std::char_traits<char> >", "V").replace("std::allocator<char>", "A")
    depth = 0; k = None
    for j, c in enumerate(d):
        if c in "<": depth += 1
        elif c == ">" and d[j - 1] != "-": depth -= 1
        elif c == "(" and depth == 0 and not d.startswith("(", j - 8) and d[:j].rstrip()[-8:] != "operator": k = j; break
    head = d[:k]; par = d[k + 1:d.rindex(")")]
    if " S::" in head: head = head[head.index(" S::") + 1:]
    h = head[head.index("S::") + 3:] if "S::" in head else head
    h = re.sub(r"(?<!operator)<.*$", "", h)
    ps = []; depth = 0; cur = ""
    for c in par:
        if c in "<(": depth += 1
        if c in ">)": depth -= 1
        if c == "," and depth == 0: ps.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): ps.append(cur.strip())
    return h, ps
class Str:
    """pieces: (region, start, length) | ("char", value) ; hashable, compared by identity of content"""
    __slots__ = ("p", "buf")
    def __init__(s, p=(), buf=None): s.p = tuple(p); s.buf = buf
    def __eq__(s, o): return isinstance(o, Str) and s.p == o.p and s.buf == o.buf
    def __hash__(s): return hash((s.p, s.buf))
def length(ps):
    n = LZ
    for p in ps: n = n + (p[2] if len(p) == 3 else 1)
    return n
def show(st, ps):
    if not ps: return "nothing"
    return " + ".join("'%s'" % p[1] if len(p) == 2 else "%s[%r, +%r)" % (p[0], st.cons.norm(p[1]), st.cons.norm(p[2])) for p in ps)

class StrI(Interp):
    bytewise = True
    VIEWS = ()            # regions that hold the characters of a view
    thrown = True         # string operations may run out of memory
    # ---- string objects
    def get(self, st, p):
        name, idx, rem = self.addr(st, p, SZ, "use of a string")
        f = st.mem[name].fields.get(rem)
        if f is None or f[2][0][2][0] != "v" or not isinstance(f[2][0][2][1], tuple) or f[2][0][2][1][0] != "str": raise Bad("mem", "uses a string that does not exist")
        return f[2][0][2][1][1]
    def set(self, st, p, s, new=False):
        name, idx, rem = self.addr(st, p, SZ, "write to a string")
        if not new:
            old = self.get(st, p)
            if old.buf is not None and (s is None or s.buf != old.buf): self.kill(st, old.buf)
        self.clobber(st, name, idx, rem, SZ)
        if s is not None:
            r = st.wreg(name); r.fields[rem] = (SZ, 0, ((LZ, r.len, ("v", ("str", s))),))
    def kill(self, st, buf):
        r = st.wreg(buf); r.st = ((LZ, r.len, FREED),); r.kind = "freed"
    def cut(self, st, ps):
        """drop empty pieces, join adjacent ones"""
        out = []
        for p in ps:
            if len(p) == 3:
                if st.eq(p[2]): continue
                if out and len(out[-1]) == 3 and out[-1][0] == p[0] and st.cons.eq0(out[-1][1] + out[-1][2] - p[1]):
                    out[-1] = (p[0], out[-1][1], st.cons.norm(out[-1][2] + p[2])); continue
            out.append(p)
        return tuple(out)
    def range(self, st, p, n, what="reads"):
        """the pieces designated by n bytes at p"""
        if st.eq(n): return ()
        if not st.ge(n): raise Bad("str", "a negative number of characters")
        if p == U: raise Bad("mem", "%s through an uninitialised pointer" % what)
        if p[1] == "null": raise Bad("str", "%s characters at a null pointer" % what)
        if p[1].startswith("@"):
            g = self.m["globals"].get(p[1][1:])
            if not (g and g.get("const") and "init" in g and n.const() and p[2].const()): raise Unanalysable("reads the global " + p[1])
            return tuple(("char", self.int(self.op(st, dig(g["init"], g["t"], p[2].c + k, ["i", 8]))).c) for k in range(n.c))
        r = st.reg(p[1])
        if r.kind == "freed": raise Bad("str", "%s characters of a string that no longer exists" % what)
        if r.kind not in ("view", "strbuf"): raise Unanalysable("characters of " + p[1])
        lim = r.len if r.kind == "view" else r.len + (-1)
        if not st.ge(p[2]): raise Bad("str", "%s characters before the view" % what)
        if not st.ge(lim - p[2] - n): raise Bad("str", "%s characters past the end of the view" % what)
        if r.kind == "view": return ((p[1], p[2], n),)
        return self.slice(st, r.site, p[2], n)
    def slice(self, st, ps, a, n):
        out = []; pos = LZ
        for p in ps:
            z = p[2] if len(p) == 3 else L1
            lo = a - pos if st.ge(a - pos) else LZ                # first offset in the piece
            hi = a + n - pos
            hi = z if st.ge(hi - z) else hi
            if st.ge(hi - lo + (-1)):
                out.append(p if len(p) == 2 else (p[0], p[1] + lo, hi - lo))
            pos = pos + z
        return tuple(out)
    def cstring(self, st, p):
        """content of the C string at p, which must be null-terminated"""
        if p == U: raise Bad("str", "passes an uninitialised pointer as a string")
        if p[1] == "null": raise Bad("str", "passes a null pointer as a string")
        if p[1].startswith("@"):
            g = self.m["globals"].get(p[1][1:]); out = []; k = p[2].c
            if not (g and g.get("const") and "init" in g): raise Unanalysable("the string " + p[1])
            while True:
                c = self.int(self.op(st, dig(g["init"], g["t"], k, ["i", 8]))).c
                if not c: return tuple(out)
                out.append(("char", c)); k += 1
        r = st.reg(p[1])
        if r.kind == "freed": raise Bad("str", "passes the characters of a string that no longer exists")
        if r.kind == "view": raise Bad("str", "passes the characters of the view itself, which are not null-terminated: they are read past the end of the view")
        if r.kind != "strbuf": raise Unanalysable("characters of " + p[1])
        c = r.site
        if not st.eq(p[2]): c = self.cut(st, self.slice(st, r.site, p[2], r.len + (-1) - p[2]))
        return c[:c.index(("char", 0))] if ("char", 0) in c else c
    def buf(self, st, p):
        s = self.get(st, p)
        if s.buf is None:
            b = st.fresh("strbuf"); r = Reg(b, 1, length(s.p) + 1, "strbuf"); r.site = s.p; r.ro = True; st.mem[b] = r
            s = Str(s.p, b); self.set(st, p, s)
        return Pt(s.buf)
    def copy_bytes(self, st, d, s, n):
        for x in (d, s):
            if x != U and x[0] == "p" and x[1] in st.mem and st.mem[x[1]].kind in ("view", "strbuf"): raise Unanalysable("copies characters by hand")
        return Interp.copy_bytes(self, st, d, s, n)
    def load(self, st, p, t):
        if p != U and p[0] == "p" and p[1] in st.mem and st.mem[p[1]].kind in ("view", "strbuf"): raise Unanalysable("reads single characters")
        return Interp.load(self, st, p, t)
    def store(self, st, p, v, t):
        if p != U and p[0] == "p" and p[1] in st.mem and st.mem[p[1]].kind in ("view", "strbuf"): raise Unanalysable("writes single characters")
        return Interp.store(self, st, p, v, t)
    # ---- calls
    def extern(self, fn, i, st, name, a):
        if re.fullmatch(DROP, name): return self.strcall(fn, i, st, name, a)
        if hasattr(self, "x_" + name): return Interp.extern(self, fn, i, st, name, a)
        return self.os(fn, i, st, name, a)
    def os(self, fn, i, st, name, a): raise Unanalysable("calls " + name)
    def x_strlen(self, st, i, a):
        if a[0] != U and a[0][0] == "p" and a[0][1] in st.mem and st.mem[a[0][1]].kind == "view": raise Bad("str", "searches for a terminator in the view, reading past its end")
        return I(length(self.cstring(st, a[0])))
    def x__ZSt24__throw_out_of_range_fmtPKcz(self, st, i, a):
        st.events = st.events + (("throw", "out_of_range"),); return Ellipsis
    def x__ZNSaIcEC2Ev(self, st, i, a): return U
    def x__ZNSaIcED2Ev(self, st, i, a): return U
    def x__ZNSaIcEC2ERKS_(self, st, i, a): return U
    def strcall(self, fn, i, st, name, a):
        h, ps = member(name)
        v = self.strop(st, i, h, ps, a)
        if v is None: raise Unanalysable("std::string::%s(%s)" % (h, ", ".join(ps)))
        v, may = v
        if may and self.thrown and not i.get("nounwind"):
            # out of memory: the objects stay as they were
            exc = self._pre.copy(); exc.events = exc.events + (("throw", "bad_alloc"),)
            st.env[i["id"]] = v
            if i["op"] == "invoke":
                g, f = self.lands(fn, i, exc); return "gofin", [(i["normal"], st)] + g, f
            return "also", [Final("unwind", None, exc, i.get("loc"))]
        return self.finish_call(i, st, v)
    def pieces(self, st, ps, a):
        """content designated by an argument list; None when unknown"""
        ps = [p.replace("unsigned long", "N") for p in ps]
        while ps and ps[-1] in ("A const&",): ps = ps[:-1]; a = a[:len(ps)]
        k = tuple(ps)
        if k == (): return ()
        if k in (("S const&",), ("S&&",)): return self.get(st, a[0]).p
        if k == ("S const&", "N", "N"): return self.sub(st, self.get(st, a[0]).p, self.int(a[1]), self.int(a[2]))
        if k == ("S const&", "N"): return self.sub(st, self.get(st, a[0]).p, self.int(a[1]), None)
        if k in (("V const&",), ("V&",), ("V&&",)):
            n, p = self.load(st, a[0], ["i", 64]), self.load(st, ptadd(a[0], L.k(8)), ["p"])
            return self.range(st, p, self.int(n))
        if k == ("V const&", "N", "N"):
            n, p = self.int(self.load(st, a[0], ["i", 64])), self.load(st, ptadd(a[0], L.k(8)), ["p"])
            pos, c = self.int(a[1]), self.int(a[2])
            if not st.ge(n - pos): raise Unanalysable("out_of_range")
            if not st.ge(c) or not st.ge(n - pos - c): c = n - pos
            return self.range(st, ptadd(p, pos), c)
        if k == ("char const*", "N"): return self.range(st, a[0], self.int(a[1]))
        if k == ("char const*",):
            if a[0] != U and a[0][0] == "p" and a[0][1] in st.mem and st.mem[a[0][1]].kind == "view": raise Bad("str", "copies up to a terminator, reading past the end of the view")
            return self.cstring(st, a[0])
        if k in (("char const*", "char const*"), ("char*", "char*")):
            if a[0] == NULL and a[1] == NULL: return ()
            if a[0][1] != a[1][1]: raise Unanalysable("range over two objects")
            return self.range(st, a[0], a[1][2] - a[0][2])
        if k == ("N", "char"):
            n = self.int(a[0])
            if n.const() and n.c < 64 and self.int(a[1]).const(): return (("char", self.int(a[1]).c),) * n.c
        if k == ("char",):
            if self.int(a[0]).const(): return (("char", self.int(a[0]).c),)
        return None
    def sub(self, st, p, pos, n):
        tot = length(p)
        if not st.ge(tot - pos): raise Unanalysable("out_of_range")
        if n is None or not st.ge(n) or not st.ge(tot - pos - n): n = tot - pos
        return self.slice(st, p, pos, n)
    def strop(self, st, i, h, ps, a):
        """-> (result, may throw) or None"""
        self._pre = st.copy()
        if h == "basic_string":
            c = self.pieces(st, list(ps), a[1:])
            if c is None: return None
            c = self.cut(st, c); self.set(st, a[0], Str(c), True)
            if ps[:1] == ["S&&"]:
                self.set(st, a[1], Str(())); return U, len(ps) > 1
            return U, bool([p for p in ps if p != "A const&"])
        if h == "~basic_string": self.set(st, a[0], None); return U, False
        if h in ("c_str", "data", "begin", "cbegin"): return self.buf(st, a[0]), False
        if h in ("end", "cend"): return ptadd(self.buf(st, a[0]), length(self.get(st, a[0]).p)), False
        if h in ("size", "length"): return I(length(self.get(st, a[0]).p)), False
        if h == "empty": return st.eq(length(self.get(st, a[0]).p)), False
        if h in ("operator[]", "at") and ps == ["unsigned long"]: return ptadd(self.buf(st, a[0]), self.int(a[1])), False
        if h == "front": return self.buf(st, a[0]), False
        if h in ("append", "operator+=", "push_back"):
            c = self.pieces(st, list(ps), a[1:])
            if c is None: return None
            self.set(st, a[0], Str(self.cut(st, self.get(st, a[0]).p + c)))
            return (U if h == "push_back" else a[0]), True
        if h in ("insert", "replace") and ps and ps[0] == "unsigned long":
            s = self.get(st, a[0]); n = length(s.p); k = self.int(a[1]); e = 0 if h == "insert" else 1; z = LZ
            if not st.ge(n - k): return None
            if e:
                z = self.int(a[2])
                if not st.ge(z) or not st.ge(n - k - z): z = n - k
            c = self.pieces(st, list(ps[1 + e:]), a[2 + e:])
            if c is None: return None
            self.set(st, a[0], Str(self.cut(st, self.slice(st, s.p, LZ, k) + c + self.slice(st, s.p, k + z, n - k - z)))); return a[0], True
        if h in ("assign", "operator="):
            c = self.pieces(st, list(ps), a[1:])
            if c is None: return None
            c = self.cut(st, c)
            mv = ps == ["S&&"]
            if mv and a[0] != a[1]: self.set(st, a[1], Str(()))
            self.set(st, a[0], Str(c)); return a[0], not mv
        if h == "clear": self.set(st, a[0], Str(())); return U, False
        if h == "pop_back":
            s = self.get(st, a[0]); n = length(s.p)
            if st.eq(n): raise Bad("str", "pop_back on an empty string")
            self.set(st, a[0], Str(self.cut(st, self.slice(st, s.p, LZ, n + (-1))))); return U, False
        if h in ("reserve", "shrink_to_fit"): self.set(st, a[0], Str(self.get(st, a[0]).p)); return U, True
        if h == "resize" and ps == ["unsigned long"]:
            s = self.get(st, a[0]); n = self.int(a[1])
            if not st.ge(length(s.p) - n): return None
            self.set(st, a[0], Str(self.cut(st, self.slice(st, s.p, LZ, n)))); return U, False
        if h == "erase" and ps == ["unsigned long", "unsigned long"]:
            s = self.get(st, a[0]); n = length(s.p); k = self.int(a[1]); c = self.int(a[2])
            if not st.ge(n - k): return None
            if not st.ge(c) or not st.ge(n - k - c): c = n - k
            self.set(st, a[0], Str(self.cut(st, self.slice(st, s.p, LZ, k) + self.slice(st, s.p, k + c, n - k - c)))); return a[0], False
        if h == "substr":      # result, object, position, count
            c = self.cut(st, self.sub(st, self.get(st, a[1]).p, self.int(a[2]), self.int(a[3])))
            self.set(st, a[0], Str(c), True); return U, True
        if h == "swap":
            x, y = self.get(st, a[0]), self.get(st, a[1])
            self.set(st, a[0], Str(y.p)); self.set(st, a[1], Str(x.p)); return U, False
        if h in ("operator basic_string_view", "operator V") or h.startswith("operator std::basic_string_view"):
            return [I(length(self.get(st, a[0]).p)), self.buf(st, a[0])], False
        return None
