"""find and reverse on every instruction-set configuration (C26, C27)."""
from ..simd import *
from .itlib import ITERS
from concurrent.futures import ThreadPoolExecutor
CONFIGS = [("scalar", []), ("AVX2", ["-mavx2", "-DXME_SIMD_ENABLE_AVX2"]), ("SSE2", ["-msse2", "-DXME_SIMD_ENABLE_SSE2"]), ("SSSE3", ["-mssse3", "-DXME_SIMD_ENABLE_SSSE3"]),
           ("SSE4.1", ["-msse4.1", "-DXME_SIMD_ENABLE_SSE41"]), ("SSE3", ["-msse3", "-DXME_SIMD_ENABLE_SSE3"]), ("SSE4.2", ["-msse4.2", "-DXME_SIMD_ENABLE_SSE42"]),
           ("AVX", ["-mavx", "-DXME_SIMD_ENABLE_AVX"]), ("AVX-512", ["-mavx512f", "-DXME_SIMD_ENABLE_AVX512F"]), ("SSE", ["-DXME_SIMD_ENABLE_SSE"]), ("MMX", ["-DXME_SIMD_ENABLE_MMX"]), ("AVX2, all targets", ["-march=x86-64-v4", "-DXME_SIMD_ENABLE_AVX2"])]
MAIN = ("scalar", "AVX2", "SSE2", "SSSE3", "SSE4.1")
HDR = ITERS + r'''
#include <cstddef>
#include <memory>
#include <span>
#include <vector>
struct T1 { char a; }; struct T2 { short a; }; struct T3 { char a[3]; }; struct T4 { int a; }; struct T8 { long a; }; struct T12 { int a[3]; }; struct T16 { long a[2]; }; struct T32 { long a[4]; }; struct T1u { unsigned char a; T1u() = default; T1u(const T1u&) = default; T1u& operator=(const T1u&) = default; };
extern "C" bool t_eq(const void*, const void*) noexcept;
#define EQ(T) inline bool operator==(const T& a, const T& b) noexcept { return t_eq(&a, &b); }
EQ(T1) EQ(T2) EQ(T3) EQ(T4) EQ(T8) EQ(T12) EQ(T16) EQ(T32) EQ(T1u)
enum class E1 : signed char {}; enum class E2 : unsigned short {}; enum class E4 {}; enum class E8 : unsigned long {}; enum Ec : unsigned char {};
template<class T> struct Rg { T* f; T* l; T* begin() const { return f; } T* end() const { return l; } };
template<class T> struct Rf { T* f; T* l; Fw<T> begin() const { return f; } Fw<T> end() const { return l; } };
template<class T> struct Rs { T* f; T* l; T* begin() const { return f; } struct S { T* e; friend bool operator==(T* p, S s) { return p == s.e; } }; S end() const { return {l}; } };
template<class T> struct Pe { T* e; friend bool operator==(T* p, Pe s) { return p == s.e; } };
template<class T> struct Pz { T* e; friend bool operator==(T* p, Pz s) { return p == s.e; } friend std::ptrdiff_t operator-(Pz s, T* p) { return s.e - p; } friend std::ptrdiff_t operator-(T* p, Pz s) { return p - s.e; } };
'''
#        type, size, bits, alignment, == compares representations
TYPES = [("char", 1, 8, 1, True), ("signed char", 1, 8, 1, True), ("unsigned char", 1, 8, 1, True), ("bool", 1, 1, 1, True), ("char8_t", 1, 8, 1, True), ("E1", 1, 8, 1, True), ("Ec", 1, 8, 1, True), ("T1", 1, 8, 1, False), ("T1u", 1, 8, 1, False), ("std::byte", 1, 8, 1, True),
         ("short", 2, 16, 2, True), ("unsigned short", 2, 16, 2, True), ("char16_t", 2, 16, 2, True), ("E2", 2, 16, 2, True), ("T2", 2, 16, 2, False),
         ("int", 4, 32, 4, True), ("unsigned", 4, 32, 4, True), ("wchar_t", 4, 32, 4, True), ("char32_t", 4, 32, 4, True), ("E4", 4, 32, 4, True), ("float", 4, 32, 4, False), ("T4", 4, 32, 4, False),
         ("long", 8, 64, 8, True), ("unsigned long", 8, 64, 8, True), ("long long", 8, 64, 8, True), ("unsigned long long", 8, 64, 8, True), ("void*", 8, 64, 8, True), ("const int*", 8, 64, 8, True), ("E8", 8, 64, 8, True), ("double", 8, 64, 8, False), ("T8", 8, 64, 8, False),
         ("T3", 3, 24, 1, False), ("T12", 12, 96, 4, False), ("T16", 16, 128, 8, False), ("T32", 32, 256, 8, False)]
n = L.v("n")
def setup(mode, esize, m0):
    """m0: a concrete length, or None for all lengths"""
    def init():
        st = world(n, esize)
        if m0 is not None: st.cons.add_eq(n - m0)
        return st, [Pt("S"), Pt("S", st.cons.norm(n) * esize)] + ([Pt("V")] if mode == "find" else []), ("n",)
    return init
def compile_all(cfgs, texts):
    def one(c):
        try: return ir.compile_ir(texts[c[0]], pipe=ir.PIPE_LOOP + ",globalopt", flags=c[1])
        except ir.BuildError as e: return e
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, cfgs))
def _roots(f, o, by, seen):
    """leaves a pointer is computed from: argument numbers, or other operations"""
    if o.get("k") == "gep": return _roots(f, o["base"], by, seen)
    if o.get("k") != "v": return {o.get("k")}
    i = o["id"]
    if i in seen: return set()
    seen.add(i)
    if i not in by: return {i}
    x = by[i]; r = set()
    if x["op"] == "getelementptr": r = _roots(f, x["base"], by, seen)
    elif x["op"] == "phi":
        for v, b in x["inc"]: r |= _roots(f, v, by, seen)
    elif x["op"] == "select":
        for v in x["ops"][1:]: r |= _roots(f, v, by, seen)
    else: r = {x["op"]}
    return r
def aliasing(chk, rule, cfgs, inc, form, ref):
    """every access to the caller's objects is made through a type that may alias their type (basic.lval): otherwise an optimiser may reorder it with the
    caller's own accesses. The type of an access is the one the front end records for alias analysis; the allowed ones are those of a plain use of T."""
    texts = {}; flags = []
    for name, fl in cfgs:
        s = HDR + inc
        for k, T in enumerate(TYPES):
            s += "using TT%d = %s;\n" % (k, T[0])
            s += 'extern "C" %s\nextern "C" %s\n' % (form.format(T="TT%d" % k, k=k), ref.format(T="TT%d" % k, k=k))
        texts[name] = s; flags.append((name, fl + ["-fstrict-aliasing"]))
    for (name, fl), m in zip(flags, compile_all(flags, texts)):
        if isinstance(m, ir.BuildError): continue        # reported elsewhere
        for k, T in enumerate(TYPES):
            def accesses(fn, only):
                f = m["functions"].get(fn)
                if not f or f["decl"]: return None
                ins = [x for b in f["blocks"] for x in b["ins"]]; by = {x["id"]: x for x in ins}; out = []
                for x in ins:
                    if x["op"] not in ("load", "store"): continue
                    rt = _roots(f, x["ops"][0 if x["op"] == "load" else 1], by, set())
                    if not only or rt and all(isinstance(r, int) for r in rt): out.append(x)
                return out
            a, r = accesses("a%d" % k, True), accesses("r%d" % k, False)
            if a is None or r is None: chk.undecided(rule, "%s: %s" % (name, T[0]), "witness not emitted"); continue
            ok = {x.get("tbaa") for x in r} | {None, "omnipotent char"}; bad = [x for x in a if x.get("tbaa") not in ok]
            if bad: chk.fail(rule, "%s: %s" % (name, T[0]), "an object of type %s is accessed as %s" % (T[0], bad[0]["tbaa"]), ir.where(bad[0].get("loc")))
            else: chk.ok(rule, "%s: %s" % (name, T[0]))
