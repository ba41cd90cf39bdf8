"""C30: instruction-set selection.  Every static fact below is decided by both compilers' preprocessors and type checkers
over the enabling macros (all 2^10 subsets) and the compiler's target options."""
import itertools
from concurrent.futures import ThreadPoolExecutor
from .. import ir
from ..typ import errs
LV = ["MMX", "SSE", "SSE2", "SSE3", "SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "AVX512F"]
ESIMD = [x.lower() for x in LV]
TGT = ["__MMX__", "__SSE__", "__SSE2__", "__SSE3__", "__SSSE3__", "__SSE4_1__", "__SSE4_2__", "__AVX__", "__AVX2__", "__AVX512F__"]
OPT = ["-mmmx", "-msse", "-msse2", "-msse3", "-mssse3", "-msse4.1", "-msse4.2", "-mavx", "-mavx2", "-mavx512f"]
INC = "#include <xme/hal/simd_detection.hpp>\n"
def prog(enabled):
    """the assertions for one set of enabled levels"""
    top = max(enabled) if enabled else -1
    o = [INC]
    mask = 0
    for i, l in enumerate(LV):
        use = i <= top
        mask |= use << i
        o.append("#if !defined(XME_SIMD_USE_%s) || !defined(XME_SIMD_HAS_%s)\n#error XME_SIMD level %s has no value\n#endif" % (l, l, l))
        o.append("#if %sXME_SIMD_USE_%s\n#error XME_SIMD_USE_%s\n#endif" % ("!" if use else "", l, l))
        o.append("static_assert(XME_SIMD_USE_%s == %s, \"use %s\");" % (l, "true" if use else "false", l))
        o.append("#ifdef %s\n#define HAVE_%s true\n#else\n#define HAVE_%s false\n#endif" % (TGT[i], l, l))
        o.append("#if XME_SIMD_HAS_%s\nstatic_assert(HAVE_%s);\n#else\nstatic_assert(!HAVE_%s, \"has %s\");\n#endif" % (l, l, l, l))
        o.append("static_assert(XME_SIMD_HAS_%s == HAVE_%s, \"has %s\");" % (l, l, l))
        o.append("static_assert(XME_SIMD_%s == 1u << %d && static_cast<unsigned>(xme::hal::ESimd::%s) == 1u << %d, \"value of %s\");" % (l, i, ESIMD[i], i, l))
        o.append("static_assert(((XME_ENABLED_SIMD & XME_SIMD_%s) != 0) == %s && ((XME_SUPPORTED_SIMD & XME_SIMD_%s) != 0) == HAVE_%s, \"masks of %s\");" % (l, "true" if use else "false", l, l, l))
        o.append("static_assert((xme::hal::enabled_simd & xme::hal::ESimd::%s) == xme::hal::ESimd(%d), \"enabled_simd of %s\");" % (ESIMD[i], (1 << i) if use else 0, l))
        o.append("static_assert((xme::hal::supported_simd & xme::hal::ESimd::%s) == xme::hal::ESimd(HAVE_%s ? %d : 0), \"supported_simd of %s\");" % (ESIMD[i], l, 1 << i, l))
    o.append("static_assert(static_cast<unsigned>(XME_ENABLED_SIMD) == %du && xme::hal::enabled_simd == xme::hal::ESimd(%d), \"enabled mask\");" % (mask, mask))
    return "\n".join(o) + "\n"
def opsprog():
    o = [INC, "#include <type_traits>\n"]
    for i, a in enumerate(ESIMD):
        for j, b in enumerate(ESIMD):
            o.append("static_assert((xme::hal::ESimd::%s | xme::hal::ESimd::%s) == xme::hal::ESimd(%d), \"| of %s, %s\");" % (a, b, (1 << i) | (1 << j), a, b))
            o.append("static_assert((xme::hal::ESimd::%s & xme::hal::ESimd::%s) == xme::hal::ESimd(%d), \"& of %s, %s\");" % (a, b, (1 << i) if i == j else 0, a, b))
            o.append("static_assert(((xme::hal::ESimd::%s | xme::hal::ESimd::%s) & xme::hal::ESimd::%s) == xme::hal::ESimd::%s, \"absorption\");" % (a, b, a, a))
    o.append("static_assert((xme::hal::ESimd(0x3ff) & xme::hal::ESimd(0x2aa)) == xme::hal::ESimd(0x2aa) && (xme::hal::ESimd(0x155) | xme::hal::ESimd(0x2aa)) == xme::hal::ESimd(0x3ff), \"masks\");")
    o.append("static_assert(noexcept(xme::hal::ESimd{} | xme::hal::ESimd{}) && noexcept(xme::hal::ESimd{} & xme::hal::ESimd{}));")
    o.append("static_assert(std::is_same_v<std::underlying_type_t<xme::hal::ESimd>, std::uint32_t>);")
    return "\n".join(o) + "\n"
ALG = r'''
#include <cstdint>
#include <vector>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
struct P3 { char a[3]; bool operator==(const P3&) const = default; }; struct P8 { long a; bool operator==(const P8&) const = default; };
template<class T> T* go(T* b, T* e, const T& v) { xme::reverse(b, e); auto p = xme::find(b, e, v); auto q = xme::find<std::execution::sequenced_policy>(b, e, v); return p == e ? q : p; }
template char* go(char*, char*, const char&); template short* go(short*, short*, const short&); template int* go(int*, int*, const int&); template long* go(long*, long*, const long&);
template unsigned char* go(unsigned char*, unsigned char*, const unsigned char&); template float* go(float*, float*, const float&); template double* go(double*, double*, const double&); template P3* go(P3*, P3*, const P3&); template P8* go(P8*, P8*, const P8&); template void** go(void**, void**, void* const&); template bool* go(bool*, bool*, const bool&);
'''
def run(chk, thorough):
    tier = "thorough" if thorough else "quick"
    jobs = []
    subsets = [[i for i in range(10) if b >> i & 1] for b in range(1024)]
    if tier != "thorough":
        # every single level, every pair, every prefix of the chain, everything; the rest of the 1024 in the thorough tier
        keep = [s for s in subsets if len(s) <= 2 or len(s) >= 9 or s == list(range(len(s))) or s == list(range(10 - len(s), 10))]
        quick = [(s, c, ()) for s in keep for c in (0, 1)] + [(s, k & 1, ()) for k, s in enumerate(subsets) if s not in keep]
    else: quick = [(s, c, ()) for s in subsets for c in (0, 1)]
    for s, c, f in quick: jobs.append(("enabled levels", "{%s} enabled (%s)" % (", ".join(LV[i] for i in s), "g++" if c else "clang++"), prog(s), ["-DXME_SIMD_ENABLE_" + LV[i] for i in s], c, []))
    # the enabling macro may be defined by the program instead, with any replacement list; a redefinition is ill-formed
    for i, l in enumerate(LV):
        for how in ("#define XME_SIMD_ENABLE_%s\n", "#define XME_SIMD_ENABLE_%s 1\n", "#define XME_SIMD_ENABLE_%s true\n"):
            for c in (0, 1):
                jobs.append(("enabled levels", "%s (%s)" % ((how % l).strip(), "g++" if c else "clang++"), (how % l) + prog([i]), [], c, []))
                if i: jobs.append(("enabled levels", "%s together with %s (%s)" % ((how % l).strip(), LV[i - 1], "g++" if c else "clang++"), (how % l) + (how % LV[i - 1]) + prog([i - 1, i]), [], c, []))
    # target options: what the compiler offers must be what HAS_* and the masks say, whatever is enabled
    tg = [[], ["-march=native"], ["-march=x86-64-v2"], ["-march=x86-64-v3"], ["-march=x86-64-v4"], ["-march=nehalem"], ["-march=skylake"]] + [[o] for o in OPT] + [["-mavx2", "-mno-sse4.2"], ["-mno-sse3", "-mmmx"], ["-mno-mmx"]]
    ens = [[], [0], [1], [2], [5], [7], [8], [9]] if tier != "thorough" else [[i] for i in range(10)] + [[]]
    for f in tg:
        for s in ens:
            for c in (0, 1): jobs.append(("target levels", "%s with %s enabled (%s)" % (" ".join(f) or "default target", ", ".join(LV[i] for i in s) or "nothing", "g++" if c else "clang++"), prog(s), ["-DXME_SIMD_ENABLE_" + LV[i] for i in s] + f, c, []))
    # every combination of the target macros themselves (clang lets them be set one by one)
    combos = range(1024) if tier == "thorough" else [b for b in range(1024) if bin(b).count("1") in (0, 1, 9, 10) or (b * 37) % 29 == 3]
    for b in combos:
        fl = []
        for i in range(10): fl += ["-U" + TGT[i]] + (["-D%s=1" % TGT[i]] if b >> i & 1 else [])
        jobs.append(("target levels", "target macros %s" % (", ".join(TGT[i] for i in range(10) if b >> i & 1) or "none"), prog([8]), fl + ["-DXME_SIMD_ENABLE_AVX2"], 0, []))
    for c in (0, 1):
        for en in ([], ["-DXME_SIMD_ENABLE_AVX2"]): jobs.append(("operators and values", "operators of ESimd (%s%s)" % ("g++" if c else "clang++", ", AVX2 enabled" if en else ""), opsprog(), en, c, []))
    # the algorithms select an implementation the target can compile: any level enabled, any target at or above it
    pairs = [(e, t) for e in [None] + list(range(10)) for t in [None] + list(range(10)) if (e is None) or (t is not None and t >= e) or (t is None and e <= 2)]
    if tier != "thorough": pairs = [(e, t) for e, t in pairs if t is None or e is None and t in (5, 8, 9) or t == e or t == 9]
    for e, t in pairs:
        for c in (0, 1):
            jobs.append(("selected implementation", "find and reverse with %s enabled for %s (%s)" % (LV[e] if e is not None else "nothing", OPT[t] if t is not None else "the default target", "g++" if c else "clang++"), ALG,
                         (["-DXME_SIMD_ENABLE_" + LV[e]] if e is not None else []) + ([OPT[t]] if t is not None else []), c, ["codegen"]))
    def one(j):
        rule, desc, src, fl, c, how = j
        if "codegen" in how: return ir.compile_only(src, (), list(fl) + ["-S", "-O0", "-o", "/dev/null"], False, bool(c), drop=("-fsyntax-only",))
        ok, out = ir.compile_only(src, (), fl, False, bool(c), drop=("-w",))
        # redefining a macro with another replacement list is ill-formed; the compilers only warn
        bad = [l for l in out.splitlines() if "redefined" in l]
        return ok and not bad, out if not bad else "\n".join(l.replace(" warning: ", " error: ") for l in bad)
    with ThreadPoolExecutor(8) as ex:
        for j, (ok, out) in zip(jobs, ex.map(one, jobs)):
            if ok: chk.ok(j[0], j[1], "type-checks")
            else:
                e, at = errs(out)
                chk.fail(j[0], j[1], "rejected by the compiler: " + (e or out[-300:]), at)
    chk.count("translation units", len(jobs))
    chk.files.update(["include/xme/hal/simd_detection.hpp", "include/xme/core/algorithm/find.hpp", "include/xme/core/algorithm/reverse.hpp"])
    chk.need("enabled levels", 1000); chk.need("target levels", 150); chk.need("selected implementation", 30)
