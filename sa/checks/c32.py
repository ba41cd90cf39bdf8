"""C32: what the detection headers say about platform, architecture, compiler, standard library and language mode.
Decided by the compilers' preprocessors and front ends for every listed target; nothing is executed.  Targets whose C library
is not installed are analysed freestanding (the detection headers need none), the standard library with a stand-in <version>
that identifies itself the way libc++ and libstdc++ do."""
import os
from concurrent.futures import ThreadPoolExecutor
from .. import ir
from ..typ import errs
# triple: platform, x86, arm (None: not specified)
TARGETS = [
 ("x86_64-unknown-linux-gnu", "LINUX", 1, 0), ("i386-unknown-linux-gnu", "LINUX", 1, 0), ("i686-unknown-linux-gnu", "LINUX", 1, 0), ("x86_64-unknown-linux-gnux32", "LINUX", 1, 0), ("x86_64-linux-android", "LINUX", 1, 0), ("x86_64-linux-musl", "LINUX", 1, 0),
 ("aarch64-unknown-linux-gnu", "LINUX", 0, None), ("armv7-unknown-linux-gnueabihf", "LINUX", 0, 1), ("thumbv7-unknown-linux-gnueabihf", "LINUX", 0, 1), ("armv6-unknown-linux-gnueabi", "LINUX", 0, 1),
 ("riscv64-unknown-linux-gnu", "LINUX", 0, 0), ("powerpc64le-unknown-linux-gnu", "LINUX", 0, 0), ("s390x-unknown-linux-gnu", "LINUX", 0, 0), ("mips64-unknown-linux-gnu", "LINUX", 0, 0), ("loongarch64-unknown-linux-gnu", "LINUX", 0, 0),
 ("x86_64-apple-macosx", "APPLE", 1, 0), ("arm64-apple-macosx", "APPLE", 0, None), ("arm64-apple-ios", "APPLE", 0, None), ("i386-apple-macosx", "APPLE", 1, 0),
 ("x86_64-pc-windows-msvc", "WINDOWS", 1, 0), ("i686-pc-windows-msvc", "WINDOWS", 1, 0), ("x86_64-w64-windows-gnu", "WINDOWS", 1, 0), ("i686-w64-windows-gnu", "WINDOWS", 1, 0), ("aarch64-pc-windows-msvc", "WINDOWS", 0, None), ("thumbv7-pc-windows-msvc", "WINDOWS", 0, 1),
 ("x86_64-unknown-freebsd", "", 1, 0), ("aarch64-unknown-freebsd", "", 0, None), ("x86_64-unknown-openbsd", "", 1, 0), ("wasm32-unknown-unknown", "", 0, 0), ("armv7-none-eabi", "", 0, 1), ("x86_64-unknown-none", "", 1, 0),
]
def val(m, want): return "#if !defined(%s) || (%s) != %d\n#error %s should be %d\n#endif\n" % (m, m, want, m, want)
def isdef(m, want): return "#if%s %s\n#error %s should%s be defined\n#endif\n" % ("ndef" if want else "def", m, m, "" if want else " not")
def target(t, p, x, a):
    s = "#include <xme/hal/platform_macros.hpp>\n#include <xme/hal/architecture_detection.hpp>\n#include <xme/hal/compiler_detection.hpp>\n#include <xme/hal/platform_macros.hpp>\n"
    for q in ("LINUX", "APPLE", "WINDOWS"): s += val("XME_PLATFORM_" + q, q == p) + "static_assert(XME_PLATFORM_%s == %s, \"platform\");\n" % (q, "true" if q == p else "false")
    s += val("XME_ARCH_X86", x)
    if a is not None: s += val("XME_ARCH_ARM", a)
    s += isdef("XME_COMPILER_CLANG", 1) + isdef("XME_COMPILER_GCC", 0)
    if p in ("LINUX", "WINDOWS"): s += isdef("DLLEXPORT", 1) + isdef("DLLIMPORT", 1) + "struct DLLEXPORT S { int f(); };\nDLLEXPORT int f(int a) { return a; }\nextern DLLIMPORT int g(int);\n"
    return s
SHLIB = r'''
#include <type_traits>
#include <xme/hal/shared_library.hpp>
using L = xme::hal::SharedLibrary;
static_assert(!std::is_copy_constructible_v<L> && !std::is_copy_assignable_v<L> && std::is_nothrow_move_constructible_v<L> && std::is_nothrow_move_assignable_v<L> && std::is_nothrow_default_constructible_v<L>);
int (*use(L& l, std::string_view n))(int) { L a; a = static_cast<L&&>(l); L b(n); b.open(n); if(!b.is_open()) b.close(); return a.proc_address<int (*)(int)>(n); }
'''
MODE = r'''
#include <xme/setup.hpp>
#include <xme/setup.hpp>
%s
XME_INLINE int twice(int a) { return 2 * a; }
struct S { XME_INLINE int f() { return 3; } template<class T> XME_INLINE static T g(T t) { return t; } };
int call(S& s) { return twice(1) + s.f() + S::g(2); }
'''
ONCE = r'''
XME_CONSTEXPR int a() { return 1; }
static_assert(a() == 1, "XME_CONSTEXPR");
XME_CONSTEXPR20 int b() { return 2; }
#if __cpp_constexpr >= 202002L
static_assert(b() == 2, "XME_CONSTEXPR20");
#endif
'''
def run(chk, thorough):
    R1, R2, R3, R4, R5 = "target", "language mode", "standard library", "posix branch", "linkage of XME_INLINE"
    d = ir.tmpdir(); jobs = []
    std = {}
    for n, m in (("libc++", "#define _LIBCPP_VERSION 180100\n#define _LIBCPP_STD_VER 20\n"), ("libstdc++", "#define __GLIBCXX__ 20240904\n#define _GLIBCXX_RELEASE 13\n"), ("another library", "#define _OTHER_STL 1\n")):
        p = os.path.join(d, "std_" + n.replace(" ", "_").replace("+", "p")); os.makedirs(p, exist_ok=True)
        for h in ("version", "ciso646", "cstddef"): open(os.path.join(p, h), "w").write(("#pragma once\n") + m)
        std[n] = p
    for t, p, x, a in TARGETS:
        for s in ("c++20", "c++23") if thorough else ("c++20",): jobs.append((R1, "%s (%s)" % (t, s), target(t, p, x, a), False, ["-nostdinc", "--target=" + t, "-std=" + s]))
    jobs.append((R1, "native (g++)", target("", "LINUX", 1, 0).replace(isdef("XME_COMPILER_CLANG", 1) + isdef("XME_COMPILER_GCC", 0), isdef("XME_COMPILER_CLANG", 0) + isdef("XME_COMPILER_GCC", 1)), True, []))
    for n, p in std.items():
        for t in ("x86_64-unknown-linux-gnu", "arm64-apple-macosx", "x86_64-pc-windows-msvc"):
            s = "#include <xme/hal/std_detection.hpp>\n" + isdef("XME_LIBSTD_CLANG", n == "libc++") + isdef("XME_LIBSTD_GCC", n == "libstdc++")
            jobs.append((R3, "%s on %s" % (n, t), s, False, ["-nostdinc", "-isystem", p, "--target=" + t]))
            jobs.append((R3, "%s on %s, after its headers" % (n, t), "#include <cstddef>\n" + s, False, ["-nostdinc", "-isystem", p, "--target=" + t]))
    for g in (0, 1):
        s = "#include <xme/hal/std_detection.hpp>\n" + isdef("XME_LIBSTD_CLANG", 0) + isdef("XME_LIBSTD_GCC", 1)
        for pre in ("", "#include <vector>\n"): jobs.append((R3, "installed library (%s)%s" % ("g++" if g else "clang++", ", after its headers" if pre else ""), pre + s, bool(g), []))
        for m, c20, c23 in (("c++17", 0, 0), ("gnu++17", 0, 0), ("c++20", 1, 0), ("gnu++20", 1, 0), ("c++23", 0, 1), ("gnu++23", 0, 1), ("c++26", 0, 1)):
            if g and m == "c++26": continue
            if g and "23" in m: c20, c23 = 1, 0 # this g++ announces the final standard's version only later
            chk20 = "#if __cplusplus >= 202400L && defined(XME_CPP20)\n#error two standards\n#endif\n" + isdef("XME_CPP20", c20) + isdef("XME_CPP23", c23) + isdef("XME_INLINE", 1)
            jobs.append((R2, "%s (%s)" % (m, "g++" if g else "clang++"), MODE % (chk20 + ONCE), bool(g), ["-std=" + m]))
        for pl, fl in (("Linux", []), ("Apple", ["-U__linux__", "-Ulinux", "-U__linux", "-D__APPLE__"])):
            for s in ("c++20", "c++23"): jobs.append((R4, "SharedLibrary on %s (%s, %s)" % (pl, "g++" if g else "clang++", s), SHLIB, bool(g), ["-std=" + s] + fl))
    for t in ("x86_64-pc-windows-msvc", "arm64-apple-macosx"): jobs.append((R2, "XME_INLINE on " + t, MODE % "", False, ["-nostdinc", "--target=" + t]))
    def one(j): return ir.compile_only(j[2], (), j[4], False, j[3])
    with ThreadPoolExecutor(8) as ex:
        for j, (ok, out) in zip(jobs, ex.map(one, jobs)):
            if ok: chk.ok(j[0], j[1], "every assertion holds")
            else:
                e, at = errs(out)
                chk.fail(j[0], j[1], e or out[-300:], at)
    # a function defined with XME_INLINE may be defined in several translation units
    import re
    for fl in ((), ("-fms-compatibility",)):
        try: t = ir.sh([ir.CLANG, "-std=c++20", "-I", os.path.join(ir.REPO, "include"), "-w", "-O0", "-S", "-emit-llvm", "-o", "-"] + list(fl) + ["-x", "c++", put(d, MODE % "" + "int (*keep)(int) = twice; int (S::*keep2)() = &S::f;\n")])[1]
        except Exception as e: chk.undecided(R5, "emit", str(e)); continue
        ds = {m[2]: m[1] for m in re.finditer(r"^define (.*?)@(\w+)\(", t, re.M)}
        got = {n: lk for n, lk in ds.items() if "twice" in n or "1S1f" in n}
        if len(got) < 2: chk.undecided(R5, "definitions", "not found")
        for n, lk in got.items(): chk.ob(R5, "%s (%s)" % (n, " ".join(fl) or "default"), "linkonce_odr" in lk or "weak_odr" in lk or "internal" in lk, "strong definition: %s" % lk, "include/xme/setup.hpp")
    for h in ("hal/platform_macros.hpp", "hal/architecture_detection.hpp", "hal/compiler_detection.hpp", "hal/std_detection.hpp", "hal/shared_library.hpp", "setup.hpp"): chk.files.add("include/xme/" + h)
    chk.count("targets", len(TARGETS)); chk.need(R1, 30); chk.need(R2, 14); chk.need(R3, 20); chk.need(R4, 6); chk.need(R5, 2)
def put(d, s):
    f = os.path.join(d, "m%d.cpp" % next(ir._seqs)); open(f, "w").write(s); return f
