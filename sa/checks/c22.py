from .mathlib import *
from ..typ import TW, run_types
H = """#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <type_traits>
#include <xme/core/utility/forward_like.hpp>
#include <xme/core/utility/to_unsigned.hpp>
#include <xme/core/bit/has_single_bit.hpp>
#include <xme/core/type_traits/is_scoped_enum.hpp>
#include <xme/core/type_traits/is_initializer_list.hpp>
#include <xme/core/concepts/arithmetic.hpp>
#include <xme/core/concepts/different_from.hpp>
#include <xme/core/concepts/constant_iterator.hpp>
"""
def same(a, b): return "static_assert(std::is_same_v<%s, %s>);" % (a, b)
def types():
    W = []
    T = ["int", "std::string", "struct X_"]
    pre = "struct X_ {};"
    for base in ["int", "std::string", "X_", "int*"]:
        for L, lref, const in [("L", 0, 0), ("const L", 0, 1), ("L&", 1, 0), ("const L&", 1, 1), ("L&&", 0, 0), ("const L&&", 0, 1), ("volatile L", 0, 0), ("volatile L&", 1, 0)]:
            for arg, ac in [("%s&", 0), ("const %s&", 1), ("%s&&", 0), ("const %s&&", 1)]:
                a = arg % base if base != "int*" or "const" not in arg else arg.replace("const %s", "%s const") % base
                want = ("int* const" if base == "int*" else "const " + base) if const or ac else base
                want += "&" if lref else "&&"
                W.append(TW("forward_like<%s>(%s)" % (L, a), pre + "struct L {}; " + same("decltype(xme::forward_like<%s>(std::declval<%s>()))" % (L, a), want) +
                            "static_assert(noexcept(xme::forward_like<%s>(std::declval<%s>())));" % (L, a)))
    enums = [("enum class E { a };", "E", 1), ("enum class E : unsigned char { a };", "E", 1), ("enum E { a };", "E", 0), ("enum E : long { a };", "E", 0), ("enum struct E : bool { a };", "E", 1),
             ("struct E {};", "E", 0), ("union E { int a; };", "E", 0), ("struct E { operator int() const; };", "E", 0), ("using E = int;", "E", 0), ("using E = int*;", "E", 0), ("using E = void;", "E", 0),
             ("enum class F { a }; using E = F&;", "E", 0), ("enum class F { a }; using E = const F;", "E", 1), ("enum F { a }; using E = const F;", "E", 0), ("enum class E : int; ", "E", 1), ("using E = int(int);", "E", 0), ("using E = int[3];", "E", 0), ("using E = std::nullptr_t;", "E", 0), ("struct E;", "E", 0)]
    for d, e, v in enums: W.append(TW("is_scoped_enum: %s" % d, d + "static_assert(xme::is_scoped_enum<%s> == %s);" % (e, "true" if v else "false")))
    for t, v in [("std::initializer_list<int>", 1), ("std::initializer_list<std::string>", 1), ("std::initializer_list<std::initializer_list<int>>", 1), ("std::initializer_list<const int*>", 1), ("std::initializer_list<const int>", 1), ("std::initializer_list<volatile int>", 1), ("std::initializer_list<int(*)(int)>", 1), ("std::initializer_list<bool>", 1), ("std::initializer_list<int>*", 0), ("std::initializer_list<int>[2]", 0), ("int", 0), ("std::vector<int>", 0), ("int[2]", 0), ("std::string", 0), ("void", 0), ("std::vector<std::initializer_list<int>>", 0)]:
        W.append(TW("is_initializer_list<%s>" % t, "static_assert(xme::is_initializer_list<%s> == %s);" % (t, "true" if v else "false")))
    ints_s = ["signed char", "short", "int", "long", "long long"] ; ints_u = ["unsigned char", "unsigned short", "unsigned", "unsigned long", "unsigned long long", "bool", "char8_t", "char16_t", "char32_t"]
    fl = ["float", "double", "long double"]; other = ["void", "int*", "std::string", "int&", "X_", "E_", "std::nullptr_t", "int[2]", "int(int)"]
    pre = "struct X_ {}; enum E_ { e_ };"
    def b(x): return "true" if x else "false"
    for q in ["", "const ", "volatile "]:
        for t in ints_s + ints_u + fl + (other if not q else []) + ["char", "wchar_t"]:
            isint = t in ints_s + ints_u + ["char", "wchar_t"]; s = t in ints_s; u = t in ints_u
            c = "static_assert(xme::CFloatingPoint<%s> == %s); static_assert(xme::CIntegral<%s> == %s); static_assert(xme::CArithmetic<%s> == %s);" % (q + t, b(t in fl), q + t, b(isint), q + t, b(isint or t in fl))
            if t in ("char", "wchar_t"): c += "static_assert(xme::CSignedIntegral<%s> == std::is_signed_v<%s>); static_assert(xme::CUnsignedIntegral<%s> == std::is_unsigned_v<%s>);" % ((q + t,) * 4)
            else: c += "static_assert(xme::CSignedIntegral<%s> == %s); static_assert(xme::CUnsignedIntegral<%s> == %s);" % (q + t, b(s), q + t, b(u))
            W.append(TW("arithmetic concepts on %s%s" % (q, t), pre + c))
    ts = ["int", "const int", "int&", "const int&", "int&&", "X_", "const X_&", "X_*", "long"]
    strip = lambda t: t.replace("const ", "").replace("&", "")
    for x in ts:
        for y in ts:
            W.append(TW("CDifferentFrom<%s, %s>" % (x, y), pre + "static_assert(xme::CDifferentFrom<%s, %s> == %s);" % (x, y, b(x != y))))
            if y in ("int", "X_", "long", "X_*"):
                W.append(TW("CDifferentFromSelf<%s, %s>" % (x, y), pre + "static_assert(xme::CDifferentFromSelf<%s, %s> == %s);" % (x, y, b(strip(x) != y))))
    for x, y, v in [("int(&)[3]", "int*", 1), ("int[3]", "int*", 1), ("int[3]", "int[3]", 0), ("const int[3]", "int[3]", 0), ("int(&)(int)", "int(*)(int)", 1), ("int(int)", "int(*)(int)", 1), ("int(&)(int)", "int(int)", 0), ("volatile int&", "int", 0), ("const volatile int", "int", 0), ("const int*", "int*", 1), ("int* const&", "int*", 0), ("void", "void", 0), ("const void", "void", 0), ("X_&&", "X_", 0), ("D_", "X_", 1), ("D_&", "X_", 1), ("int", "unsigned", 1)]:
        W.append(TW("CDifferentFromSelf<%s, %s>" % (x, y), pre + "struct D_ : X_ {}; static_assert(xme::CDifferentFromSelf<%s, %s> == %s);" % (x, y, b(v))))
    for g in (False, True):
        W.append(TW("has_single_bit of unsigned __int128 (%s)" % ("g++" if g else "clang++"), "".join("static_assert(xme::has_single_bit((unsigned __int128)(%s)) == %s);" % (e, v) for e, v in [("0", "false"), ("3", "false"), ("-1", "false"), ("((unsigned __int128)1 << 64) + 1", "false"), ("((unsigned __int128)3 << 100)", "false"), ("((unsigned __int128)1 << 127) + ((unsigned __int128)1 << 64)", "false")] + [("(unsigned __int128)1 << %d" % k, "true") for k in (0, 1, 31, 32, 63, 64, 65, 100, 126, 127)]), gcc=g, flags=["-std=gnu++20"]))
    for it, v in [("int*", 0), ("const int*", 1), ("std::vector<int>::iterator", 0), ("std::vector<int>::const_iterator", 1), ("std::vector<bool>::iterator", 0), ("int", 0), ("std::string::const_iterator", 1), ("std::string::iterator", 0)]:
        W.append(TW("CConstantIterator<%s>" % it, "static_assert(xme::CConstantIterator<%s> == %s);" % (it, b(v))))
    for g in (False, True):
        for sd in ("c++20", "gnu++20"):
            for t in ("__int128", "unsigned __int128"): W.append(TW("to_unsigned(%s), %s, %s" % (t, sd, "g++" if g else "clang++"), same("decltype(xme::to_unsigned(std::declval<%s>()))" % t, "unsigned __int128") + "static_assert(xme::to_unsigned((%s)-1) == (unsigned __int128)-1);" % t, gcc=g, flags=["-std=" + sd]))
    W.append(TW("iter_const_reference_t", same("xme::iter_const_reference_t<int*>", "const int&") + same("xme::iter_const_reference_t<const int*>", "const int&") + same("xme::iter_const_reference_t<std::vector<std::string>::iterator>", "const std::string&")))
    for s, u in zip(ints_s, ints_u): 
        for t in (s, u): W.append(TW("to_unsigned(%s) has the unsigned type of the same width" % t, same("decltype(xme::to_unsigned(std::declval<%s>()))" % t, u)))
    for t in ["int", "short", "long", "char", "signed char"]:
        W.append(TW("has_single_bit rejects %s" % t, "auto f(%s n) { return @@; }" % t, fail="xme::has_single_bit(n)", control="xme::has_single_bit(static_cast<std::make_unsigned_t<%s>>(n))" % t))
    return W
UI = {"unsigned char": 8, "unsigned short": 16, "unsigned": 32, "unsigned long": 64, "unsigned long long": 64}
def wits():
    W = []
    H64 = {"unsigned long long": "unsigned long"}
    for T in ["signed char", "short", "int", "long", "unsigned char", "unsigned short", "unsigned", "unsigned long"]:
        U = T if T.startswith("unsigned") else ("unsigned char" if T == "signed char" else "unsigned" if T == "int" else "unsigned " + T)
        def f(r, o, T=T, U=U):
            v, loc = out(r, "r", 0, U); yield "the bits are preserved", v, o.el("a", 0, T), loc
        W.append(Wit(nm(), "%s a, %s& r" % (T, U), "r = xme::to_unsigned(a);", [("a", ("val", T)), ("r", lay(U))], f, "to_unsigned(%s)" % T))
        # forward_like returns a reference to its very argument
        def ff(r, o): yield from retptr(r, "r", 0, "a", "")
        for L in ("int", "const int", "int&", "const int&"):
            W.append(Wit(nm(), "%s& a, const void*& r" % T, "auto&& x = xme::forward_like<%s>(a); r = &x;" % L, [("a", lay(T)), ("r", ["p"])], ff, "forward_like<%s>(%s&) designates its argument" % (L, T)))
    return W
def run(chk, thorough):
    run_types(chk, "type classification", H, types())
    run_wits(chk, "value preservation", H, wits())
    from .. import bits
    bits.single_bit(chk, "single bit", H)
    chk.need("type classification", 250); chk.need("value preservation", 30); chk.need("single bit", 4)
