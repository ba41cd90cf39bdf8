"""C28: SharedLibrary. Every ownership state reachable through the interface, every operation on it, dlopen failing or not
and every string allocation throwing or not: each handle is closed exactly once and lookups use the owned handle."""
from . import hallib
from .. import ir
from ..typ import TW, run_types, errs
R1 = "every opened handle has one owner and is closed exactly once"
R2 = "effect of each operation; lookups query the owned handle and return the symbol"
R3 = "ownership cannot be duplicated; lookups have the requested type"
HDR = "#include <xme/hal/shared_library.hpp>\n#include <type_traits>\nusing SL = xme::hal::SharedLibrary;\n"
def run(chk, thorough):
    try:
        h = hallib.Hal(chk, {"own": R1, "eff": R2}); h.libs()
        chk.count("operations analysed", h.n); chk.count("representations", len(h.states))
    except ir.BuildError as e: chk.fail(R2, "SharedLibrary operations", *errs(e.out))
    T = [TW(t, "static_assert(%s);" % c) for t, c in (
        ("not copy constructible", "!std::is_copy_constructible_v<SL> && !std::is_constructible_v<SL, SL&> && !std::is_constructible_v<SL, const SL>"),
        ("not copy assignable", "!std::is_copy_assignable_v<SL> && !std::is_assignable_v<SL&, SL&> && !std::is_assignable_v<SL&, const SL>"),
        ("movable", "std::is_nothrow_move_constructible_v<SL> && std::is_nothrow_move_assignable_v<SL>"),
        ("default constructible", "std::is_nothrow_default_constructible_v<SL>"),
        ("proc_address has the requested type", "std::is_same_v<decltype(std::declval<const SL&>().proc_address<int (*)(long)>(\"\")), int (*)(long)>"),
        ("is_open is a bool of a const library", "std::is_same_v<decltype(std::declval<const SL&>().is_open()), bool>"))]
    run_types(chk, R3, HDR, T)
    chk.need(R1, 15); chk.need(R2, 17); chk.need(R3, 6)
