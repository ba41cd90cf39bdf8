"""C29: names and values given as views reach the operating system as null-terminated copies of exactly their characters."""
from . import hallib
from .. import ir
from ..typ import errs
R1 = "the system receives exactly the view's characters, null-terminated"
R2 = "an empty value unsets, any other overwrites; the result is what the system returned"
def run(chk, thorough):
    try:
        h = hallib.Hal(chk, {"str": R1, "eff": R2}); h.env()
        h.cats = {"str": R1}; h.libs()
        chk.count("operations analysed", h.n)
    except ir.BuildError as e: chk.fail(R1, "hal functions", *errs(e.out))
    chk.need(R1, 9); chk.need(R2, 3)
