from . import moveonly
from .arraylib import run_array
from .histlib import run_hist
RULE = "sequence contents, size, capacity and returned position"; SRC = "source elements of copies are untouched"
R2 = "contents along client histories"
def run(chk, thorough):
    moveonly.run(chk, "C12")
    run_array(chk, {"content": RULE, "hang": RULE, "mem": RULE, "source": SRC}, False, thorough)
    run_hist(chk, "array", {"content": R2, "hang": R2, "mem": R2, "source": SRC}, plan=((1, 1), (2, 1), (3, 31)) if thorough else ((1, 1), (2, 7)))
    chk.need(R2, 100)
