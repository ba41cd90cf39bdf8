from .arraylib import run_array
from .histlib import run_hist
RULE = "element and storage lifetimes (every size, capacity, position and count)"
R2 = "element and storage lifetimes along client histories"
R3 = 'storage is released through the allocator it came from'
def run(chk, thorough):
    run_array(chk, {"life": RULE, "mem": RULE}, False, thorough)
    run_array(chk, {"life": R3}, False, thorough, stateful=True)
    chk.need(R3, 50)
    run_hist(chk, "array", {"life": R2, "mem": R2}, plan=((1, 1), (2, 1), (3, 31)) if thorough else ((1, 1), (2, 5)))
    chk.need(R2, 100)
