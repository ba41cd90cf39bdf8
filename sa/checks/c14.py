from . import moveonly
from .listlib import run_list
from .histlib import run_hist
R1 = "node and element lifetimes"; R2 = "the chain is null-terminated and holds only live nodes"; R3 = "sequence of elements and returned position"
R4 = "node and element lifetimes along client histories"; R5 = "sequence of elements along client histories"
SRC = "source elements of copies are untouched"
def run(chk, thorough):
    moveonly.run(chk, "C14")
    run_list(chk, {"life": R1, "mem": R1, "chain": R2, "content": R3, "hang": R3, "source": SRC}, False)
    run_hist(chk, "list", {"life": R4, "mem": R4, "content": R5, "hang": R5, "source": SRC}, plan=((1, 1), (2, 1), (3, 7)) if thorough else ((1, 1), (2, 3)))
    chk.need(R4, 60); chk.need(R5, 60)
