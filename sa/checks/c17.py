from . import moveonly
from .queuelib import run_queue, large
R1 = "slot and storage lifetimes"; R2 = "positions, results and slot contents"
def run(chk, thorough):
    moveonly.run(chk, "C17")
    run_queue(chk, {"life": R1, "mem": R1, "content": R2, "hang": R2}, False, (2, 4, 8, 32) if thorough else (2, 4, 8))
    large(chk, R2)
    chk.need(R2, 60)
