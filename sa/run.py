"""python3-vt -m sa.run C01 [quick|thorough]"""
import sys, os, importlib, traceback
sys.setrecursionlimit(20000)
if os.environ.get('PYTHONHASHSEED') is None: os.execve(sys.executable, [sys.executable, '-m', 'sa.run'] + sys.argv[1:], dict(os.environ, PYTHONHASHSEED='0'))
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from .check import Check
    from . import ir
    chk = Check(prop, tier)
    mod = importlib.import_module("sa.checks." + prop.lower())
    try:
        mod.run(chk, tier == "thorough")
    except ir.BuildError as e:
        # the clients written against the documented interface do not compile against this tree
        err = [l for l in e.out.splitlines() if "error:" in l][:2]
        chk.fail("the documented interface", "clients of the documented interface", "do not compile: " + " / ".join(err), err[0].split(": ")[0] if err else "")
        if not err: print("ANALYSIS-BROKEN property=%s: %s" % (prop, e.out[-500:])); sys.exit(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s" % prop)
        # what was decided before the failure still counts
        if any(o[2] == "fail" for o in chk.obs): sys.exit(chk.finish())
        sys.exit(3)
    sys.exit(chk.finish())
main()
