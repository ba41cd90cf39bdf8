"""Compile witness translation units against /repo's current headers and load the resolved IR."""
import itertools, json, os, subprocess, tempfile, hashlib, sys, atexit, shutil
VERIF = os.environ.get("VERIF_HOME") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XME_REPO", "/repo")
CLANG = "clang++"
OPT = "/usr/lib/llvm-18/bin/opt"
XDUMP = os.path.join(VERIF, "build", "xdump")
BASE = ["-std=c++20", "-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "witness"), "-w",
        "-ffp-contract=off", "-fno-math-errno", "-fno-strict-aliasing", "-fno-color-diagnostics"]
_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="xmesa.")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

class BuildError(Exception):
    def __init__(self, src, out):
        Exception.__init__(self, out); self.src = src; self.out = out

# inline everything, promote memory to SSA, unroll constant-trip loops; no reassociation, no vectorisation
PIPE_VALUE = ("function(sroa,early-cse,simplifycfg),"
              "cgscc(inline,function(sroa,early-cse<memssa>,simplifycfg)),"
              "function(sroa,early-cse,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),"
              "sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),"
              "sroa,early-cse<memssa>,instsimplify,simplifycfg,dce,adce)")
# keep loops; for the container analyses
PIPE_LOOP = ("function(sroa,early-cse,simplifycfg),"
             "cgscc(inline,function(sroa,early-cse<memssa>,simplifycfg)),"
             "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,sroa,adce,simplifycfg)")

def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")

def xdump_bin():
    if not os.path.exists(XDUMP):
        subprocess.check_call(["sh", os.path.join(VERIF, "setup.sh")], stdout=sys.stderr)
    return XDUMP

_seqs = itertools.count(1)     # atomic under the interpreter lock
def compile_ir(src_text, defs=(), pipe=PIPE_VALUE, name="w", ndebug=True, flags=(), noexc=False, drop=None):
    """returns the loaded module (dict); raises BuildError when the witness does not compile"""
    _seq = next(_seqs)
    d = tmpdir(); b = os.path.join(d, "%s%d_%d" % (name, os.getpid(), _seq))
    src = b + ".cpp"
    open(src, "w").write(src_text)
    cmd = [CLANG] + BASE + list(flags) + (["-DNDEBUG"] if ndebug else []) + ["-D" + x for x in defs] + \
          ["-O2", "-funroll-loops", "-Xclang", "-disable-llvm-passes", "-g", "-gno-column-info", "-fno-discard-value-names", "-emit-llvm", "-c", src, "-o", b + ".bc"]
    if noexc: cmd.append("-fno-exceptions")
    rc, out = sh(cmd)
    if rc: raise BuildError(src_text, out)
    if drop:      # functions matching this expression become external
        rc, out = sh([os.path.join(os.path.dirname(OPT), "llvm-extract"), "--delete", "--rfunc=" + drop, b + ".bc", "-o", b + ".d.bc"])
        if rc: raise RuntimeError("llvm-extract failed: " + out[-2000:])
        os.replace(b + ".d.bc", b + ".bc")
    rc, out = sh([OPT, "-passes=" + pipe, "-inline-threshold=1000000", "-inlinehint-threshold=1000000", "-inline-cold-callsite-threshold=1000000", "-inlinecold-threshold=1000000",
                  "-unroll-threshold=100000", "-unroll-full-max-count=4096", b + ".bc", "-o", b + ".o.bc"])
    if rc: raise RuntimeError("opt failed: " + out[-2000:])
    with open(b + ".json", "w") as f:
        subprocess.check_call([xdump_bin(), b + ".o.bc"], stdout=f)
    m = json.load(open(b + ".json"))
    m["_bc"] = b + ".o.bc"
    return m

def compile_only(src_text, defs=(), flags=(), ndebug=False, gcc=False, timeout=300, drop=()):
    """(ok, diagnostics) of a syntax/type check"""
    _seq = next(_seqs)
    src = os.path.join(tmpdir(), "c%d_%d.cpp" % (os.getpid(), _seq))
    open(src, "w").write(src_text)
    cmd = ["g++" if gcc else CLANG, "-std=c++20", "-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "witness"), "-w", "-fsyntax-only"] + list(flags) + ["-D" + x for x in defs] + [src]
    cmd = [x for x in cmd if x not in drop]
    rc, out = sh(cmd, timeout)
    return rc == 0, out

def where(loc):
    """innermost frame in the repository"""
    for f, l, fn in loc or []:
        if os.path.normpath(f).startswith(REPO + "/"):
            return "%s:%d (%s)" % (os.path.relpath(os.path.normpath(f), REPO), l, fn)
    if loc: return "%s:%d (%s)" % (os.path.basename(loc[0][0]), loc[0][1], loc[0][2])
    return "?"
