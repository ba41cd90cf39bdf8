"""Engine D: type-level witnesses.  A pass-witness must type-check, a fail-witness must be rejected while its
control (the same program with the one offending expression legalised) type-checks."""
import os, re
from concurrent.futures import ThreadPoolExecutor
from . import ir

class TW:
    def __init__(self, desc, code, fail=None, control=None, defs=(), gcc=False, flags=(), header=None, solo=False, ndebug=False):
        """fail: text that must be rejected inside `code` (code contains @@); control: replacement that must be accepted"""
        self.desc = desc; self.code = code; self.fail = fail; self.control = control
        self.defs = tuple(defs); self.gcc = gcc; self.flags = tuple(flags); self.header = header; self.solo = solo; self.ndebug = ndebug

def ns(i, code): return "namespace wit%d {\n%s\n}\n" % (i, code)

def run_types(chk, rule, header, items, chunk=40, workers=8):
    jobs = []
    passes = [t for t in items if t.fail is None]
    groups = {}
    for t in passes: groups.setdefault((t.defs, t.gcc, t.flags, t.header or header, t.ndebug, id(t) if t.solo else 0), []).append(t)
    def check(ts):
        t = ts[0]
        src = (t.header or header) + "".join(ns(i, x.code) if not x.solo else x.code for i, x in enumerate(ts))
        ok, out = ir.compile_only(src, t.defs, t.flags, t.ndebug, t.gcc)
        if ok: return [(x, True, "") for x in ts]
        if len(ts) == 1: return [(t, False, out)]
        if not t.solo:      # attribute each error to the witness whose lines it, or a note that follows it, points at
            h = t.header or header; src = h; line = h.count("\n") + 1; at = []
            for i, x in enumerate(ts):
                k = ns(i, x.code).count("\n"); at.append((line, line + k)); line += k
            ok, out = ir.compile_only(src + "".join(ns(i, x.code) for i, x in enumerate(ts)), t.defs, t.flags + (() if t.gcc else ("-ferror-limit=0",)), t.ndebug, t.gcc)
            hit = {}; cur = []
            for l in out.splitlines():
                m = re.match(r"(?:.*from )?(.*?):(\d+)(?::\d+)?[:,]", l)
                if re.match(r".*?:\d+:\d+: (fatal )?error:", l) or l.startswith("In file included"): cur = [] if cur and not l.startswith("In file") else cur
                cur.append(l)
                if m and any(" error:" in c for c in cur) and m.group(1).endswith(".cpp") and "/c%d_" % os.getpid() in m.group(1):
                    for i, (a, b) in enumerate(at):
                        if a <= int(m.group(2)) < b: hit.setdefault(i, "\n".join(cur))
            if hit: return [(x, False, hit[i]) for i, x in enumerate(ts) if i in hit] + (check([x for i, x in enumerate(ts) if i not in hit]) if len(hit) < len(ts) else [])
        h = len(ts) // 2
        return check(ts[:h]) + check(ts[h:])
    def checkfail(t):
        h = t.header or header
        okc, outc = ir.compile_only(h + t.code.replace("@@", t.control), t.defs, t.flags, t.ndebug, t.gcc) if t.control is not None else (True, "")
        okf, outf = ir.compile_only(h + t.code.replace("@@", t.fail), t.defs, t.flags, t.ndebug, t.gcc)
        return t, okc, outc, okf, outf
    chunks = [g[i:i + chunk] for g in groups.values() for i in range(0, len(g), chunk)]
    with ThreadPoolExecutor(workers) as ex:
        for rs in ex.map(check, chunks):
            for t, ok, out in rs:
                if ok: chk.ok(rule, t.desc, "type-checks")
                else:
                    err, at = errs(out)
                    chk.fail(rule, t.desc, "rejected by the compiler: " + err, at)
        # programs that must be rejected: many in one translation unit, each error attributed to the witness its notes point at;
        # what is not attributed that way is compiled alone
        def batch(ts):
            t = ts[0]; h = t.header or header
            if len(ts) > 1:
                ctl = [x for x in ts if x.control is not None]
                okc, _ = ir.compile_only(h + "".join(ns(i, x.code.replace("@@", x.control)) for i, x in enumerate(ctl)), t.defs, t.flags, t.ndebug)
                if okc:
                    src = h if h.endswith("\n") else h + "\n"; line = src.count("\n") + 1; at = []
                    for i, x in enumerate(ts):
                        c = ns(i, x.code.replace("@@", x.fail)); k = c.count("\n"); at.append((line, line + k)); src += c; line += k
                    ok, out = ir.compile_only(src, t.defs, t.flags + ("-ferror-limit=0", "-fno-caret-diagnostics"), t.ndebug)
                    hit = {}; cur = None
                    for l in out.splitlines():
                        m = re.match(r"(.*?):(\d+):\d+: (fatal error|error|note|warning):", l)
                        if not m: continue
                        if "error" in m.group(3): cur = l
                        if cur and m.group(1).endswith(".cpp") and "/c%d_" % os.getpid() in m.group(1):
                            for i, (a, b) in enumerate(at):
                                if a <= int(m.group(2)) < b: hit.setdefault(i, cur)
                    return [(x, True, "", False, hit[i]) if i in hit else checkfail(x) for i, x in enumerate(ts)]
            return [checkfail(x) for x in ts]
        fg = {}
        for t in items:
            if t.fail is not None: fg.setdefault((t.defs, t.flags, t.header or header, t.ndebug, (id(t) if t.solo or t.gcc else 0)), []).append(t)
        fch = [g[i:i + 16] for g in fg.values() for i in range(0, len(g), 16)]
        for t, okc, outc, okf, outf in (r for rs in ex.map(batch, fch) for r in rs):
            if not okc:
                err, at = errs(outc)
                chk.undecided(rule, t.desc, "the control program does not compile: " + err); continue
            if okf: chk.fail(rule, t.desc, "a program that must be rejected type-checks: " + t.fail, "")
            else: chk.ok(rule, t.desc, "rejected: " + errs(outf)[0][:160])
    chk.count("type witnesses", len(items))

def errs(out):
    es = [l for l in out.splitlines() if " error: " in l or "static assertion failed" in l]
    at = es[0].split(": ")[0] if es else ""
    # prefer a location inside the repository
    for l in out.splitlines():
        if l.startswith(ir.REPO) and ("error" in l or "note: in instantiation" in l or "note:" in l): at = l.split(": ")[0]; break
    return " / ".join(e.split(": ", 1)[-1] for e in es[:3])[:500], at
