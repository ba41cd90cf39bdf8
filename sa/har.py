"""Driver for engine B: analyse an operation from a symbolic pre-state, check its final states, confirm alarms."""
import itertools, os, signal, sys, time
from concurrent.futures import ProcessPoolExecutor
from . import ir, lin
from .seg import *
from .seg import _cmp

class Problem:
    src = None
    def __init__(s, cat, msg, loc, st): s.cat = cat; s.msg = msg; s.loc = loc; s.st = st

def cases(st, fn, limit=200):
    """evaluate fn on st, splitting on undecided facts; fn(state) -> list of results"""
    out = []; work = [st]; n = 0
    while work:
        s = work.pop(); n += 1
        if n > limit: raise Unanalysable("too many cases in the final state")
        snap = s.copy()
        try: out += [(s, r) for r in fn(snap)]
        except (Fork, ForkB, ForkN) as f: work += forks(s, f)
    return out

def model(cons, syms, hi=9, pows=()):
    """small integer values for the parameters satisfying the constraints"""
    vals = list(range(0, hi))
    def go(c, rest):
        if not c.sat(): return None
        if not rest: return {}
        x = rest[0]
        for v in vals:
            if x in pows and (v == 0 or v & (v - 1)): continue
            d = c.copy(); d.add_eq(L.v(x) - v)
            if d.bad or not d.sat(): continue
            r = go(d, rest[1:])
            if r is not None: r[x] = v; return r
        return None
    r = go(cons, list(syms))
    if r is None and cons.sat():
        vals = [0, 1, 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33]
        r = go(cons, list(syms))
    if r is None and cons.sat():
        # the least value of each parameter in turn, and a few above it
        def least(c, x):
            def upto(v):
                d = c.copy(); d.add_ge(-L.v(x) + v); return not d.bad and d.sat()
            hi = 1
            while not upto(hi):
                if hi > 1 << 44: return None
                hi *= 2
            lo = 0
            while lo < hi:
                mid = (lo + hi) // 2
                if upto(mid): hi = mid
                else: lo = mid + 1
            return lo
        def go2(c, rest):
            if not rest: return {} if c.sat() else None
            x = rest[0]; v = least(c, x)
            for k in range(4 if v is not None else 0):
                if x in pows and (v + k == 0 or (v + k) & (v + k - 1)): continue
                d = c.copy(); d.add_eq(L.v(x) - (v + k))
                if d.bad or not d.sat(): continue
                r = go2(d, rest[1:])
                if r is not None: r[x] = v + k; return r
            return None
        r = go2(cons, list(syms))
    return r

class Task:
    interp = None; det = False         # det: the inputs are fixed and the code is deterministic: every outcome of the analysis must be wrong
    direct = None       # direct: concrete sizes, loops are followed (at most `direct` iterations) instead of summarised
    """one analysed operation: fname in module source; init(bound) -> (state, args, symbols); post(final, interp) -> problems"""
    def __init__(s, desc, fname, init, post, throwing=(), externs=None, pows=(), bound=3, module=0, small=None, finite=False):
        s.desc = desc; s.fname = fname; s.init = init; s.post = post; s.throwing = throwing; s.externs = externs; s.pows = pows; s.bound = bound; s.module = module; s.small = small; s.finite = finite       # finite: `small` lists every possible pre-state

def attempt(m, t, fix=None, bound=None, accelerate=True, peel=3):
    lin.POW.clear(); lin.POW.update(t.pows)
    st, args, syms = t.init()
    if fix:
        for x, v in fix.items(): st.cons.add_eq(L.v(x) - v)
    if bound is not None:
        for x in syms: st.cons.add_ge(-L.v(x) + bound)
    it = (t.interp[0] if t.interp else Interp)(m, t.throwing, t.externs, accelerate=accelerate, peel=peel)
    for k, v in (t.interp[1].items() if t.interp else ()): setattr(it, k, v)
    it.pows = t.pows
    if not st.cons.sat(): return it, [], [], syms, None
    probs = []; err = None; outs = []
    try: outs = it.run(t.fname, args, st)
    except Unanalysable as e: err = str(e)
    except RecursionError: err = "nesting too deep"
    for v in it.viol:
        thrown = any(e[0] == "throw" for e in v.st.events)
        probs.append(Problem("exc" if thrown and v.kind in ("life", "mem") else v.kind, v.msg + (" | after an element operation threw" if thrown else ""), v.loc, v.st))
    for o in outs:
        try:
            for s, (cat, msg) in cases(o.st, lambda s, o=o: t.post(Final(o.kind, o.val, s, o.loc), it)):
                probs.append(Problem(cat, msg, o.loc, s)); probs[-1].src = o
        except Unanalysable as e: err = err or ("final state: " + str(e))
    return it, outs, probs, syms, err

def decide(m, t):
    """-> (verdicts, statistics); verdicts: list of (cat, 'fail', msg, where) ; undecided reason or None"""
    if t.direct:
        it, outs, probs, syms, err = attempt(m, t, accelerate=False, peel=t.direct)
        stats = {"final states": len(outs), "abstract instructions": it.ninstr, "loops": it.nloops}
        fails = {}
        for p in probs:
            if p.cat not in fails and p.st.cons.sat(): fails[p.cat] = (p.cat, p.msg, ir.where(p.loc) if p.loc else "")
        if fails: return list(fails.values()), None, stats
        return [], err or ("a loop runs too long (%s)" % it.cuts[0][1] if it.cuts else None if outs else "no path returns"), stats
    if t.det:
        it, outs, probs, syms, err = attempt(m, t)
        stats = {"final states": len(outs), "abstract instructions": it.ninstr, "loop summaries": it.summaries, "loops": it.nloops}
        good = [o for o in outs if o.st.cons.sat()]
        if err or it.cuts or not (outs or probs): return [], err or "a loop could not be summarised", stats
        bad = {id(o) for o in outs for p in probs if p.src is o}
        if not probs: return [], None, stats
        if all(id(o) in bad for o in good): return [(probs[0].cat, probs[0].msg, ir.where(probs[0].loc) if probs[0].loc else "")], None, stats
        return [], "possible %s (%s)" % (probs[0].cat, probs[0].msg), stats
    it, outs, probs, syms, err = attempt(m, t)
    stats = {"final states": len(outs), "abstract instructions": it.ninstr, "loop summaries": it.summaries, "loops": it.nloops}
    fails = []; unconf = None
    seen = set()
    for p in probs:
        key = (p.cat, p.msg.split(" | ")[0], ir.where(p.loc))
        if key in seen or len(fails) >= 6: continue
        seen.add(key)
        mo = model(p.st.cons, syms, pows=t.pows)
        if mo is None: unconf = "possible %s (%s) not confirmed" % (p.cat, p.msg); continue
        c = confirm(m, t, mo, p.cat)
        if c is None: unconf = "possible %s (%s) not confirmed for %s" % (p.cat, p.msg, mo); continue
        fails.append(c)
    if fails: return fails, err, stats
    if unconf or err or it.cuts or not outs:
        why = unconf or err or ("a loop could not be summarised (%s)" % it.cuts[0][1] if it.cuts else "no path returns")
        # small sizes: look for a definite violation
        if t.small is not None:
            probs2 = []; complete = t.finite
            for fx in t.small:
                it2, outs2, ps, _, err2 = attempt(m, t, fix=fx, accelerate=False, peel=80 if t.finite else 14)
                stats["final states"] += len(outs2); stats["abstract instructions"] += it2.ninstr
                if err2 or it2.cuts: complete = False
                for p in ps:
                    if not any(q.cat == p.cat for q in probs2): probs2.append(p)
            if complete and not probs2: return [], None, stats
        else: probs2 = attempt(m, t, bound=t.bound, accelerate=False, peel=14)[2]
        for p in probs2:
            mo = model(p.st.cons, syms, pows=t.pows)
            if mo is None: continue
            c = confirm(m, t, mo, p.cat)
            if c is not None: fails.append(c)
            if len(fails) >= 4: break
        if fails: return fails, None, stats
        return [], why, stats
    return [], None, stats

def confirm(m, t, mo, cat):
    it, outs, probs, syms, err = attempt(m, t, fix=mo, accelerate=False, peel=40)
    for p in probs:
        if p.cat == cat and p.st.cons.sat():
            return (cat, p.msg + "\nfor " + ", ".join("%s=%d" % x for x in sorted(mo.items())), ir.where(p.loc) if p.loc else "")
    return None

class TimeUp(BaseException): pass
def _alarm(*_): raise TimeUp()
_G = {}
def _work(k):
    m, t = _G["mods"][_G["tasks"][k].module], _G["tasks"][k]
    left = min(_G["each"], _G["deadline"] - time.monotonic())
    if left <= 0: return k, ([], "time budget of the check exhausted", {})
    signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, left)
    try: r = decide(m, t)
    except TimeUp: r = ([], "time budget exhausted", {})
    except RecursionError: r = ([], "nesting too deep", {})
    except Exception as e:
        import traceback
        r = ([], "analysis error: " + traceback.format_exc().strip().splitlines()[-1] + " " + traceback.format_exc().strip().splitlines()[-3].strip(), {})
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    return k, r

def run_tasks(chk, rule_of, modules, tasks, cats, workers=8):
    """cats: the violation categories that belong to this property: {category: rule}"""
    _G["mods"] = modules; _G["tasks"] = tasks
    # a budget, so that a change that defeats the analysis ends in "undecided" and not in no answer; far above the need of the present code
    quick = chk.tier != "thorough"
    _G["each"] = 150 if quick else 1200; _G["deadline"] = time.monotonic() + max(60, (620 if quick else 9000) - (time.time() - chk.t0))
    import multiprocessing as mp
    sys.setrecursionlimit(20000)
    with ProcessPoolExecutor(workers, mp_context=mp.get_context("fork")) as ex:
        # fixed inputs first: they are cheap, and decide what the symbolic tasks leave open when the budget runs out
        res = sorted(ex.map(_work, sorted(range(len(tasks)), key=lambda k: not tasks[k].det), chunksize=2))
    for k, (fails, und, stats) in res:
        t = tasks[k]
        for n, v in stats.items(): chk.count(n, v)
        chk.count("operations analysed"); chk.note_fn(modules[t.module], t.fname)
        for rule in dict.fromkeys(cats.values()):
            mine = [f for f in fails if cats.get(f[0]) == rule]
            if mine:
                for f in mine: chk.fail(rule, t.desc, f[1], f[2])
            elif und: chk.undecided(rule, t.desc, und)
            else: chk.ok(rule, t.desc, "%d final states" % stats.get("final states", 0))
