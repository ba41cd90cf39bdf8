"""Obligation bookkeeping, verdicts, evidence."""
import json, os, sys, time, re
from . import ir

class Check:
    def __init__(self, prop, tier, title=""):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.obs = []          # (rule, desc, status, detail, where)
        self.analysed = {}     # counters of analysed constructs
        self.functions = set(); self.files = set()
        self.samples = []; self.notes = []
        self.standin = {}; self.minimum = {}      # rule -> minimum number of instances confirmed on the reference tree
    def count(self, what, n=1): self.analysed[what] = self.analysed.get(what, 0) + n
    def ok(self, rule, desc, detail=""): self.obs.append((rule, desc, "ok", detail, ""))
    def fail(self, rule, desc, detail, where=""): self.obs.append((rule, desc, "fail", detail, where))
    def undecided(self, rule, desc, why, covers=1):
        """covers: how many obligations the undecided one stands for"""
        self.obs.append((rule, desc, "undecided", why, ""))
        self.standin[rule] = self.standin.get(rule, 0) + covers - 1
    def ob(self, rule, desc, cond, detail="", where=""):
        (self.ok(rule, desc, detail) if cond else self.fail(rule, desc, detail, where))
        return cond
    def need(self, rule, n): self.minimum[rule] = n
    def note_fn(self, m, fname):
        f = m["functions"].get(fname)
        if not f: return
        for b in f["blocks"]:
            for i in b["ins"]:
                for fr in i.get("loc") or []:
                    p = os.path.normpath(fr[0])
                    if p.startswith(ir.REPO + "/"):
                        self.files.add(os.path.relpath(p, ir.REPO)); self.functions.add((os.path.relpath(p, ir.REPO), fr[2]))
    def finish(self):
        known = load_known(self.prop)
        fails = [o for o in self.obs if o[2] == "fail"]
        und = [o for o in self.obs if o[2] == "undecided"]
        oks = [o for o in self.obs if o[2] == "ok"]
        viol = []; hitk = {}
        for o in fails:
            k = next((k for k in known if k["match"] in (o[0] + " | " + o[1])), None)
            if k: hitk[k["match"]] = k
            else: viol.append(o)
        rules = {}
        for o in self.obs: rules[o[0]] = rules.get(o[0], 0) + 1
        broken = [r for r, n in self.minimum.items() if rules.get(r, 0) + self.standin.get(r, 0) < n]
        for k in hitk.values(): print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for o in und[:40]: print("UNDECIDED property=%s rule=%s %s: %s" % (self.prop, o[0], o[1], o[3]))
        rep = None
        if viol:
            d = os.path.join(ir.VERIF, "out"); os.makedirs(d, exist_ok=True)
            rep = os.path.join(d, "%s.violations.txt" % self.prop)
            with open(rep, "w") as f:
                f.write("property %s, tier %s: %d violated obligations\nreproduce: cd %s && python3-vt -m sa.run %s\n\n" % (self.prop, self.tier, len(viol), ir.VERIF, self.prop))
                for o in viol:
                    f.write("rule: %s\ninstance: %s\nat: %s\n%s\n\n" % (o[0], o[1], o[4], o[3]))
            for o in viol[:12]:
                print("  [%s] %s\n      at %s\n      %s" % (o[0], o[1], o[4] or "?", str(o[3]).replace("\n", "\n      ")[:1500]))
            if len(viol) > 12: print("  ... %d more in %s" % (len(viol) - 12, rep))
        n = len(self.obs)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": {"explanation": "static analysis of /repo's current source; every obligation is decided on the resolved program, none by running it",
                           "obligations": n, "discharged": len(oks), "undecided": len(und), "violated": len(fails), "known_findings": len(hitk),
                           "obligations_by_rule": rules, "analysed": self.analysed,
                           "repo_files_analysed": sorted(self.files), "repo_functions_analysed": len(self.functions),
                           "functions": sorted("%s: %s" % x for x in self.functions)[:200],
                           "samples": [{"rule": o[0], "instance": o[1], "status": o[2], "detail": str(o[3])[:300]} for o in pick(self.obs)],
                           "notes": self.notes},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        d = os.path.join(ir.VERIF, "evidence"); os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d known), %d repo functions, %.1fs" % (self.prop, n, len(oks), len(und), len(fails), len(fails) - len(viol), len(self.functions), time.time() - self.t0))
        if viol:
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        if broken or not oks:
            print("ANALYSIS-BROKEN property=%s rules below their confirmed instance count: %s" % (self.prop, ", ".join("%s (%d < %d)" % (r, rules.get(r, 0), self.minimum[r]) for r in broken) or "no obligation decided"))
            return 3
        return 0

def pick(obs):
    seen = {}; out = []
    for o in obs:
        if seen.get((o[0], o[2]), 0) < 2:
            seen[(o[0], o[2])] = seen.get((o[0], o[2]), 0) + 1; out.append(o)
    return out[:40]

def load_known(prop):
    """known-findings.txt: lines 'finding: property=<id> match=<substring of "rule | instance"> :: <what fails>' (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(ir.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop: out.append({"match": m.group(2), "what": m.group(3)})
    return out
