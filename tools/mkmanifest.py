"""writes /verif/MANIFEST.json from the tables below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VNT = "gated value numbering over type-resolved, fully inlined SSA (polynomial / rational normal forms compared with the specified expression)"
VNN = "Decides every value of the operands for each listed element type and size, up to the abstraction named in DESIGN.md (%s); trusts clang's front end, LLVM's inlining/SROA and the normaliser."
REAL = "floating point is treated as exact real arithmetic"
EXACT = "every floating operation is an uninterpreted rounded operation, so the result must be the same operations on the same operands"
CHECKS = {
 "C01": (VNT, VNN % EXACT), "C02": (VNT, VNN % EXACT), "C03": (VNT, VNN % REAL), "C04": (VNT, VNN % REAL), "C05": (VNT, VNN % EXACT), "C06": (VNT, VNN % REAL),
 "C07": (VNT, VNN % REAL), "C08": (VNT, VNN % REAL), "C09": (VNT, VNN % REAL), "C10": (VNT + "; constants compared with correctly rounded reference values", VNN % "constants are compared exactly after rounding"),
}
NA = {}
exec(open(os.path.join(V, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_more.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "sh ./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3-vt -m sa.run %s quick" % i, "thorough_cmd": "python3-vt -m sa.run %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": "static analysis: " + t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
m["notes"] = "All checks are static analyses of /repo's current source: witness translation units instantiate the headers, clang type-checks and lowers them, and the analyses in sa/ decide each obligation on the resolved program. Nothing from /repo is executed."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
