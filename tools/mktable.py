"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {"c11-swap-alloc": "* allocator with an identity added to C11", "c13-node-leak": "* landing pads matched against handler types", "c14-const-postfix": "* iterator operators added to the list witnesses"}
rows = []
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    c = lambda x: x.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (s, m["property"], c(m["what_it_breaks"]), c(m["needs"]), NOTE.get(s, "")))
t = "<!-- seeds -->\n| seed | caught by | breaks | needs | note |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = os.path.join(V, "DESIGN.md"); d = open(p).read()
d = re.sub(r"SEEDTABLE|<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, d, flags=re.S)
open(p, "w").write(d)
