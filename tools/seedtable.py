"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(D + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (D, b)))
    rows.append("| %s | %s | %s |" % (b, m["property"], m["needs"].replace("\n", " ").replace("|", "/")))
p = D + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(\| seeded \| property \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda k: k.group(1) + "\n".join(rows) + "\n", s)
open(p, "w").write(s)
