"""fills the property and planted-bug tables of DESIGN.md (between markers) from claims.py and seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(V + "/MANIFEST.json"))
tit = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
L = []
for c in man["checks"]:
    L.append("* **%s %s** (level %s). %s" % (c["property"], tit[c["property"]], c["level"], c["level_note"]))
for c in man["not_applicable"]:
    L.append("* **%s %s**: not claimed. %s" % (c["property"], tit[c["property"]], c["reason"]))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
notes = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], notes.get(i, "not run yet")))
s = open(V + "/DESIGN.md").read()


def put(s, tag, txt):
    b, e = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    blk = b + "\n" + txt + "\n" + e
    if "@@%s@@" % tag in s:
        return s.replace("@@%s@@" % tag, blk)
    i, j = s.index(b), s.index(e) + len(e)
    return s[:i] + blk + s[j:]


s = put(s, "PROPS", "\n".join(L))
s = put(s, "SEEDS", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
