"""Fill the tables of DESIGN.md from evidence/*.json and seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| id | scenarios | states | transitions | traces compared | seconds | bounds |", "|---|---|---|---|---|---|---|"]
for f in sorted(glob.glob("evidence/C*.json")):
    if not re.fullmatch(r"C\d\d\.json", os.path.basename(f)):
        continue
    d = json.load(open(f))
    c = d["coverage"]
    assert d["tier"] == "quick" and d["violations"] == 0, f
    rows.append("| %s | %d | %d | %d | %d | %.0f | %s |" % (d["property"], c["scenarios"], c["states"], c["transitions"], c["traces_validated_against_impl"], d["wall_s"], c["bounds"].replace("|", "/")))
seeds = ["| change | caught by | needs |", "|---|---|---|"]
n = 0
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    seeds.append("| %s | %s | %s |" % (f.split("/")[1], d["property"], d["needs"].replace("|", "/")))
    n += 1
t = open("DESIGN.md").read()


def put(t, tag, text):
    return re.sub(r"<!--%s-->.*?<!--/%s-->|<!--%s-->" % (tag, tag, tag), lambda m: "<!--%s-->%s<!--/%s-->" % (tag, text, tag), t, flags=re.S)


t = put(t, "NUMBERS", "\n" + "\n".join(rows) + "\n")
t = put(t, "SEEDS", "\n" + "\n".join(seeds) + "\n")
t = put(t, "NSEED", str(n))
open("DESIGN.md", "w").write(t)
