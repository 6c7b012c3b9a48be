"""Regenerate the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = ["| bug | file | what it breaks | needs |", "|---|---|---|---|"]
clean = lambda x: " ".join(x.split()).replace("|", "\\|")
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    f = [l[6:].strip().replace("qldpc/", "") for l in open(d + "/patch.diff") if l.startswith("+++ b/")]
    rows.append(f"| {os.path.basename(d)} | {', '.join(f)} | {clean(m['what_it_breaks'])} | {clean(m['needs'])} |")
s = open("DESIGN.md").read()
table = "<!-- SEEDED -->\n" + "\n".join(rows) + "\n<!-- /SEEDED -->"
s = re.sub(r"<!-- SEEDED -->.*<!-- /SEEDED -->", lambda _: table, s, flags=re.S)
open("DESIGN.md", "w").write(s)
