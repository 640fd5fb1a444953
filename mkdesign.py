"""Regenerate the generated parts of DESIGN.md (findings and planted bugs) from the files they describe."""
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
s = open(V + "/DESIGN.md").read()


def part(name, text):
    global s
    a, b = f"<!-- {name} -->\n", f"<!-- /{name} -->"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + text + s[j:]


kf = json.load(open(V + "/known_findings.json"))
part("fixes", "| property | commit | defect repaired |\n|---|---|---|\n" + "".join(
    f"| {d['property']} | {d['commit']} | {d['what'].split(d['commit'] + ' ', 1)[1]} |\n" for d in kf if d["status"] == "fixed"))
part("known", "".join(f"* {d['property']} `{d['key']}`: {d['what']}\n" for d in kf if d["status"] == "known"))
rows, catches = [], json.load(open(V + "/catches.json"))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(catches.get(f.split('/')[-2], ['-']))} |\n")
part("planted", "| planted bug | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n" + "".join(rows))
open(V + "/DESIGN.md", "w").write(s)
