"""Writes the table of planted bugs into DESIGN.md (between the section title and the end)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss = json.load(open(f"{here}/tools/bug_notes.json")) if os.path.exists(f"{here}/tools/bug_notes.json") else {}
rows = []
for d in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    f = re.findall(r"^\+\+\+ b/(\S+)", open(f"{here}/seeded/{d}/patch.diff").read(), re.M)
    rows.append(f"| {d} | {m['property']} | {', '.join(x.replace('qcd-sme/src/', '') for x in f)} | {m['what_it_breaks']} | {miss.get(d, 'at once')} |")
t = "Every one compiles, passes the 241 tests and is caught by the quick check of its property; the last column says whether the check caught it\nwhen it was planted or after which strengthening.\n\n| id | property | file | what it breaks | caught |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = open(f"{here}/DESIGN.md").read()
i = s.index("## Planted bugs")
open(f"{here}/DESIGN.md", "w").write(s[:i] + "## Planted bugs\n\n" + t)
