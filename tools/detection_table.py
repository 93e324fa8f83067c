"""Print the table of DESIGN.md section 4 from the seeded bugs' meta.json."""
import collections, json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent / "seeded"
table = collections.defaultdict(list)
for d in sorted(root.iterdir()):
    table[json.loads((d / "meta.json").read_text())["property"]].append(d.name)
for check in sorted(table):
    print(f"| {check} | {', '.join(table[check])} |")
