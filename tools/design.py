"""Write DESIGN.md."""
import ast, glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(R)
props = [json.loads(l) for l in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
na = {x.get("id") or x.get("property"): x for x in man["not_applicable"]}
seeds = {}
for p in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(p))
    m["id"] = p.split("/")[1]
    m["file"] = ", ".join(l[6:].strip() for l in open(p.replace("meta.json", "patch.diff")) if l.startswith("+++ "))
    seeds.setdefault(m["property"], []).append(m)
kn = [l.rstrip("\n") for l in open("known-findings.txt") if l.strip() and not l.startswith("#")]
try:
    walls = json.load(open("tools/walls.json"))
except OSError:
    walls = {}


def fields(i):
    t = ast.parse(open(f"lsa/checks/{i.lower()}.py").read())
    out = {"explain": [], "assumptions": []}
    for n in ast.walk(t):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr in out:
            try:
                out[n.targets[0].attr].append(ast.literal_eval(n.value))
            except Exception:
                pass
    rules = []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("ob", "sized") and n.args and isinstance(n.args[0], ast.Constant):
            if n.args[0].value not in rules:
                rules.append(n.args[0].value)
    return " ".join(out["explain"]), (out["assumptions"] or [[]])[0], rules


o = [open("tools/design_head.md").read().rstrip(), "", "## Properties", "",
     "Strength: every claimed property is decided for all *values* (they are symbols); sizes, names, shapes, configurations and histories are",
     "symbolic or enumerated as said under *bounds*. Tests cannot reach this because they evaluate a few points, sizes and histories.", ""]
for p in props:
    i = p["id"]
    if i in na:
        continue
    ex, asm, rules = fields(i)
    o += [f"### {i} {p['title']}", "", p["statement"], "",
          f"*How and against what oracle*: {ex}.", "",
          f"*Rules*: {'; '.join(rules)}." if rules else "",
          f"*Bounds and assumptions*: {'; '.join(asm) if asm else 'sizes symbolic; numpy semantics as modelled'}.",
          f"*Why tests cannot*: {p['why_tests_cant']} *Quantifies over*: {p['quantifier']['text']}.",
          f"*Cost*: about {walls[i]} s of wall time for the quick tier with two processes beside other checks." if i in walls else "",
          "*Planted bugs caught*: " + ("; ".join(f"`{m['id']}`" for m in seeds[i]) if i in seeds else "none kept; mutants only") + ".", ""]
o += ["## Not applicable", ""]
for i, x in na.items():
    t = next((p["title"] for p in props if p["id"] == i), "")
    o += [f"* {i} {t}: {x['reason']}"]
o += ["", "## Planted bugs and the checks that catch them", "",
      "Each was kept only after its demonstration was clean on the unchanged tree and failed with the patch, and the stable tests passed with it.",
      "", "| bug | file | caught by | needs | breaks |", "|---|---|---|---|---|"]
for i in sorted(seeds):
    for m in seeds[i]:
        o += [f"| {m['id']} | {m['file'].replace('lumos/', '')} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |"]
o += ["", "Besides these, `/tmp`-only mutation sweeps (about 900 automatic mutants: comparison and operator changes, dropped",
      "statements, assignments, raises, copies, keywords, swapped arguments and targets) were run over `optimal_control/`,",
      "`models/`, `numpy/`; survivors were classified as equivalent, undecided (the mutant raises inside modelled code), or",
      "outside every property, and rules were added for the rest.", "",
      "## Defects found in numagic/lumos", ""]
o += [f"* {l}" for l in kn]
open("DESIGN.md", "w").write("\n".join(o) + "\n")
