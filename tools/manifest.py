"""Writes MANIFEST.json: claimed checks (those with a module in lsa/checks) and the rest."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = "abstract interpretation of the source over symbolic sizes (access functions in polynomial normal form), compared with a specification term"
EFF = "effect and alias analysis of the source by abstract interpretation"
AST = "syntax-tree and call-graph rules over the whole package"
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
NA = {
    "N01": "convergence of an external interior point solver is a run-time numerical quantity; no static argument over this source bounds it",
    "N02": "exactness of matrices computed by floating point root finding and inversion depends on rounding; the algebraic clauses that are visible in the source (row sums, sizes) are claimed under C27",
    "N03": "closeness of floating point results of three external libraries is numerical; the structural preconditions are claimed under C20 and C21",
    "N04": "agreement with published empirical formulas has no oracle in the source",
    "N05": "running time is not decidable from the source",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "lsa", "checks", i.lower() + ".py")):
        t = TECH.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"python3 -m lsa.run {i} --tier quick",
            "thorough_cmd": f"python3 -m lsa.run {i} --tier thorough",
            "technique": t.get("technique", ABS),
            "level": "other",
            "level_note": t.get("note", "decides the listed obligations for all values of the symbolic sizes and elements; obligations the analysis cannot decide are counted as undecided in the evidence and never reported; trusts the models of the library functions in lsa/"),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q lsa", "checks": checks, "not_applicable": na,
           "notes": "Pure static analysis: python3 standard library only; every run parses /repo's current sources."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
