"""Writes the per-property section of DESIGN.md (between the markers) from the check modules and seeded/."""
import ast
import importlib
import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = ["/repo", str(V)]
START, END = "<!-- properties: generated by tools/gen_design.py -->", "<!-- end of generated part -->"
REACH = {
    "H01": "tests fill a handful of entries; here every edge, its neighbouring floats and every division into fills are taken",
    "H02": "tests declare one binning; agreement between ways of declaring it is a relation over all counts and ranges",
    "H03": "a projection that is stale or aliased only shows in a sequence of operations",
    "H04": "aliasing shows only when someone else changes an array later",
    "H05": "needs a failure at each point of a fill",
    "T01": "zero, negative and cancelling contents are not in the tests",
    "T02": "needs combinations of several additions, unusual shapes, relations of up and down",
    "T03": "aliasing and partial writes need sequences",
    "T04": "needs changes of the histogram or of other templates afterwards",
    "C01": "refusal must leave everything as it was, at any point of a construction",
    "M01": "tests compare one point of one model",
    "M02": "position errors only show with certain declaration orders",
    "M03": "remembered values only show with evaluations between mutations",
    "M04": "needs processes missing from channels, efficiencies not adding to one, resets at special values",
    "M05": "minimality at the generating point is a claim about all other points",
    "M06": "the random source is uncontrolled in tests",
    "M07": "relational: two different models have to be compared",
    "E01": "needs several channels, correlated results, any declaration order",
    "F01": "tests accept any converged fit",
    "F02": "every subset of held parameters and active bounds",
    "F03": "state carried from one fit to the next",
    "F04": "schedules and failures of workers are uncontrolled in tests",
    "F05": "failures, deficits, held parameters",
    "R01": "names resembling each other, indices out of range, later minimizations",
    "S01": "every pattern of failing fits",
    "S02": "state carried from one point to the next",
    "S03": "later changes of the model",
    "G01": "far tails, empty bins, tiny deviations",
    "U01": "cancellation, zero variances, magnitudes",
    "P01": "tests only draw",
    "L01": "legacy code has two tests",
    "L02": "legacy code has few tests",
}


def section():
    out = []
    seeded = {}
    for f in sorted((V / "seeded").glob("*/meta.json")):
        m = json.load(open(f))
        seeded.setdefault(m["property"], []).append((f.parent.name, m["needs"]))
    for line in open(V / "properties.jsonl"):
        p = json.loads(line)
        i = p["id"]
        path = V / "mc" / "props" / f"{i.lower()}.py"
        if not path.exists():
            continue
        mod = importlib.import_module(f"mc.props.{i.lower()}")
        doc = " ".join(ast.get_docstring(ast.parse(path.read_text())).split())
        doc = doc.split(": ", 1)[1]
        out.append(f"### {i} {p['title']}\n")
        out.append(f"Explored: {doc}\n")
        if getattr(mod, "ASSUMPTIONS", None):
            out.append("Assumed: " + "; ".join(mod.ASSUMPTIONS) + ".\n")
        out.append(f"What tests do not reach: {REACH[i]}.\n")
        out.append("| part | bound | executions, quick | thorough |\n|---|---|---|---|")
        quick, deep = mod.parts("quick", 1), mod.parts("thorough", 1)
        n = {d.name: len(list(d.items)) for d in deep}
        for q in quick:
            out.append(f"| {q.name} | {q.bound} | {len(list(q.items))} | {n.get(q.name, '-')} |")
        out.append("")
        if i in seeded:
            out.append("Planted bugs caught by this check: " + "; ".join(f"`{a}` ({b})" for a, b in seeded[i]) + ".\n")
    return "\n".join(out)


def main():
    f = V / "DESIGN.md"
    t = f.read_text()
    a, b = t.index(START), t.index(END)
    f.write_text(t[:a] + START + "\n\n" + section() + "\n" + t[b:])


main()
