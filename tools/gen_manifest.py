"""Writes /verif/MANIFEST.json from properties.jsonl and the modules in mc/props."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
NA = {
    "X01": "A statement about the limiting distribution over infinitely many random toys: it has no finite set of behaviours to enumerate, "
           "and deciding it by drawing toys is sampling. What makes it true is claimed piecewise in M06, S01-S03, F01 and G01.",
    "X02": "Convergence of SLSQP and MIGRAD (third-party numerical algorithms) on every likelihood of any size is a continuous, unbounded "
           "claim that no finite enumeration covers; on the current tree both minimizers do report failures for small models. F01 claims "
           "what a successful fit returns.",
}
LEVEL = ("Every operation sequence / input combination of a finite alphabet within the stated bounds is executed on the real code in /repo "
         "and compared with an independent reference model; the bounds, states, transitions and validated traces are in the evidence. "
         "Outside the bounds nothing is claimed. Trusted: the reference model, numpy/scipy/iminuit themselves.")
NOTE = {}


def main():
    props = [json.loads(line) for line in open(V / "properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if (V / "mc" / "props" / f"{i.lower()}.py").exists() and i not in NA:
            checks.append({
                "property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "bounded exhaustive model checking of the implementation against a reference model (stateless enumeration)",
                "level": "model_checking", "level_note": NOTE.get(i, LEVEL)})
        else:
            na.append({"property": i, "reason": NA.get(i, "Not claimed yet.")})
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo. VERIF_SEED only varies the irregular numbers used by some alphabets; the enumeration is complete for every seed."},
              open(V / "MANIFEST.json", "w"), indent=1)


main()
