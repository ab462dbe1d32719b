"""python -m mc.run PROP [--replay FILE]: explore one property; exit 0 held, 1 violated."""
import importlib
import json
import os
import sys
import time
import traceback

from . import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    t0 = time.time()
    # the code under test prints; keep the real streams for the verdict
    out, err = os.fdopen(os.dup(1), "w"), os.fdopen(os.dup(2), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(null, 2)
    try:
        code = explore(prop, tier, seed, replay, t0, out)
    except BaseException:
        err.write(traceback.format_exc())
        err.write(f"{prop}: the check itself failed\n")
        err.flush()
        os._exit(2)
    out.flush()
    os._exit(code)


def explore(prop, tier, seed, replay, t0, out):
    import warnings
    warnings.simplefilter("ignore")
    import templatefitter
    where = os.path.realpath(templatefitter.__file__)
    repo = os.path.realpath(os.environ.get("MC_REPO", "/repo"))     # MC_REPO: a scratch copy with a planted bug
    assert where.startswith(repo + "/"), where
    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    nproc = int(os.environ.get("MC_NPROC", os.cpu_count() or 4))
    deadline = t0 + (core.WALL_CAP if tier == "quick" else 6 * 3600)
    if replay:
        want = json.load(open(replay))
    total, parts, capped_any = core.Acc(), [], False
    for part in mod.parts(tier, seed):
        items = list(part.items)
        if replay:
            items = [i for i in items if part.name == want["part"] and repr(i) == want["item"]]
        t1 = time.time()
        acc, capped = core.explore(part, items, nproc, deadline)
        capped_any |= capped
        acc.samples = acc.samples[:2]
        parts.append({"part": part.name, "bound": part.bound, "traces_enumerated": len(items),
                      "traces_run": acc.traces, "states": len(acc.states), "transitions": acc.transitions,
                      "comparisons": acc.compared, "distinct_outcomes": len(acc.outcomes),
                      "completed": not capped and acc.traces == len(items), "wall_s": round(time.time() - t1, 2)})
        if os.environ.get("MC_VERBOSE"):
            out.write(f"  {parts[-1]}\n")
            out.flush()
        total.merge(acc)
        if acc.failures:
            break
    known = core.load_known(prop)
    for key, (text, ops, cur) in total.findings.items():
        if key not in known:
            total.failures.append({"part": cur[0] if cur else "", "item": cur[1] if cur else "", "what": f"{key}: {text}",
                                   "expected": "", "got": "", "operations": ops})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(total.states),
            "transitions": total.transitions,
            "traces_validated_against_impl": total.traces,
            "comparisons_with_reference": total.compared,
            "distinct_outcomes": len(total.outcomes),
            "exhaustive": all(p["completed"] for p in parts) and bool(parts),
            "capped": capped_any,
            "parts": parts,
            "samples": total.samples[:12],
            "explanation": (mod.__doc__ or "").strip(),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(total.failures),
    }
    evdir = os.environ.get("MC_EVIDENCE_DIR") or os.path.join(core.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not replay:
        tmp = os.path.join(evdir, f".{prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(evdir, f"{prop}.json"))
    for key in total.findings:
        if key in known:
            out.write(f"KNOWN-FINDING: property={prop} key={key} {known[key]}\n")
    if total.failures:
        path = replay
        if not replay:
            path = os.path.join(evdir, f"replay-{prop}.json")
            f0 = dict(total.failures[0], property=prop, tier=tier, seed=seed,
                      replay_with=f"VERIF_TIER={tier} VERIF_SEED={seed} /verif/check.sh {prop} --replay {path}")
            with open(path, "w") as f:
                json.dump(f0, f, indent=1)
        f0 = total.failures[0]
        out.write(f"{prop}: {f0['part']}: {f0['item'][:300]}\n  {f0['what'][:600]}\n")
        if f0["got"] and "Traceback" in f0["got"]:
            out.write("  " + f0["got"].strip().replace("\n", "\n  ")[-900:] + "\n")
        out.write(f"VIOLATION property={prop} replay={path}\n")
        return 1
    if total.traces == 0:
        raise RuntimeError("nothing was explored")
    out.write(f"{prop} held: {total.traces} traces, {len(total.states)} states, {total.transitions} transitions, "
              f"{total.compared} comparisons in {time.time() - t0:.1f} s{' (CAPPED)' if capped_any else ''}\n")
    return 0


main()
