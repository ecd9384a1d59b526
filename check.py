#!/usr/bin/env python3
"""Driver: ``python3-vt check.py CNN [--tier quick|thorough]``.

1. loads /repo's current source, generates and discharges the obligations of
   the property's contracts (vc/, contracts/cNN.py) with z3;
2. runs the concrete replays of the same contracts against the real code
   (battery/bNN.py): cross-check of the library models, search of a failing
   input for refuted obligations, bounded stand-in for obligations outside the
   verifier's reach;
3. writes evidence/CNN.json, prints the verdict.
"""

import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.environ.get("VIQA_ROOT", "/repo")
VENV = "/opt/venv/bin/python"


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={pid} " in line:
                rest = line.split(f"property={pid} ", 1)[1]
                sig, _, text = rest.partition(" :: ")
                out.append((sig.strip(), text.strip()))
    return out


def start_battery(pid, seed, tier):
    fd, path = tempfile.mkstemp(prefix=f"viqa-{pid}-", suffix=".json")
    os.close(fd)
    env = dict(os.environ, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", VIQA_ROOT=ROOT)
    env.setdefault("MPLCONFIGDIR", tempfile.gettempdir())
    p = subprocess.Popen([VENV, "-B", os.path.join(HERE, "battery", "run.py"), pid, path, str(seed), tier], env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, text=True)
    return p, path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    bat, bat_path = start_battery(pid, seed, tier)

    from vc import contract

    def failed():
        """The replays are finished and found a failing input."""
        if bat.poll() is None:
            return False
        try:
            with open(bat_path) as f:
                return any(not any(sig in "battery/" + x["label"] for sig, _ in known_findings(pid))
                           for x in json.load(f).get("failures", []))
        except (OSError, ValueError):
            return False

    mod = importlib.import_module("contracts.c" + pid[1:])
    S = mod.S
    if tier != "quick":
        for c in S.items:
            c.timeout *= 4
            c.max_paths *= 4
    if hasattr(mod, "native"):
        recs = mod.native(ROOT, tier)
    else:
        recs = contract.run_suite(S, procs=8, budget=420 if tier == "quick" else 3000, root=ROOT, only=a.only,
                                  failed=failed)
    try:
        _, err = bat.communicate(timeout=300 if tier == "quick" else 1500)
        with open(bat_path) as f:
            bres = json.load(f)
    except (subprocess.TimeoutExpired, ValueError) as e:
        bat.kill()
        bres = {"cases": 0, "failures": [], "error": f"battery: {e!r}"}
    os.unlink(bat_path)

    kf = known_findings(pid)
    hits = []

    def known(text):
        for sig, desc in kf:
            if sig in text:
                hits.append((sig, desc))
                return True
        return False

    refuted, undecided = [], []
    n_obl = n_dis = 0
    solver_t = 0.0
    entered, contracts = set(), []
    for r in recs:
        bad = []
        for lab, o in r.obl.items():
            n = o["proved"] + o["refuted"] + o["unknown"]
            n_obl += n
            n_dis += o["proved"]
            if o["refuted"]:
                bad.append((lab, o))
        if r.st == "refuted":
            for lab, o in bad:
                if not known(f"{r.name}/{lab}"):
                    refuted.append({"contract": r.name, "obligation": lab, "functions": list(r.functions),
                                    "detail": o["detail"]})
        elif r.st != "proved":
            undecided.append({"contract": r.name, "status": r.st,
                              "reason": (r.error or "; ".join(sorted(set(r.unsupported))[:4]))[:600] or
                              "; ".join(l for l, o in r.obl.items() if o["unknown"])})
        solver_t += (r.solver or {}).get("time", 0.0)
        entered.update(r.entered)
        contracts.append({"contract": r.name, "functions": list(r.functions), "status": r.st, "paths": r.paths,
                          "obligations": sum(o["proved"] + o["refuted"] + o["unknown"] for o in r.obl.values()),
                          "discharged": sum(o["proved"] for o in r.obl.values()), "wall_s": round(r.wall, 2)})
    bfail = [f for f in bres.get("failures", []) if not known("battery/" + f["label"])]
    berr = bres.get("error")
    proved_all = not refuted and not undecided
    status = "held"
    line = None
    replay = os.path.join(HERE, "replays", f"{pid}.json")
    if refuted or bfail:
        status = "violated"
        with open(replay, "w") as f:
            json.dump({"property": pid, "failed_obligations": refuted, "failing_inputs": bfail, "battery_error": berr,
                       "undecided": undecided,
                       "reproduce": f"VERIF_SEED={seed} {VENV} {HERE}/battery/run.py {pid} OUT.json {seed} {tier}"},
                      f, indent=1, default=str)
        line = f"VIOLATION property={pid} replay={replay}"
        if not bfail:
            line += " no-failing-input-found"
    level = "proof" if proved_all and recs else "exploration"
    trusted = ["z3 " + __import__("z3").get_version_string(), "/verif/vc (symbolic executor and loader)",
               "library models of /verif/vc/libs.py and npmod.py (assumed contracts on numpy, scipy, scikit-image, "
               "torch, piq, file system)", "CPython 3.12"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "wall_s": round(time.time() - t0, 2), "status": status,
        "coverage": {
            "obligations": n_obl, "discharged": n_dis,
            "checker_cmd": f"python3-vt {HERE}/check.py {pid} --tier {tier}",
            "trusted_base": trusted + list(getattr(mod, "TRUSTED", [])),
            "back_end": "z3 (SMT); obligations generated by symbolic execution of the loaded source",
            "solver_s": round(solver_t, 2),
            "contracts": contracts,
            "contracts_proved": sum(1 for c in contracts if c["status"] == "proved"),
            "contracts_total": len(contracts),
            "functions_under_contract": sorted({f for c in contracts for f in c["functions"]}),
            "functions_executed_symbolically": sorted(entered),
            "bounded": {"replay_cases": bres.get("cases", 0), "undecided_contracts": undecided,
                        "note": "undecided contracts are decided only by the bounded replay cases"},
            "complete": level == "proof",
        },
        "assumptions": list(S.assumptions) + [
            "floating point arithmetic is treated as real arithmetic; 64-bit integers as mathematical integers",
            "library functions behave as their models in /verif/vc state"] + list(S.bounded_notes),
        "violations": [dict(r, kind="obligation") for r in refuted] + [dict(f, kind="input") for f in bfail],
    }
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for sig, desc in dict.fromkeys(hits):
        print(f"KNOWN-FINDING: property={pid} {desc}")
    print(f"{pid}: {len([c for c in contracts if c['status'] == 'proved'])}/{len(contracts)} contracts proved, "
          f"{n_dis}/{n_obl} obligations discharged, {bres.get('cases', 0)} replay cases, {time.time() - t0:.1f}s")
    for u in undecided:
        print(f"  undecided (bounded only): {u['contract']}: {u['status']} {u['reason'][:200]}")
    for r in refuted[:6]:
        print(f"  failed obligation: {r['contract']}/{r['obligation']} {(r['detail'] or {}).get('why', '')[:200]}")
    for f in bfail[:4]:
        print(f"  failing input: {f['label']}: {f['message'][:200]}")
    if berr:
        print("  battery error: " + berr[-400:])
    if line:
        print(line)
        return 1
    if berr and not proved_all:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
