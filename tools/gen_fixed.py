#!/usr/bin/env python3
"""Rewrites the fixed entries of KNOWN_FINDINGS.jsonl from the fix commits in /repo.
Run by hand when a fix is committed; no check runs it."""
import json, subprocess
PROP = {  # subject of the commit -> property
 "Objective.add() modifies": "P01", "also reverts auxiliary": "P04", "vectorized Objective.error() follows": "P04",
 "vectorized retraction broadcasts": "P20", "Objective.error() broadcasts": "P04", "adding or erasing cost functions no longer": "P05",
 "flatten_dims accept batched": "P06", "Objective.copy() supports": "P02", "copies of robust cost": "P02", "AutoDiffCostFunction keeps": "P02",
 "GPMotionModel returns": "P02", "torchkin X/Y/Z": "P18", "rotations by 180": "P14", "GPCostWeight accepts": "P17",
 "refreshed after Variable.to()": "P05", "uses the current batch size": "P05", "weights are all zero": "P05", "re-enabled without": "P05",
 "HingeLoss are finite": "P06", "VariableOrdering.remove()": "P07", "diagonal_scaling()": "P07", "CholmodSparseSolver solutions": "P08",
 "dense solvers with check_singular": "P08", "CholmodSparseSolver reports": "P08", "absolute error tolerance": "P09",
 "converted to another dtype": "P12", "current auxiliary values in the DLM": "P12", "DLM when the error": "P12", "DLM backward pass after": "P12",
 "rejected step are not reported": "P09", "report complete histories": "P09", "histories keep the precision": "P09",
 "cached approximate jacobian": "P16", "autodiff jacobians with": "P19", "vmap autodiff releases": "P19", "LieTensor '*' composes": "P21",
 "SE3 untransform backward": "P14", "size of the new data": "P17", "rejects any negative threshold": "P17", "Lie group check contexts restore": "P15", "as_euclidean takes effect": "P15", "masked_variables captures": "P15",
 "LieGroupTensor.add_ does not": "P15", "float64 norm tolerance": "P15", "resetting the torchlie": "P15", "set_global_params sets nothing": "P15",
 "group checks of SO3 and SE3 take place": "P15", "check of SE3 hat matrices": "P15",
 "refuses a bad precision before": "P22", "retract_gaussian keeps": "P22", "samples are drawn in": "P22",
 "default x-axis": "P18", "reports all links": "P18", "second derivatives of forward": "P18", "SE2 log_map is finite": "P14", "SE2 exp_map jacobian": "P14",
}
import sys
sys.path.insert(0, "/verif/tools")
out = []
for line in open("/verif/KNOWN_FINDINGS.jsonl"):
    d = json.loads(line)
    if d["status"] != "fixed":
        out.append(d)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: ") or h == "2e8a540":  # reverted
        continue
    m = [p for k, p in PROP.items() if k in s]
    assert len(m) == 1, s
    out.append({"status": "fixed", "property": m[0], "commit": h, "key": f"{m[0]}:{h}",
                "what": f"fixed: property={m[0]} {h} {s[5:]}"})
with open("/verif/KNOWN_FINDINGS.jsonl", "w") as f:
    for d in out:
        f.write(json.dumps(d) + "\n")
