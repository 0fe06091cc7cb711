"""Executed in a child: graphs of trials and of pairs of trials (ARGS: trials, pairs, modes)"""
import json
import os
import traceback

from noworkflow.now.persistence import persistence_config
from noworkflow.now.persistence.models import Trial
from noworkflow.now.models.diff import Diff

persistence_config.connect_existing(os.getcwd())


def describe(result):
    finished, graph, nodes = result
    seen = []

    def walk(node):
        stack = [node]
        while stack:
            cur = stack.pop()
            seen.append(cur["index"])
            stack.extend(cur["children"])
    walk(graph["root"])
    json.dumps(graph)
    return {"finished": finished,
            "graph": {k: graph[k] for k in ("edges", "min_duration", "max_duration", "trial1", "trial2", "width", "height")},
            "reached": seen,
            "nodes": [{"index": n["index"], "parent": n["parent_index"], "children_index": n["children_index"], "name": n["name"], "children": [c["index"] for c in n["children"]],
                       "activations": dict(n["activations"]) if n["activations"] else {}, "duration": dict(n["duration"]),
                       "trial_ids": list(n["trial_ids"]), "tooltip": dict(n["tooltip"])} for n in nodes]}


def attempt(func):
    try:
        return describe(func())
    except Exception:
        return {"error": traceback.format_exc()[-1500:]}


out = {"trials": [], "pairs": []}
for tid, mode in ARGS.get("trials", []):
    trial = Trial(tid)
    res = {}
    trial.graph.use_cache = False
    res["fresh"] = attempt(getattr(trial.graph, mode))
    trial = Trial(tid)
    trial.graph.use_cache = True
    if ARGS.get("width"):
        trial.graph.width = ARGS["width"]
    res["cached"] = attempt(getattr(trial.graph, mode))
    out["trials"].append(res)
for one, two, mode in ARGS.get("pairs", []):
    diff = Diff(one, two)
    diff.graph.use_cache = bool(ARGS.get("pair_cache"))
    out["pairs"].append(attempt(getattr(diff.graph, mode)))
print("\n@@" + json.dumps(out))
