"""Executed in a child: dataflow graphs of a trial under several configurations (ARGS: trial, configs)"""
import argparse
import json
import os
import traceback

from noworkflow.now.persistence import persistence_config
from noworkflow.now.persistence.models import Trial

persistence_config.connect_existing(os.getcwd())
out = []
for config in ARGS["configs"]:
    try:
        trial = Trial(trial_ref=ARGS["trial"])
        args = dict(accesses=1, types=False, hide_timestamps=True, hide_internals=True, evaluations=1, depth=0, group=0, mode="prospective", wdf=None, trial=ARGS["trial"])
        lengths = {k: config[k] for k in ("value_length", "name_length") if k in config}
        args.update({k: v for k, v in config.items() if k not in lengths})
        trial.dependency_config.read_args(argparse.Namespace(**args))
        trial.dot.value_length = lengths.get("value_length", 0)
        trial.dot.name_length = lengths.get("name_length", 55)
        text = trial.dot.export_text()
        clus = trial.dependency_clusterizer
        maps = {}
        for syn in getattr(clus.synonymer, "synonymers", [clus.synonymer]):
            ids = getattr(syn, "synonym_ids", None)
            if ids is not None:
                maps[type(syn).__name__] = ids
        out.append({"dot": text, "maps": maps})
    except Exception:
        out.append({"error": traceback.format_exc()[-1500:]})
print("\n@@" + json.dumps(out))
