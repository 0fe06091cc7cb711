"""Executed in a child: diffs of trials through the model API (ARGS["pairs"])"""
import json
import os

from noworkflow.now.persistence import persistence_config
from noworkflow.now.models.diff import Diff

persistence_config.connect_existing(os.getcwd())


def ident(obj):
    return [obj.trial_id, obj.id]


def sets(triple):
    added, removed, replaced = triple
    return {"added": [ident(o) for o in added], "removed": [ident(o) for o in removed], "replaced": [[ident(a), ident(b)] for a, b in replaced]}


out = []
for one, two in ARGS["pairs"]:
    diff = Diff(one, two)
    out.append({"trial": {k: [str(v) for v in vs] for k, vs in diff.trial.items()},
                "modules": sets(diff.modules), "environment": sets(diff.environment), "files": sets(diff.file_accesses)})
print("\n@@" + json.dumps(out))
