"""Merges notebooks with the real code. ARGS: cases -> [{"cells", "untouched"} | {"error"}]"""
import json
import sys

import nbformat as nbf
from noworkflow.now.models.cleaning.merge import merge_json

res = []
for case in ARGS["cases"]:  # noqa
    original = nbf.from_dict({"cells": case["original"], "metadata": {}, "nbformat": 4, "nbformat_minor": 4})
    history = nbf.from_dict({"cells": case["history"], "metadata": {}, "nbformat": 4, "nbformat_minor": 4})
    before = [nbf.from_dict(c) for c in case["before"]]
    after = [nbf.from_dict(c) for c in case["after"]]
    try:
        nb = merge_json(original, history, before, after, case["first"], case["merge_code"])
        res.append({"cells": nb["cells"], "untouched": json.loads(json.dumps(original["cells"])) == case["original"] and json.loads(json.dumps(history["cells"])) == case["history"]})
    except Exception as exc:  # pylint: disable=broad-except
        res.append({"error": "%s: %s" % (type(exc).__name__, exc)})
sys.stdout.write("\n@@" + json.dumps(res))
sys.stdout.flush()
