"""Runs the cells of a notebook in an IPython shell, with noWorkflow's kernel shell or without it.
ARGS: cells, capture -> per cell: result, error, output; names in the namespace at the end"""
import contextlib
import io
import json
import sys

from IPython.core.interactiveshell import InteractiveShell

shell = InteractiveShell.instance(colors="NoColor", history_length=0, cache_size=1000)
shell.history_manager.enabled = False
runner = shell
if ARGS["capture"]:  # noqa
    from noworkflow.kernel.shell import OverrideShell
    runner = OverrideShell(shell)
res = []
for cell in ARGS["cells"]:  # noqa
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            r = runner.run_cell(cell["source"], store_history=cell.get("history", True))
            res.append({"count": r.execution_count, "result": repr(r.result), "error": type(r.error_in_exec or r.error_before_exec).__name__,
                        "message": str(r.error_in_exec or r.error_before_exec)})
        except BaseException as exc:  # the shell itself failed
            res.append({"count": None, "result": None, "error": "SHELL " + type(exc).__name__, "message": str(exc)})
    text = out.getvalue()
    res[-1]["out"] = text.split("-----", 1)[0] if res[-1]["error"] != "NoneType" else text
names = {}
for name, value in sorted(shell.user_ns.items()):
    if not name.startswith("_") and name not in ("In", "Out", "get_ipython", "exit", "quit", "open") and not isinstance(value, type(sys)):
        try:
            names[name] = repr(value)
        except Exception as exc:  # pylint: disable=broad-except
            names[name] = "repr fails: " + type(exc).__name__
names["Out"] = repr(sorted((k, repr(v)) for k, v in shell.user_ns["Out"].items()))
names["In"] = repr(shell.user_ns["In"])
sys.stdout.write("\n@@" + json.dumps({"cells": res, "names": names}))
sys.stdout.flush()
