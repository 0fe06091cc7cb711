"""Executed in a child that lives while the store changes: answers requests for history
views and trials (ARGS: box, folder with the requests req_<k>.json)"""
import json
import os
import time
import traceback

from noworkflow.now.persistence import persistence_config, relational
from noworkflow.now.persistence.models import Trial
from noworkflow.now.models.history import History


def view(script, status, summarize, cached):
    history = History(script=script, status=status, summarize=summarize)
    history.graph.use_cache = cached
    data = history.graph.graph()
    json.dumps(data)
    return {"data": data, "text": repr(history), "scripts": sorted(history.scripts)}


def facts():
    out = []
    for trial in Trial.all():
        out.append({"id": trial.id, "status": trial.status, "script": trial.script, "start": str(trial.start), "finish": str(trial.finish),
                    "command": trial.command, "parent": trial.parent_id, "letter": trial.status_letter, "tags": sorted(t.name for t in trial.tags)})
    return out


done = 0
current = None
limit = time.monotonic() + ARGS.get("limit", 120)
print("\n@@" + json.dumps({"alive": True}))
while time.monotonic() < limit:
    path = os.path.join(ARGS["box"], "req_%d.json" % done)
    if os.path.exists(os.path.join(ARGS["box"], "stop")):
        break
    if not os.path.exists(path):
        time.sleep(.01)
        continue
    with open(path) as fil:
        request = json.load(fil)
    answer = []
    try:
        if request["dir"] != current:
            current = request["dir"]
            os.chdir(current)
            persistence_config.connect_existing(current)
        for args in request["views"]:
            try:
                answer.append(view(*args))
            except Exception:
                answer.append({"error": traceback.format_exc()[-1500:]})
        if request.get("facts"):
            answer.append(facts())
    except Exception:
        answer = {"error": traceback.format_exc()[-1500:]}
    with open(os.path.join(ARGS["box"], "tmp"), "w") as fil:
        json.dump(answer, fil, default=str)
    os.rename(os.path.join(ARGS["box"], "tmp"), os.path.join(ARGS["box"], "rep_%d.json" % done))
    done += 1
