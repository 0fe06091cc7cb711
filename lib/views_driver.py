"""Executed in a child: requests to the web interface (ARGS: requests [[method, url, json, gzip]], threads) or the
answers of the models behind it (ARGS: models [[kind, args]])"""
import base64
import gzip
import json
import os
import sys
import threading
import traceback

from noworkflow.now.persistence import persistence_config, relational

os.environ["PATH"] = os.path.dirname(sys.executable) + os.pathsep + os.environ.get("PATH", "")
persistence_config.connect_existing(os.getcwd())
out = {}
if "requests" in ARGS:
    from noworkflow.now.vis.views import app
    app.testing = False
    app.config["PROPAGATE_EXCEPTIONS"] = False
    lock = threading.Lock()
    errors = {}

    def log(sender, exception, **extra):
        with lock:
            errors.setdefault(threading.get_ident(), []).append("".join(traceback.format_exception(exception))[-900:])
    from flask import got_request_exception
    got_request_exception.connect(log, app)

    def ask(client, method, url, data, zipped):
        res = client.open(url, method=method, json=data, headers={"Accept-Encoding": "gzip"} if zipped else {})
        body = res.get_data()
        if res.headers.get("Content-Encoding") == "gzip":
            body = gzip.decompress(body)
        own = errors.pop(threading.get_ident(), None)
        return {"status": res.status_code, "type": res.content_type, "body": base64.b64encode(body).decode("ascii"), "gzip": res.headers.get("Content-Encoding") == "gzip",
                "name": res.headers.get("Content-Disposition"), "error": own[-1] if own else None}
    n = ARGS.get("threads", 1)
    replies = [None] * len(ARGS["requests"])

    def work(k):
        client = app.test_client()
        for i in range(k, len(replies), n):
            try:
                replies[i] = ask(client, *ARGS["requests"][i])
            except Exception:
                replies[i] = {"status": -1, "error": traceback.format_exc()[-1500:], "body": "", "type": "", "name": None, "gzip": False}
    threads = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    out["replies"] = replies
if "models" in ARGS:
    from noworkflow.now.persistence.models import Trial
    from noworkflow.now.models.diff import Diff
    from noworkflow.now.models.history import History
    out["models"] = []
    for kind, args in ARGS["models"]:
        try:
            if kind == "graph":
                graph = Trial(args[0]).graph
                graph.use_cache = False
                res = getattr(graph, args[1])()[1]
            elif kind == "diffgraph":
                graph = Diff(args[0], args[1]).graph
                graph.use_cache = False
                res = getattr(graph, args[2])()[1]
            elif kind == "history":
                history = History(script=args[0], status=args[1], summarize=args[2], expId=args[3])
                history.graph.use_cache = False
                res = history.graph.graph()
            elif kind == "diff":
                diff = Diff(args[0], args[1])
                extra = dict(extra=("code_hash",))
                res = {"dependencies": [[x.to_dict(**extra) for x in diff.modules[0]], [x.to_dict(**extra) for x in diff.modules[1]], [[y.to_dict(**extra) for y in x] for x in diff.modules[2]]],
                       "environment": [[x.to_dict() for x in diff.environment[0]], [x.to_dict() for x in diff.environment[1]], [[y.to_dict() for y in x] for x in diff.environment[2]]],
                       "file_accesses": [[x.to_dict() for x in diff.file_accesses[0]], [x.to_dict() for x in diff.file_accesses[1]], [[y.to_dict() for y in x] for x in diff.file_accesses[2]]],
                       "trial": diff.trial}
            elif kind == "dot":
                res = Trial(args[0]).dot.export_text()
            from flask import Flask, jsonify
            helper = Flask("helper")
            with helper.app_context():
                out["models"].append(json.loads(jsonify(res).get_data()))
        except Exception:
            out["models"].append({"error": traceback.format_exc()[-1500:]})
print("\n@@" + json.dumps(out))
