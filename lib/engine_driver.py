"""Executed in a child: drives the content database with a script of operations (ARGS["ops"])"""
import base64
import json
import os
import threading

from noworkflow.now.persistence import persistence_config, content

persistence_config.content_engine = ARGS["engine"]
if os.path.isdir(os.path.join(os.getcwd(), ".noworkflow")):
    persistence_config.connect_existing(os.getcwd())
else:
    os.makedirs(os.path.join(os.getcwd(), ".noworkflow"))
    persistence_config.connect(os.getcwd())

out = []
ids = {}


def err(exc):
    return {"error": "%s: %s" % (type(exc).__name__, str(exc)[:300])}


def b64(data):
    if isinstance(data, str):
        return {"type": "str", "data": base64.b64encode(data.encode()).decode()}
    return {"data": base64.b64encode(data).decode()}


def run(op):
    kind = op[0]
    try:
        if kind == "put":
            ids[op[1]] = content.put(base64.b64decode(op[1]), op[2])
            return {"id": ids[op[1]]}
        if kind == "put_noname":
            ids[op[1]] = content.put(base64.b64decode(op[1]))
            return {"id": ids[op[1]]}
        if kind == "get":
            return b64(content.get(op[1]))
        if kind == "getdata":  # the content stored before in this session
            return b64(content.get(ids[op[1]]))
        if kind == "finddata":
            prefix = ids[op[1]][:op[2]]
            res = content.find_subhash(prefix)
            return {"id": res.decode() if isinstance(res, bytes) else res, "prefix": prefix}
        if kind == "find":
            res = content.find_subhash(op[1])
            return {"id": res.decode() if isinstance(res, bytes) else res, "type": type(res).__name__}
        if kind == "list":
            return {"ids": content.listAll()}
        if kind == "close":
            content.close()
            return {}
        if kind == "commit":
            content.commit_content(op[1])
            return {}
        if kind == "gc":
            content.gc(*op[1:])
            return {}
        if kind == "threads":
            res = [None] * len(op[1])

            def work(k, items):
                res[k] = [run(["put", d, f]) for d, f in items]
            ths = [threading.Thread(target=work, args=(k, items)) for k, items in enumerate(op[1])]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            return {"ids": res}
    except BaseException as exc:
        return err(exc)


for op in ARGS["ops"]:
    out.append(run(op))
with open(ARGS["out"], "w") as fil:
    json.dump(out, fil)
os._exit(0)
