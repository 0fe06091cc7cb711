"""C24: the web interface reports the stored provenance.

Requests to every view of the web interface, for every stored trial, in the plain and in the experiment
form, one after another and from several threads, compressed or not. Oracle: the raw rows and the contents
known to have been there; for graphs, diffs and histories the models computed afresh in another process
(judged by C15, C16, C22); a digest of the store tells whether a request changed something else."""
import base64
import hashlib
import os
import re
import sqlite3
import sys
from collections import Counter
from urllib.parse import quote
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import projects

DRIVER = os.path.join(VERIF, "lib", "views_driver.py")
MODES = ["tree", "no_match", "exact_match", "namespace_match"]


def digest(base, skip=("graph_cache", "sqlite_sequence")):
    con = sqlite3.connect("file:%s?mode=ro" % quote(base + "/.noworkflow/db.sqlite"), uri=True)
    out = {}
    try:
        for (table,) in con.execute("select name from sqlite_master where type = 'table' order by name").fetchall():
            if table not in skip:
                rows = sorted(map(repr, con.execute('select * from "%s"' % table)))
                out[table] = (len(rows), hashlib.sha1("\n".join(rows).encode("utf-8", "replace")).hexdigest())
    finally:
        con.close()
    return out


def changed(one, two):
    return sorted(t for t in set(one) | set(two) if one.get(t) != two.get(t))


class Site(object):
    def __init__(self, base):
        self.base = base
        db = DB(base)
        try:
            self.trials = db.rows("select * from trial order by start")
            self.t = {t["id"]: t for t in self.trials}
            self.mods = db.rows("select m.*, b.code_hash from module m left join code_block b on m.trial_id = b.trial_id and m.code_block_id = b.id order by m.id")
            self.env = db.rows("select * from environment_attr order by id")
            self.files = db.rows("select * from file_access order by id")
            self.evals = db.rows("select e.*, c.name as cname, c.type as ctype, c.first_char_line from evaluation e join code_component c on e.trial_id = c.trial_id and e.code_component_id = c.id")
            self.acts = db.rows("select a.*, e.checkpoint, e.repr, b.code_hash, c.first_char_line from activation a join evaluation e on a.trial_id = e.trial_id and a.id = e.id "
                                "left join code_block b on a.trial_id = b.trial_id and a.code_block_id = b.id left join code_component c on c.trial_id = e.trial_id and c.id = e.code_component_id")
            self.blocks = db.rows("select * from code_block")
            self.exps = db.rows("select * from experiment")
        finally:
            db.close()
        self.evs = {}
        for e in self.evals:
            self.evs.setdefault(e["trial_id"], []).append(e)

    def modules(self, t):
        own = t["modules_inherited_from_trial_id"] or t["id"]
        return [m for m in self.mods if m["trial_id"] == own]


def request_plan(c, rng, site, contents):
    """(url, judge) for every view; judge(reply) -> complaint or None"""
    plan, models = [], []
    pick = rng.choice

    def add(url, judge, kind, exp=None):
        if exp and rng.random() < .35:
            url = "/experiments/%s%s" % (exp, url)
        plan.append((["GET", url, None, rng.random() < .3], judge, kind))

    def model(kind, args):
        models.append([kind, args])
        return len(models) - 1

    def as_model(k, unwrap=None):
        def judge(rep, answers):
            want = answers[k]
            if isinstance(want, dict) and set(want) == {"error"}:
                return "undecided"
            got = json.loads(rep)
            if unwrap:
                want = unwrap(want)
            if got != want:
                keys = [x for x in set(got) | set(want) if got.get(x) != want.get(x)] if isinstance(got, dict) and isinstance(want, dict) else []
                return "%s differs from the model: %r instead of %r" % (keys, [str(got.get(x))[:150] for x in keys], [str(want.get(x))[:150] for x in keys])
        return judge

    def rows(func):
        def judge(rep, answers):
            return func(json.loads(rep))
        return judge

    def text(want):
        def judge(rep, answers):
            if rep != want:
                return "content of %d bytes instead of %d: %r" % (len(rep), len(want), rep[:80])
        return judge

    def same(name, got, want):
        if got != want:
            a = [g for g in got if g not in want][:2] if isinstance(got, list) else got
            b = [w for w in want if w not in got][:2] if isinstance(want, list) else want
            return "%s: %r instead of %r (%s)" % (name, str(a)[:300], str(b)[:300], "%d / %d" % (len(got), len(want)) if isinstance(got, list) else "")

    exp = "none"
    scripts = ["*"] + sorted({t["script"] for t in site.trials})
    for _ in range(4):
        script, status, summ = pick(scripts), pick(["*", "*", "finished", "unfinished", "backup"]), int(rng.random() < .25)
        eid = pick([None] + [e["id"] for e in site.exps])
        k = model("history", [script, status, bool(summ), eid])
        url = "/trials.json?script=%s&execution=%s&summarize=%d" % (quote(script), quote(status), summ)
        if eid:
            url = "/experiments/%s%s" % (eid, url)
        ids = [t["id"] for t in site.trials if t["experiment_id"] == eid and script in ("*", t["script"]) and status in ("*", t["status"])]

        def judge(rep, answers, k=k, ids=ids, summ=summ):
            got = json.loads(rep)
            if not summ and sorted(n["id"] for n in got["nodes"]) != sorted(ids):
                return "lists %r instead of %r" % (sorted(n["id"] for n in got["nodes"]), sorted(ids))
            return as_model(k)(rep, answers)
        add(url, judge, "history")
    for t in site.trials:
        tid = t["id"]
        mine = [m for m in site.modules(t)]
        add("/trials/%s/dependencies.json" % tid, rows(lambda got, t=t, mine=mine: same("modules", sorted([m["id"], m["name"], m["version"], m["path"], m["code_hash"]] for m in got["all"]), sorted(
            [m["id"], m["name"], m["version"], m["path"], m["code_hash"]] for m in mine)) or same("path", got["trial_path"], t["path"])), "dependencies", exp)
        env = {e["name"]: e["value"] for e in site.env if e["trial_id"] == tid}
        add("/trials/%s/environment.json" % tid, rows(lambda got, env=env: same("environment", sorted([e["name"], e["value"]] for e in got["all"]), sorted(map(list, env.items())))), "environment", exp)
        acc = [f for f in site.files if f["trial_id"] == tid]
        cols = ["id", "name", "mode", "buffering", "content_hash_before", "content_hash_after", "checkpoint", "activation_id"]
        add("/trials/%s/file_accesses.json" % tid, rows(lambda got, t=t, acc=acc: same("accesses", [[f[x] for x in cols] for f in got["file_accesses"]], [[f[x] for x in cols] for f in acc]) or same(
            "path", got["trial_path"], t["path"])), "file_accesses", exp)
        acts = [a for a in site.acts if a["trial_id"] == tid]
        for a in rng.sample(acts, min(4, len(acts))):
            inner = [e for e in site.evs.get(tid, []) if e["activation_id"] == a["id"]]
            want = {"name": a["name"], "line": a["first_char_line"], "return_value": a["repr"], "hash": a["code_hash"] or "", "id": str(a["id"]),
                    "globals": sorted("%s = %s" % (e["cname"], e["repr"]) for e in inner if e["ctype"] == "global"),
                    "parameters": sorted("%s = %s" % (e["cname"], e["repr"]) for e in inner if e["ctype"] == "param")}

            def judge(rep, answers, want=want):
                got = json.loads(rep)
                for k, v in want.items():
                    g = sorted(got[k]) if isinstance(v, list) else got[k]
                    if g != v:
                        return "%s of the activation is %r instead of %r" % (k, g, v)
            add("/trials/%s/activations/%s%s" % (tid, a["id"], pick([".json", ""])), judge, "activation", exp)
        if len(acts) < 1200:
            mode = pick(MODES)
            k = model("graph", [tid, mode])
            for cache in rng.choice([[0], [1], [0, 1], [1, 1]]):
                if acts:
                    add("/trials/%s/%s/%d.json" % (tid, mode, cache), as_model(k), "graph", exp)
        evs = sorted([e["id"], e["cname"], e["first_char_line"]] for e in site.evs.get(tid, []))
        add("/dataflow/evaluations/%s" % tid, rows(lambda got, evs=evs: same("evaluations", sorted([e["evaluation_id"], e["name"], e["first_char_line"]] for e in got["evaluations"]), evs)), "evaluations")
        names = Counter([f["name"] for f in acc if f["name"] != "nul"] + [t["script"]] + [re.split(r"/", m["path"])[-1] for m in mine if m["path"] and "/" in m["path"]])
        own = Counter([f["name"] for f in acc if f["name"] != "nul"] + [t["script"]])

        def judge(rep, answers, names=names, own=own):
            got = Counter(json.loads(rep)["files"])
            if not (own - got == Counter() and got - names == Counter()):
                return "files: too much %r, missing %r" % (list((got - names).items())[:3], list((own - got).items())[:3])
        add("/files/%s" % tid, judge, "files")
        main = [b for b in site.blocks if b["trial_id"] == tid and b["id"] == t["main_id"]]
        if main and main[0]["code_hash"] in contents:
            add("/trials/%s/%s/%s" % (tid, main[0]["code_hash"], pick(["script", "it's"])), text(contents[main[0]["code_hash"]]), "script", exp)
        for f in rng.sample(acc, min(3, len(acc))):
            for h in (f["content_hash_before"], f["content_hash_after"]):
                if h and h in contents:
                    add("/trials/files/%s/%s" % (h, pick([".txt", "txt", ".bin"])), text(contents[h]), "file", exp)
        if main:
            add("/definition/%s/ast.json" % tid, lambda rep, answers, tid=tid: None if json.loads(rep)["trial"] == tid and tid in json.loads(rep)["ast"] else "another tree: %r" % rep[:200], "ast")
        if acts and rng.random() < .2 and len(evs) < 200:
            add("/trials/%s/flow.pdf" % tid, lambda rep, answers: None if rep.startswith(b"%PDF") else "not a PDF: %r" % rep[:40], "pdf", exp)
    for _ in range(min(4, len(site.trials) ** 2)):
        a, b = pick(site.trials), pick(site.trials)
        url = "/diff/%s/%s/" % (a["id"], b["id"])
        k = model("diff", [a["id"], b["id"]])

        def info(rep, answers, a=a, b=b, k=k):
            got = json.loads(rep)
            for name, t in (("trial1", a), ("trial2", b)):
                for col in ("id", "script", "command", "status", "parent_id", "path"):
                    if got[name][col] != t[col]:
                        return "%s of %s is %r instead of %r" % (col, name, got[name][col], t[col])
            if "error" not in answers[k] and got["trial"] != answers[k]["trial"]:
                return "differences of the trials are %r instead of %r" % (got["trial"], answers[k]["trial"])
        add(url + "info.json", info, "diff-info", exp)
        for name, keys in (("dependencies", "modules_%s"), ("environment", "env_%s"), ("file_accesses", "fa_%s")):
            def judge(rep, answers, name=name, keys=keys, k=k):
                if "error" in answers[k]:
                    return "undecided"
                got = json.loads(rep)
                got = [got[keys % x] for x in ("added", "removed", "replaced")]
                norm = lambda l: sorted(json.dumps(x, sort_keys=True) for x in l)
                if [norm(g) for g in got] != [norm(w) for w in answers[k][name]]:
                    return "differences in %s are %s instead of %s" % (name, str(got)[:300], str(answers[k][name])[:300])
            add(url + name + ".json", judge, "diff-" + name, exp)
        if {a["id"], b["id"]} <= {x["trial_id"] for x in site.acts} and len([x for x in site.acts if x["trial_id"] in (a["id"], b["id"])]) < 900:
            mode = pick(MODES[:3])
            k2 = model("diffgraph", [a["id"], b["id"], mode])
            add(url + "%s-%d.json" % (mode, rng.randrange(2)), as_model(k2), "diff-graph", exp)
    add(pick(["/", "/experiments/none/"]), lambda rep, answers: None if b"<html" in rep.lower() else "no page", "index")
    rng.shuffle(plan)
    return plan, models


def run_driver(base, args, timeout=150):
    res = pool().pyexec(base, DRIVER, args, timeout=timeout)
    if res.timeout:
        return None
    if "\n@@" not in res.out:
        return {"error": res.err[-1500:]}
    return json.loads(res.out.rpartition("\n@@")[2])


def git_hash(data):
    return hashlib.sha1(b"blob %d\0" % len(data) + data).hexdigest()


def known_contents(base, contents):
    for root, dirs, names in os.walk(base):
        dirs[:] = [d for d in dirs if d != ".noworkflow"]
        for name in names:
            try:
                with open(os.path.join(root, name), "rb") as fil:
                    data = fil.read()
            except OSError:
                continue
            contents[git_hash(data)] = contents[hashlib.sha1(data).hexdigest()] = data


def scenario(c, k):
    rng = c.rng(k)
    base = new_dir("c24")
    contents = {}
    first = rng.randrange(8)
    for j in range(rng.choice([1, 2, 3])):
        projects.build(rng, base, 1, ks=[(first + 3 * j) % 8], engine=None)
        known_contents(base, contents)
    if not projects.trials(base):
        return
    posts_case(c, rng, base, k)
    site = Site(base)
    if rng.random() < .4 and site.exps:  # some trials belong to an experiment
        con = sqlite3.connect(base + "/.noworkflow/db.sqlite")
        for t in site.trials:
            if rng.random() < .4:
                con.execute("update trial set experiment_id = ? where id = ?", (rng.choice(site.exps)["id"], t["id"]))
        con.commit()
        con.close()
        site = Site(base)
    plan, models = request_plan(c, rng, site, contents)
    replay = {"k": k, "seed": c.seed}
    answers = run_driver(base, {"models": models})
    before = digest(base)
    one = run_driver(base, {"requests": [p[0] for p in plan]})
    if answers is None or one is None:
        c.problem("scenario %d: no answer in time" % k)
        return
    if "error" in one or "error" in answers:
        c.violation("interface-fails", "scenario %d: %s" % (k, (one.get("error") or answers.get("error"))[-900:]), replay)
        return
    after = digest(base)
    if changed(before, after):
        c.violation("request-writes", "scenario %d: views changed %r" % (k, changed(before, after)), replay)
    many = run_driver(base, {"requests": [p[0] for p in plan], "threads": rng.choice([2, 3, 5])}) if k % 2 == 0 else {}
    judge_all(c, k, plan, one["replies"], answers["models"], replay, "")
    if many is None:
        c.problem("scenario %d: no answer in time from threads" % k)
    elif "replies" in many:
        judge_all(c, k, plan, many["replies"], answers["models"], replay, " (threads)")
    if k % 3 == 0:
        commands_case(c, rng, base, site, k)


def judge_all(c, k, plan, replies, answers, replay, how):
    for (req, judge, kind), rep in zip(plan, replies):
        form = "experiment" if req[1].startswith("/experiments") else "plain"
        c.observe((kind, form, how, len(rep["body"]) // 500), requests=1)
        if rep["status"] != 200:
            c.violation("status-" + kind, "scenario %d: %s answers %s%s: %s" % (k, req[1], rep["status"], how, (rep["error"] or "")[-400:]), replay)
            continue
        try:
            complaint = judge(base64.b64decode(rep["body"]), answers)
        except Exception as e:
            complaint = "not understood: %r" % e
        if complaint == "undecided":
            c.count(undecided_models=1)
        elif complaint:
            c.violation("view-" + kind, "scenario %d: %s%s: %s" % (k, req[1], how, complaint[:800]), replay)


def posts_case(c, rng, base, k):
    """Requests that store something, one at a time, with the store before and after"""
    db = DB(base)
    tids = [r["id"] for r in db.rows("select id from trial")]
    users = [r["id"] for r in db.rows("select id from user")]
    db.close()
    odd = rng.choice(["plain", "it's \"quoted\"", "caf\u00e9 \u4f60", "a\nb", "100% {x}"])
    reqs = [["POST", "/experiments", {"name": "exp " + odd, "description": odd}, False], ["POST", "/experiments", {"name": "", "description": odd}, False],
            ["POST", "/groups", {"name": "grp " + odd}, False], ["POST", "/groups", {"name": ""}, False]]
    out = step(c, base, k, reqs, {"experiment", "group"})
    if out is None:
        return
    if out[1]["status"] != 400 or out[3]["status"] != 400:
        c.violation("post-empty", "scenario %d: empty names are accepted: %r" % (k, [r["status"] for r in out]), None)
    db = DB(base)
    exps, groups = db.rows("select * from experiment"), db.rows('select * from "group"')
    db.close()
    body = [json.loads(base64.b64decode(r["body"])) if r["status"] == 201 else None for r in out]
    if [(e["name"], e["description"], e["id"]) for e in exps] != [("exp " + odd, odd, (body[0] or {}).get("id"))]:
        c.violation("post-experiment", "scenario %d: experiment %r stored as %r" % (k, body[0], exps), None)
    if [(g["name"], g["id"]) for g in groups] != [("grp " + odd, (body[2] or {}).get("id"))]:
        c.violation("post-group", "scenario %d: group %r stored as %r" % (k, body[2], groups), None)
    if not exps or not groups:
        return
    exp, grp, tid = exps[0]["id"], groups[0]["id"], rng.choice(tids)
    ann = {"annotation": "text " + odd, "description": odd, "annotationFormat": rng.choice(["plainText", "json"]), "provenanceType": "retrospective"}
    url, column, value = rng.choice([("/trials/%s/extendedAnnotation" % tid, "relatedTrial", tid), ("/experiments/%s/extendedAnnotation" % exp, "relatedExperiment", exp)])
    out = step(c, base, k, [["POST", url, ann, False], ["GET", url, None, False], ["POST", url, dict(ann, annotation=""), False]], {"extendedAnnotation"})
    if out is not None:
        db = DB(base)
        rows = db.rows("select * from extendedAnnotation")
        db.close()
        if len(rows) != 1 or any(rows[0][x] != ann[x] for x in ann) or rows[0][column] != value or out[2]["status"] != 400:
            c.violation("post-annotation", "scenario %d: %r to %s stored as %r (%r)" % (k, ann, url, rows, [r["error"] for r in out]), None)
        else:
            listed = json.loads(base64.b64decode(out[1]["body"]))
            if [(a["id"], a["description"], a["annotationFormat"]) for a in listed] != [(rows[0]["id"], odd, ann["annotationFormat"])]:
                c.violation("view-annotations", "scenario %d: %s lists %r" % (k, url, listed), None)
            out = step(c, base, k, [["GET", "/extendedAnnotation/%s/annotation" % rows[0]["id"], None, False]], set())
            if out is not None and (out[0]["status"] != 200 or base64.b64decode(out[0]["body"]).decode("utf-8") != ann["annotation"]):
                c.violation("view-annotation", "scenario %d: annotation answered as %s %r: %s" % (k, out[0]["status"], base64.b64decode(out[0]["body"])[:100], out[0]["error"]), None)
    if users:
        out = step(c, base, k, [["POST", "/groups/%s/users" % grp, {"userId": users[0]}, False], ["GET", "/groups", None, False], ["GET", "/users", None, False]], {"memberOfGroup", "MemberOfGroup"})
        if out is not None:
            listed = json.loads(base64.b64decode(out[1]["body"])) if out[1]["status"] == 200 else None
            if not listed or [g["id"] for g in listed] != [grp] or [u["id"] for u in listed[0]["members"]] != [users[0]]:
                c.violation("view-groups", "scenario %d: groups are listed as %r: %s" % (k, listed, out[1]["error"]), None)
            if sorted(u["id"] for u in json.loads(base64.b64decode(out[2]["body"]))) != sorted(users):
                c.violation("view-users", "scenario %d: users" % k, None)
    if rng.random() < .3:
        out = step(c, base, k, [["DELETE", "/groups/%s" % grp, None, False], ["GET", "/groups", None, False]], {"group", "memberOfGroup", "MemberOfGroup"})
        if out is not None and (out[0]["status"] != 200 or json.loads(base64.b64decode(out[1]["body"])) != []):
            c.violation("delete-group", "scenario %d: after deleting the only group: %r" % (k, out[1]), None)
    remotes(c, rng, base, k)


def step(c, base, k, reqs, may_change):
    before = digest(base)
    out = run_driver(base, {"requests": reqs})
    if out is None:
        c.problem("scenario %d: no answer in time" % k)
        return None
    if "error" in out:
        c.violation("interface-fails", "scenario %d: %s" % (k, out["error"][-800:]), None)
        return None
    wrong = [t for t in changed(before, digest(base)) if t not in may_change]
    c.observe(("post", tuple(r[1].split("/")[1] for r in reqs)), posts=len(reqs))
    if wrong:
        c.violation("request-writes", "scenario %d: %r changed %r" % (k, [r[:2] for r in reqs], wrong), None)
    return out["replies"]


def remotes(c, rng, base, k):
    urls = ["http://127.0.0.1:%d/experiments/e%d" % (1000 + j, j) for j in range(3)]
    stored, reqs = {}, []
    for j in range(rng.randrange(3, 8)):
        url = rng.choice(urls)
        kind = rng.choice(["add", "add", "edit", "delete"])
        if kind == "add" and url in stored:
            continue
        name = "name%d" % j
        if kind == "add":
            reqs.append(["POST", "/collab/remotes/add/%s/%s" % (name, quote(url)), None, False])
            stored[url] = name
            ok = True
        elif kind == "edit":
            reqs.append(["GET", "/collab/remotes/edit/%s/%s" % (name, quote(url)), None, False])
            ok = url in stored
            if ok:
                stored[url] = name
        else:
            reqs.append(["GET", "/collab/remotes/delete/%s" % quote(url), None, False])
            ok = url in stored
            stored.pop(url, None)
        reqs.append((ok, dict(stored)))
        reqs.append(["GET", "/collab/remotes/getall", None, False])
    expect = [r for r in reqs if isinstance(r, tuple)]
    out = step(c, base, k, [r for r in reqs if isinstance(r, list)], {"remote"})
    for j, (ok, state) in enumerate(expect if out else []):
        act, listed = out[2 * j], out[2 * j + 1]
        where = "scenario %d: step %d of %r" % (k, j, [r[1] for r in reqs if isinstance(r, list)][:2 * j + 1:2])
        if act["status"] != (200 if ok else 400):
            c.violation("remotes-status", "%s answers %s: %s" % (where, act["status"], act["error"]), None)
        got = {}
        if listed["status"] == 200:
            got = {r["server_url"]: r["name"] for r in json.loads(base64.b64decode(listed["body"]))["remotes"]}
        if got != state:
            c.violation("remotes", "%s gives %r instead of %r: %s" % (where, got, state, listed["error"]), None)


def commands_case(c, rng, base, site, k):
    """Views that execute commands answer what the command does"""
    full = [t for t in site.trials if t["main_id"] and t["status"] != "backup" and len(site.evs.get(t["id"], [])) < 600]
    if not full:
        return
    t = rng.choice(full)
    tid = t["id"]
    yes = lambda v: "true" if v else "false"
    r, h = rng.random() < .3, rng.random() < .5
    T, ts, H = (rng.random() < .5 for _ in range(3))
    a, e, g, depth, vl, n = rng.randrange(5), rng.randrange(3), rng.randrange(3), rng.randrange(4), rng.choice([0, 5, 30]), rng.choice([0, 10, 55])
    mode = rng.choice(["simulation", "activation", "dependency", "prospective"])
    reqs = [["GET", "/commands/export/%s/%s/%s" % (tid, yes(r), yes(h)), None, False],
            ["GET", "/commands/dataflow/%s/%s/%s/%s/%d/%d/%d/%d/%d/%d/%s/false/0" % (tid, yes(T), yes(ts), yes(H), a, e, g, depth, vl, n, mode), None, False]]
    out = step(c, base, k, reqs, set())
    if out is None:
        return
    argv = [["export", tid] + ["-r"] * r + ["-t"] * h,
            ["dataflow", tid] + ["-T"] * T + ["-t"] * ts + ["-H"] * H + ["-a", str(a), "-e", str(e), "-g", str(g), "-d", str(depth), "--value-length", str(vl), "-n", str(n), "-m", mode]]
    for args, rep, key in zip(argv, out, ("export", "dataflow")):
        res = pool().now(base, *args, timeout=90)
        c.observe(("command", key, mode if key == "dataflow" else r), commands=1)
        got = json.loads(base64.b64decode(rep["body"])).get(key) if rep["status"] == 200 else None
        if res.rc == 0 and got != res.out:
            c.violation("command-" + key, "scenario %d: view of now %r answers %r instead of %r" % (k, args, (got or rep["error"] or "")[:200], res.out[:200]), None)
    # restoring through the interface brings the script back
    main = [b for b in site.blocks if b["trial_id"] == tid and b["id"] == t["main_id"]][0]
    path = os.path.join(base, t["script"])
    if os.path.exists(path):
        with open(path, "a") as fil:
            fil.write("# changed for the test\n")
        skip = rng.random() < .3
        out = run_driver(base, {"requests": [["GET", "/commands/restore/trial/%s/%s/true/true" % (tid, yes(skip)), None, False]]})
        with open(path, "rb") as fil:
            data = fil.read()
        c.observe(("command", "restore", skip), commands=1)
        restored = main["code_hash"] in (git_hash(data), hashlib.sha1(data).hexdigest())
        if out and "replies" in out and restored == skip:
            c.violation("command-restore", "scenario %d: restore with skip=%s left %r: %r" % (k, skip, data[-60:], out["replies"][0]["error"]), None)


def body(c):
    n = 400 if c.thorough else 26
    deadline = c.t0 + (700 if c.thorough else 32)

    def one(k):
        if time.time() < deadline:
            scenario(c, k)
    pool().map(one, range(n))


if __name__ == "__main__":
    main(Check("C24", "trace", "replies of the views compared with the stored rows, contents and fresh models; distinct = (view, form, concurrency, size)", min_eval=300), body)
