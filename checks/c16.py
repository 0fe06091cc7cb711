"""C16: activation graphs account for every activation.

Graphs of every mode, computed afresh and answered from the cache, and graphs of pairs of trials are
judged by a recursive summary computed from the raw rows: which activations each node has, durations,
parents, and the counts of the edges. Workloads: random call trees (recursion, generators, callbacks,
several calls per line), generated programs, limited depth, runs that fail or are killed."""
import os
import shutil
import sys
from collections import Counter, defaultdict
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import projects

DRIVER = os.path.join(VERIF, "lib", "graph_driver.py")
MODES = ["tree", "no_match", "exact_match", "namespace_match"]


def tree(rng, depth):
    names = "abcghe"
    n = rng.choice([0, 1, 1, 2, 2, 3]) if depth else 0
    return [rng.choice(names), [tree(rng, depth - 1) for _ in range(n)]]


def call_tree_program(rng):
    """Functions that call each other as a given tree tells; g and h are generators, e may raise"""
    top = [tree(rng, rng.choice([1, 2, 3])) for _ in range(rng.randrange(2, 5))]
    if rng.random() < .7:  # the same calls again, and almost the same
        again = json.loads(json.dumps(rng.choice(top)))
        top.append(json.loads(json.dumps(again)))
        node = again
        while node[1] and rng.random() < .7:
            node = rng.choice(node[1])
        node[1].append(tree(rng, 1))
        top.append(again)
    lines = []
    for name in "abc":
        lines += ["def %s(t):" % name]
        if rng.random() < .3:
            lines += ["    for x in t: F[x[0]](x[1])"]
        else:
            lines += ["    for x in t:"]
            for k, other in enumerate("abcghe"):
                lines += ["        %s x[0] == %r:" % ("elif" if k else "if", other),
                          "            %s(x[1])" % other if other not in "gh" else "            for v in %s(x[1]):\n                %s" % (other, rng.choice(["pass", "leaf(v)", "a([])"]))]
        lines += ["    return len(t)"]
    for name in "gh":
        lines += ["def %s(t):" % name, "    yield leaf(0)", "    for x in t:", "        if x[0] in 'gh':", "            yield from F[x[0]](x[1])", "        else:",
                  "            yield F[x[0]](x[1])"]
    lines += ["def e(t):", "    try:", "        for x in t:", "            r = F[x[0]](x[1])", "            if x[0] in 'gh': list(r)", "        raise ValueError(len(t))", "    except ValueError as exc:", "        leaf(1); leaf(2)",
              "    return 1", "def leaf(v):", "    return v", "F = dict(a=a, b=b, c=c, g=g, h=h, e=e)"]
    for node in top:
        how = rng.randrange(3)
        if node[0] in "gh":
            lines += ["%s(%r)" % (rng.choice(["list", "sum"]), 0) if False else "w = list(%s(%r))" % (node[0], node[1])] if how else ["w1, w2 = %s(%r), h([])" % (node[0], node[1]), "for p, q in zip(w1, w2):", "    leaf(p)"]
        else:
            lines += ["v = %s(%r)" % (node[0], node[1])]
    if rng.random() < .3:
        lines += ["u = sorted([3, 1, 2], key=leaf)", "m = list(map(leaf, [1, 2]))", "n = [a([]) for _ in range(2)]"]
    p = rng.random()
    if p < .15:
        lines += ["def z():", "    leaf(1)", "    1 / 0", "z()"]
    return {"script.py": "\n".join(lines) + "\n"}, p


class Acts(object):
    def __init__(self, db, tid):
        self.tid = tid
        self.acts = {}
        for r in db.rows("select a.id, a.name, a.start_checkpoint, e.checkpoint, e.activation_id, c.first_char_line from activation a join evaluation e on e.trial_id=a.trial_id and e.id=a.id "
                         "left join code_component c on c.trial_id=e.trial_id and c.id=e.code_component_id where a.trial_id=?", tid):
            dur = int((r["checkpoint"] - r["start_checkpoint"]) * 1000000) if r["checkpoint"] is not None else 0
            self.acts[r["id"]] = (r["name"], r["first_char_line"], r["activation_id"], dur)
        self.kids = defaultdict(list)
        self.roots = []
        for i in sorted(self.acts):
            caller = self.acts[i][2]
            if caller in self.acts and caller != i:
                self.kids[caller].append(i)
            else:
                self.roots.append(i)
        self.trial = db.rows("select * from trial where id=?", tid)[0]

    def shape(self, i):
        return (self.acts[i][1], self.acts[i][0], tuple(self.shape(k) for k in self.kids[i]))

    def summary(self, mode):
        """class of each activation, edges, order of the classes"""
        cls, order, edges, returned = {}, [], Counter(), set()
        root = self.roots[0]

        def key(i, parent):
            if parent is None:
                return ()
            own = i if mode in ("tree", "no_match") else self.shape(i) if mode == "exact_match" else self.acts[i][:2]
            return (parent, own)

        def visit(i, parent):
            prev = None
            for k in self.kids[i]:
                c = cls[k] = key(k, cls[i])
                new = c not in seen
                seen.add(c)
                if new:
                    order.append(c)
                if prev is not None:
                    edges[prev, c, "sequence"] += 1
                elif new:
                    edges[cls[i], c, "call"] += 1
                visit(k, i)
                prev = c
            if prev is not None and prev not in returned:
                returned.add(prev)
                edges[prev, cls[i], "return"] += 1
        cls[root] = ()
        seen = {()}
        order.append(())
        edges[(), (), "initial"] += 1
        visit(root, None)
        if mode == "tree":
            edges = Counter()
            for i in self.acts:
                for n, k in enumerate(self.kids[i]):
                    edges[cls[i], cls[k], "call"] = n
        return cls, order, edges


def judge(c, where, acts, mode, got):
    def bad(mech, msg):
        c.violation(mech, "%s: %s" % (where, msg), {"where": list(where)})
    if "error" in got:
        bad("graph-fails", got["error"][-700:])
        return
    tid = acts.tid
    cls, order, edges = acts.summary(mode)
    members = defaultdict(list)
    for i, k in cls.items():
        members[k].append(i)
    nodes = got["nodes"]
    by_index = {n["index"]: n for n in nodes}
    listed = Counter(a for n in nodes for a in n["activations"].get(tid, []))
    if listed != Counter(list(acts.acts)):
        lost, more = set(acts.acts) - set(listed), [a for a in listed if listed[a] > 1 or a not in acts.acts]
        bad("activations", "lost %s, extra %s" % ([(a,) + acts.acts[a] for a in sorted(lost)][:4], more[:4]))
        return
    if sorted(got["reached"]) != sorted(by_index) or len(by_index) != len(nodes):
        bad("reached", "nodes %s, reached from the root %s" % (sorted(by_index), sorted(got["reached"])))
        return
    where_is = {a: n["index"] for n in nodes for a in n["activations"][tid]}
    for k, ids in members.items():
        homes = {where_is[a] for a in ids}
        if len(homes) != 1 or len(by_index[next(iter(homes))]["activations"][tid]) != len(ids):
            bad("summary-%s" % mode, "activations %s should be one node; the nodes have %s" % (sorted(ids)[:6], [by_index[h]["activations"][tid][:6] for h in homes]))
            return
    for n in nodes:
        ids = n["activations"][tid]
        if {acts.acts[a][0] for a in ids} != {n["name"]}:
            bad("name", "%s is named %s" % (ids, n["name"]))
        if n["duration"][tid] != sum(acts.acts[a][3] for a in ids) or set(n["duration"]) != {tid} or n["trial_ids"] != [tid]:
            bad("duration", "%s: duration %s, sum %s" % (ids, n["duration"], sum(acts.acts[a][3] for a in ids)))
        for a in ids:
            if "%s - %s<br>Line %s<br>" % (tid, a, acts.acts[a][1]) not in n["tooltip"][tid]:
                bad("tooltip", "%s is not in %r" % (a, n["tooltip"][tid][:200]))
        parents = {where_is.get(acts.acts[a][2], -1) for a in ids if a != acts.roots[0]} or {-1}
        if parents != {n["parent"]}:
            bad("parent", "%s: parent %s, called by %s" % (ids, n["parent"], parents))
        if n["parent"] >= 0 and by_index[n["parent"]]["children"][n["children_index"]] != n["index"]:
            bad("child", "%s is not child %d of its parent" % (ids, n["children_index"]))
    node_of = {k: where_is[ids[0]] for k, ids in members.items()}
    want = {(node_of[s], node_of[t], ty): v for (s, t, ty), v in edges.items()}
    have = {}
    for e in got["graph"]["edges"]:
        if (e["source"], e["target"], e["type"]) in have or set(e["count"]) != {tid}:
            bad("edge", "repeated or foreign edge %s" % e)
        have[e["source"], e["target"], e["type"]] = e["count"].get(tid)
    if have != want:
        bad("edges", "not recorded %s, missing %s (source, target, type, count)" % (sorted(set(have.items()) - set(want.items()))[:4], sorted(set(want.items()) - set(have.items()))[:4]))
    sums = [n["duration"][tid] for n in nodes]
    if got["graph"]["min_duration"] != {tid: min(sums)} or got["graph"]["max_duration"] != {tid: max(sums)}:
        bad("range", "durations %s..%s" % (got["graph"]["min_duration"], got["graph"]["max_duration"]))
    if bool(got["finished"]) != (acts.trial["status"] == "finished"):
        bad("finished", "%s" % got["finished"])
    c.observe(key=(mode, repr([(order.index(k), len(v)) for k, v in members.items()]), len(edges)), n=len(acts.acts), activations=len(acts.acts), nodes=len(nodes), edges=len(have),
              merged=len(acts.acts) - len(nodes), nontrivial=len(acts.acts) > 2, sample={"mode": mode, "activations": len(acts.acts), "nodes": len(nodes)} if len(c.samples) < 8 else None)


def edge_list(res, tid):
    acts = {n["index"]: tuple(sorted(n["activations"].get(tid, []))) for n in res["nodes"]}
    return Counter((acts[e["source"]], acts[e["target"]], e["type"], e["count"][tid]) for e in res["graph"]["edges"] if tid in e["count"])


def judge_pair(c, where, one, two, ga, gb, got):
    def bad(mech, msg):
        c.violation(mech, "%s: %s" % (where, msg), {"where": list(where)})
    if "error" in got:
        bad("diff-fails", got["error"][-700:])
        return
    if sorted(got["reached"]) != sorted(n["index"] for n in got["nodes"]):
        bad("diff-reached", "nodes %s, reached %s" % (sorted(n["index"] for n in got["nodes"]), sorted(got["reached"])))
        return
    by_index = {n["index"]: n for n in got["nodes"]}
    for tid, g in ((one, ga), (two, gb)):
        want = Counter((tuple(sorted(n["activations"][tid])), n["duration"][tid], n["tooltip"][tid]) for n in g["nodes"])
        have = Counter((tuple(sorted(n["activations"][tid])), n["duration"][tid], n["tooltip"][tid]) for n in got["nodes"] if n["activations"].get(tid))
        if want != have:
            bad("diff-nodes", "lost %s, extra %s" % (list(want - have)[:3], list(have - want)[:3]))
        names = {tuple(sorted(n["activations"][tid])): n["name"] for n in g["nodes"]}
        for n in got["nodes"]:
            ids = tuple(sorted(n["activations"].get(tid, [])))
            if ids and names.get(ids) not in n["name"].split("|"):
                bad("diff-name", "%s is named %s, not %s" % (ids, n["name"], names.get(ids)))
        if edge_list(g, tid) != edge_list(got, tid):
            bad("diff-edges", "lost %s, extra %s" % (list(edge_list(g, tid) - edge_list(got, tid))[:3], list(edge_list(got, tid) - edge_list(g, tid))[:3]))
    for n in got["nodes"]:
        for pos, k in enumerate(n["children"]):
            if by_index[k]["parent"] != n["index"] or by_index[k]["children_index"] != pos:
                bad("diff-child", "node %s is child %d of %s and says %s, %s" % (k, pos, n["index"], by_index[k]["parent"], by_index[k]["children_index"]))
    c.observe(key=("pair", len(ga["nodes"]), len(gb["nodes"]), len(got["nodes"])), n=len(got["nodes"]), pairs=1, pair_nodes=len(got["nodes"]), shared=sum(len(n["activations"]) > 1 for n in got["nodes"]))


def scenario(c, k):
    rng = c.rng("scenario", k)
    base = new_dir("p") + "/proj"
    os.makedirs(base)
    try:
        if k % 4 == 3:
            projects.build(rng, base, 3, first=k)
        else:
            for i in range(rng.choice([2, 3])):
                files, p = call_tree_program(rng)
                if p > .85:
                    files["script.py"] += "import os, signal\ndef dies(n):\n    leaf(n)\n    %s\ndies(1)\n" % rng.choice(["os.kill(os.getpid(), signal.SIGKILL)", "os._exit(3)"])
                write_files(base, files)
                opt = rng.choice([[], [], ["-d", str(rng.randrange(1, 5))], ["-s", "1"], ["-S", "2"]])
                pool().now(base, "run", *(opt + ["script.py"]), timeout=90)
        ids = projects.trials(base)
        db = DB(base)
        trials = []
        for t in ids:
            acts = Acts(db, t)
            if not acts.acts:
                continue  # backups have no activation
            if len(acts.roots) != 1:
                c.count(several_roots=1)
                continue
            trials.append(acts)
        db.close()
        asked = [(a.tid, m) for a in trials for m in MODES + ["definition_tree"]]
        small = [a for a in trials if len(a.acts) <= 60]
        pairs = [(rng.choice(small).tid, rng.choice(small).tid, rng.choice(MODES)) for _ in range(5)] if small else []
        got = []
        for attempt in range(2):
            width = rng.choice([None, 700])
            res = pool().pyexec(base, DRIVER, {"trials": asked, "pairs": pairs, "width": width, "pair_cache": attempt}, timeout=180)
            if "\n@@" not in res.out:
                c.violation("driver", "scenario %d: %s" % (k, (res.out + res.err)[-800:]), {"scenario": k})
                return
            got.append((width, json.loads(res.out.split("\n@@", 1)[1])))
        known = {a.tid: a for a in trials}
        fresh = {}
        for attempt, (width, res) in enumerate(got):
            for (tid, mode), r in zip(asked, res["trials"]):
                where = (k, tid[:9], mode)
                if attempt == 0:
                    if mode != "definition_tree":
                        judge(c, where, known[tid], mode, r["fresh"])
                    elif "error" in r["fresh"]:
                        c.violation("definition", "%s: %s" % (where, r["fresh"]["error"][-600:]), {"where": list(where)})
                    fresh[tid, mode] = r["fresh"]
                for what in ("fresh", "cached"):
                    ref, ans = json.loads(json.dumps(fresh[tid, mode])), r[what]
                    if "error" in ref or "error" in ans:
                        continue
                    if what == "cached" and width:
                        ref["graph"]["width"] = width
                    if ref != ans:
                        diff = [x for x in ref if ref[x] != ans[x]]
                        c.violation("cache", "%s: the %s graph (attempt %d, width %s) differs in %s: %s" % (
                            where, what, attempt, width, diff, [(ref["graph"][x], ans["graph"][x]) for x in ref["graph"] if ref["graph"][x] != ans["graph"][x]][:2]), {"where": list(where)})
                    c.count(cache_comparisons=1)
            for (one, two, mode), r in zip(pairs, res["pairs"]):
                if "error" not in fresh[one, mode] and "error" not in fresh[two, mode]:
                    judge_pair(c, (k, one[:9], two[:9], mode), one, two, fresh[one, mode], fresh[two, mode], r)
    finally:
        shutil.rmtree(os.path.dirname(base), ignore_errors=True)


def body(c):
    sys.setrecursionlimit(10000)
    n = 16 if not c.thorough else 800
    deadline = c.t0 + (35 if not c.thorough else 780)

    def one(k):
        if time.time() < deadline:
            scenario(c, k)
    pool().map(one, range(n))


if __name__ == "__main__":
    main(Check("C16", "trace", "graphs of each mode compared with a summary of the raw activations; distinct = (mode, shape)", min_eval=500), body)
