"""C23: provenance queries answer from the recorded facts.

Queries of evaluations by every combination of filters, through the API and the command line, are
judged by the raw rows; derivations (with and without distinction, one by one, preloaded or not, with
each option) by an independent traversal of the raw dependencies and of the members each structure had
at the time; and the answers to rephrased queries by each other."""
import bisect
import os
import re
import sys
from collections import defaultdict
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import projects

DRIVER = os.path.join(VERIF, "lib", "query_driver.py")
STRUCT = '''class Box(object):
    def __init__(self, v):
        self.v = v
        self.items = [v]
    def put(self, o):
        self.items.append(o)
        self.v = o
        return self
def pick(seq, k):
    return seq[k]
def pair(a, b=None, *rest, **kw):
    out = {"a": a, "b": b}
    out["rest"] = rest
    return out
one = 1
two = one + 1
lst = [one, two, [one]]
early = lst[0]
lst[0] = two
late = lst[0]
inner = lst[2]
inner[0] = late
deep = lst[2][0]
d = {"x": lst, "y": {"z": two}}
d["y"]["z"] = early
got = d["y"]["z"]
d["x"] = [got]
p = pair(one, lst)
p["a"] = d
q = pick(p["b"], 1)
box = Box(two).put(lst).put(q)
box.v = got
x, (y, *z) = one, lst
x += y
del lst[0]
for i, w in enumerate([one, two]):
    x += w
    d[i] = x
m = [pick([k, x], 0) for k in (one, two)]
n = {k: v for k, v in d.items()}
print(x, deep, box.v, len(m))
'''


def generate(rng):
    """A program of assignments over a few nested structures"""
    lines = ["a = [1, 2, 3]", "b = {'k': a, 'n': 5}", "c = (a, b)", "s = 0", "def f(v, w):\n    v[0] = w\n    return v", "def g(v):\n    return v[0]",
             "class O(object):\n    pass", "o = O()", "o.u = a"]
    names = ["a", "b['k']", "c[0]", "o.u"]
    vals = ["s", "a[0]", "b['n']", "c[0][1]", "g(a)", "g(o.u)", "7", "len(a)"]
    for k in range(rng.randrange(10, 26)):
        t, v = rng.choice(names), rng.choice(vals)
        lines.append(rng.choice([
            "%s[%d] = %s" % (t, rng.randrange(3), v), "s = %s" % v, "s += %s" % v, "b['n'] = %s" % v, "b['k'] = [%s, %s, 1]" % (v, rng.choice(vals)),
            "o.u = [%s, 0, 0]" % v, "e%d = %s" % (k, t), "f(%s, %s)" % (t, v), "h%d = f(%s, %s)[0]" % (k, t, v), "a = list(%s)" % t,
            "for i%d in %s: s += i%d if isinstance(i%d, int) else 0" % (k, t, k, k), "if s: x%d = %s" % (k, v)]))
    return "\n".join(lines) + "\n"


def build(rng, base, k):
    os.makedirs(base, exist_ok=True)
    if k % 4 == 0:
        files = {"script.py": STRUCT}
    elif k % 4 in (1, 2):
        files = {"script.py": generate(rng)}
    else:
        projects.build(rng, base, 1, ks=[rng.choice([0, 1, 2, 4])], backups=False)
        files = {"script.py": generate(rng)}
    write_files(base, files)
    pool().now(base, "run", *(rng.choice([[], [], ["-d", "2"]]) + ["script.py"]), timeout=90)
    return projects.trials(base)


class Facts(object):
    def __init__(self, db, tid):
        self.tid = tid
        self.ev = {r["id"]: r for r in db.rows("select * from evaluation where trial_id = ?", tid)}
        self.cc = {r["id"]: r for r in db.rows("select * from code_component where trial_id = ?", tid)}
        self.act = {r["id"]: r for r in db.rows("select * from activation where trial_id = ?", tid)}
        self.deps = db.rows("select * from dependency where trial_id = ?", tid)
        self.members = db.rows("select * from member where trial_id = ?", tid)
        self.out = defaultdict(list)
        for d in self.deps:
            self.out[d["dependent_id"]].append(d)
        self.parts = defaultdict(lambda: defaultdict(list))
        for m in self.members:
            self.parts[m["collection_id"]][m["key"]].append((m["checkpoint"], m["member_id"]))
        for keys in self.parts.values():
            for v in keys.values():
                v.sort(key=lambda p: p[0])

    def next(self, node, opts):
        """Each context of a traversal: the evaluation, the time it is seen at, whether it is an activation"""
        eid, time_, is_act = node
        if is_act:
            return
        ev = self.ev[eid]
        for d in self.out[eid]:
            if d["type"] != "argument" or opts.get("visit_arguments", True):
                yield (d["dependency_id"], None, False)
        if opts.get("visit_activations") and ev["activation_id"] in self.act:
            yield (ev["activation_id"], None, True)
        time_ = time_ or ev["checkpoint"]
        if not time_ or not opts.get("visit_members", True):
            return
        container = ev["member_container_id"] if ev["member_container_id"] is not None else eid
        for key, history in self.parts[container].items():
            k = bisect.bisect_right([h[0] for h in history], time_)
            if k:
                last = history[k - 1][0]
                options = {h[1] for h in history if h[0] == last}
                yield ("one of", frozenset(options), time_) if len(options) > 1 else (options.pop(), time_, False)

    def reach(self, ids, opts):
        todo = [(i, None, False) for i in ids]
        seen, choice = set(todo), []
        while todo:
            cur = todo.pop()
            for nxt in self.next(cur, opts):
                if nxt[0] == "one of":  # recorded at the same time: any of them
                    choice.append(nxt)
                    continue
                if nxt not in seen:
                    seen.add(nxt)
                    todo.append(nxt)
        return seen, choice


def match(f, q):
    out = []
    for eid in sorted(f.ev):
        e = f.ev[eid]
        cc = f.cc.get(e["code_component_id"])
        if cc is None:
            continue
        if "line" in q and not (cc["first_char_line"] >= q["line"] >= cc["last_char_line"]):
            continue
        if "column" in q and not (cc["first_char_column"] <= q["column"] <= cc["last_char_column"]):
            continue
        if "code" in q and cc["name"] != q["code"]:
            continue
        if "mode" in q and cc["mode"] != q["mode"]:
            continue
        if "cid" in q and cc["id"] != q["cid"]:
            continue
        if "value" in q and e["repr"] != q["value"]:
            continue
        if "eid" in q and e["id"] != q["eid"]:
            continue
        if "aid" in q and e["activation_id"] != q["aid"]:
            continue
        if "cell" in q:
            act = f.act.get(e["activation_id"])
            if act is None or not act["name"].startswith("<ipython-input-" + q["cell"]):
                continue
        out.append(eid)
    if "index" in q:
        out = out[q["index"] - 1:q["index"]] if q["index"] >= 1 else []
    return out


def make_query(rng, f, prefix=""):
    e = f.ev[rng.choice(sorted(f.ev))]
    cc = f.cc[e["code_component_id"]]
    options = {"line": cc["first_char_line"], "column": rng.choice([cc["first_char_column"], cc["last_char_column"], 4, 0]), "code": cc["name"], "mode": cc["mode"], "cid": cc["id"],
               "value": e["repr"], "eid": e["id"], "aid": e["activation_id"], "cell": "1"}
    weights = {"line": .45, "column": .12, "code": .3, "mode": .25, "cid": .07, "value": .25, "eid": .05, "aid": .25, "cell": .02}
    q = {k: v for k, v in options.items() if rng.random() < weights[k] and v is not None}
    if rng.random() < .15:
        other = f.ev[rng.choice(sorted(f.ev))]
        q["value"] = other["repr"]
    if rng.random() < .25:
        q["index"] = rng.choice([1, 2, 3, 1000, 0, -1])
    return q


def scenario(c, k):
    rng = c.rng(k)
    base = new_dir("c23")
    tids = build(rng, base, k)
    db = DB(base)
    try:
        facts = [Facts(db, t) for t in tids]
    finally:
        db.close()
    facts = [f for f in facts if f.ev and len(f.ev) < 900]
    if not facts:
        return
    queries, derivs, reaches, sides = [], [], [], []
    for _ in range(40):
        f = rng.choice(facts)
        queries.append((f, make_query(rng, f)))
    small = [f for f in facts if len(f.ev) < 350]
    for _ in range(4 if small else 0):
        f = min(rng.sample(small, min(2, len(small))), key=lambda f: len(f.ev))
        derivs.append((f, rng.choice(sorted(f.ev)), rng.sample(sorted(f.ev), min(rng.choice([1, 2, 3]), len(f.ev)))))
    late = {id(f): sorted(f.ev)[-max(1, len(f.ev) // 3):] for f in facts}
    for _ in range(4 if small else 0):
        f = rng.choice(small)
        eid = rng.choice(late[id(f)])
        near = [i for i, _, a in f.reach([eid], {})[0] if i != eid]
        derivs.append((f, eid, rng.sample(near, min(len(near), rng.choice([1, 1, 2]))) + rng.sample(sorted(f.ev), 1)))
    for _ in range(12):
        f = rng.choice(facts)
        opts = {}
        for name in ("visit_activations", "visit_arguments", "visit_members"):
            if rng.random() < .3:
                opts[name] = rng.random() < .5
        ids = rng.sample(late[id(f)], min(len(late[id(f)]), rng.choice([1, 1, 2])))
        reaches.append((f, ids, opts, len(f.ev) > 350 or rng.random() < .75))
    for f in facts:
        sides.append((f, rng.sample(sorted(f.ev), min(25, len(f.ev)))))
    # traversals through the API load each fact on demand: bound their cost
    cost, kept = 0, []
    for f, i, o in derivs:
        cost += len(f.reach([i], {})[0]) * (4 + 2 * min(2, len(o)))
        if cost < 5000 or len(kept) < 2:
            kept.append((f, i, o))
    derivs, kept, cost = kept, [], 0
    for f, i, o, pre in reaches:
        cost += len(f.reach(i, o)[0]) * (1 if pre else 5)
        if cost < 6000 or len(kept) < 2:
            kept.append((f, i, o, pre))
    reaches = kept
    args = {"queries": [dict(q, trial=f.tid) for f, q in queries], "derivations": [[f.tid, i, o] for f, i, o in derivs],
            "reach": [[f.tid, i, o, p] for f, i, o, p in reaches], "sides": [[f.tid, i] for f, i in sides]}
    t0 = time.time()
    res = pool().pyexec(base, DRIVER, args, timeout=150)
    if os.environ.get("C23_TIMES"):
        print(k, "driver", round(time.time() - t0, 1), [len(f.ev) for f in facts], file=sys.stderr)
    if res.timeout:
        c.problem("scenario %s: no answer in time" % k)
        return
    if "\n@@" not in res.out:
        c.violation("driver", "queries fail: %s" % res.err[-800:], {"dir": base, "k": k})
        return
    out = json.loads(res.out.rpartition("\n@@")[2])
    rep = {"k": k, "seed": c.seed, "script": open(base + "/script.py").read()}

    def bad(mech, text):
        c.violation(mech, "scenario %s: %s" % (k, text[:900]), rep)
    for (f, q), got in zip(queries, out["queries"]):
        want = match(f, q)
        c.observe(("query", tuple(sorted(q)), len(want) > 0), queries=1, queried=len(want))
        if isinstance(got, dict):
            bad("query-fails", "query %r: %s" % (q, got["error"]))
        elif got != want:
            bad("query", "query %r gives %r instead of %r" % (q, got[:12], want[:12]))
    for (f, eid, others), got in zip(derivs, out["derivations"]):
        judge_derivation(c, bad, f, eid, others, got)
    for (f, ids, opts, pre), got in zip(reaches, out["reach"]):
        judge_reach(c, bad, f, ids, opts, pre, got)
    for (f, ids), got in zip(sides, out["sides"]):
        judge_sides(c, bad, f, ids, got)
    cli_case(c, rng, base, rng.choice(facts), bad)


def derived(f, eid, opts={}):
    """Evaluations reached, apart from the first context; and those that may be"""
    seen, choice = f.reach([eid], opts)
    sure = {i for i, t, _ in seen if (i, t) != (eid, None)}
    return sure, choice


def judge_derivation(c, bad, f, eid, others, got):
    others = list(dict.fromkeys(others))
    if isinstance(got, dict) and "error" in got:
        bad("derivation-fails", "was_derived_from of %s: %s" % (eid, got["error"]))
        return
    sure, choice = derived(f, eid)
    if choice:
        c.count(undetermined=1)
        return
    want = {o: o in sure for o in others}
    c.observe(("derived", sum(want.values()), len(want)), derivations=1, derived_true=sum(want.values()), derived_false=len(want) - sum(want.values()))
    apart = dict(map(tuple, got["apart"]))
    if apart != want:
        wrong = [o for o in others if apart.get(o) != want[o]]
        bad("derivation", "evaluation %s derived from %r: answered %r, recorded %r" % (eid, wrong, [apart.get(o) for o in wrong], [want[o] for o in wrong]))
    if got["all"] != all(want.values()):
        bad("derivation-all", "evaluation %s derived from all of %r: answered %r, recorded %r" % (eid, others, got["all"], want))
    if got["twice"] != got["all"]:
        bad("derivation-twice", "evaluation %s derived from %r: answered %r, and %r when each is given twice" % (eid, others, got["all"], got["twice"]))
    for o, alone, listed in got["single"]:
        if not alone == listed == want[o]:
            bad("derivation-single", "evaluation %s derived from %s: answered %r alone, %r in a list, recorded %r" % (eid, o, alone, listed, want[o]))


def judge_reach(c, bad, f, ids, opts, pre, got):
    if "error" in got:
        bad("reach-fails", "navigation from %r with %r: %s" % (ids, opts, got["error"]))
        return
    seen, choice = f.reach(ids, opts)
    if choice:
        c.count(undetermined=1)
        return
    visited = [tuple(v) for v in got["visited"]]
    c.observe(("reach", tuple(sorted(opts.items())), pre, min(len(seen), 40)), navigations=1, reached=len(seen))
    if set(visited) != seen or len(visited) != len(seen) or got["left"]:
        bad("reach", "navigation from %r with %r (preloaded %s): too much %r, missing %r" % (
            ids, opts, pre, sorted(map(str, set(visited) - seen))[:5], sorted(map(str, seen - set(visited)))[:5]))


def judge_sides(c, bad, f, ids, got):
    if isinstance(got, dict):
        bad("sides-fails", got["error"])
        return
    for eid, g in zip(ids, got):
        e = f.ev[eid]
        dep = sorted([d["dependent_id"], d["dependency_id"], d["type"]] for d in f.deps if d["dependent_id"] == eid)
        inv = sorted([d["dependent_id"], d["dependency_id"], d["type"]] for d in f.deps if d["dependency_id"] == eid)
        want = {"as_dependent": dep, "as_dependency": inv,
                "members": sorted([m["collection_id"], m["member_id"], m["key"]] for m in f.members if m["collection_id"] == eid),
                "collections": sorted([m["collection_id"], m["member_id"], m["key"]] for m in f.members if m["member_id"] == eid),
                "container": e["member_container_id"], "component": e["code_component_id"], "activation": e["activation_id"] if e["activation_id"] in f.act else None,
                "this_activation": eid if eid in f.act else None}
        c.observe(("sides", len(dep), len(inv)), related=1)
        for k, v in want.items():
            if g[k] != v:
                bad("relation-" + k, "%s of evaluation %s (%s) is %r instead of %r" % (k, eid, e["repr"], str(g[k])[:200], str(v)[:200]))
        for k, v in (("dependencies", {d[1] for d in dep}), ("dependents", {d[0] for d in inv})):
            if set(g[k]) != v:
                bad("relation-" + k, "%s of evaluation %s are %r instead of %r" % (k, eid, g[k], sorted(v)))


FLAGS = {"line": "-l", "column": "--column", "code": "-c", "mode": "-m", "cid": "--cid", "value": "-v", "eid": "--eid", "aid": "--aid", "index": "-i", "cell": "-n"}
SHOWN = re.compile(r"^(  WasDerivedFrom: |- )(?:In\[\d+\] )?(-?\d+) (.*) \(A(\d+|None) E(\d+)\)$")


def options(q):
    return ["%s=%s" % (FLAGS[k], v) if FLAGS[k].startswith("--") else "%s%s" % (FLAGS[k], v) for k, v in q.items()]


def cli_case(c, rng, base, f, bad):
    for _ in range(2):
        q, w = make_query(rng, f), make_query(rng, f)
        for _ in range(6):  # each evaluation that is found costs a traversal
            if len(match(f, q)) * len(f.ev) > 2500:
                q.update(make_query(rng, f))
        if len(match(f, q)) * len(f.ev) > 4000:
            q["index"] = 1
        q.pop("cell", None), w.pop("cell", None)
        if any("\x00" in str(v) or "\n" in str(v) or v == "" for v in list(q.values()) + list(w.values())):
            continue
        deep = rng.random() < .6
        argv = ["evaluation", "-t", f.tid] + options(q)
        details = rng.random() < .5
        if deep:
            argv += ["wdf"] + options(w)
        if details:
            argv += ["display", "-v", "-p", "-c", "-t", "-a"]
        res = pool().now(base, *argv, timeout=90)
        found, others = match(f, q), match(f, w)
        c.observe(("cli", tuple(sorted(q)), deep, details, len(found) > 0), cli_queries=1)
        if res.rc != 0 or "Traceback" in res.err:
            bad("cli-fails", "now %r: %s" % (argv, res.err[-700:]))
            continue
        if not found:
            if "No evaluation found" not in res.out:
                bad("cli-none", "now %r finds %r" % (argv, res.out[:300]))
            continue
        got, skip = [], False
        for line in res.out.split("\n"):
            m = SHOWN.match(line)
            if m:
                got.append((m.group(1).strip()[0], int(m.group(5)), m.group(3), m.group(4)))
        want = []
        for eid in found:
            e = f.ev[eid]
            want.append(("-", eid, f.cc[e["code_component_id"]]["name"], str(e["activation_id"])))
            if deep:
                sure, choice = derived(f, eid)
                if choice:
                    skip = True
                for o in others:
                    if o in sure:
                        want.append(("W", o, f.cc[f.ev[o]["code_component_id"]]["name"], str(f.ev[o]["activation_id"])))
        if skip or any("\n" in w[2] for w in want):
            continue
        c.count(cli_shown=len(want))
        if got != want or "Found %d evaluation" % len(found) not in res.out:
            bad("cli", "now %r shows %r instead of %r" % (argv, [g for g in got if g not in want][:5] or got[:5], [g for g in want if g not in got][:5] or want[:5]))
        if details:
            for eid in found:
                e, cc = f.ev[eid], f.cc[f.ev[eid]["code_component_id"]]
                for part in ("  Value: %s\n" % e["repr"], "  Code Component: %d Mode: %s\n" % (cc["id"], cc["mode"]),
                             "  Position: (%d, %d) - (%d, %d)\n" % (cc["first_char_line"], cc["first_char_column"], cc["last_char_line"], cc["last_char_column"])):
                    if part not in res.out:
                        bad("cli-details", "now %r has no %r" % (argv, part))


def body(c):
    n = 700 if c.thorough else 48
    deadline = c.t0 + (700 if c.thorough else 22)

    def one(k):
        if time.time() < deadline:
            scenario(c, k)
    pool().map(one, range(n))


if __name__ == "__main__":
    main(Check("C23", "trace", "answers compared with a traversal of the raw rows; distinct = (kind of query, filters or options, size of the answer)", min_eval=120), body)
