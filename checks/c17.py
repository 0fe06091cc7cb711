"""C17: dataflow graphs show exactly the recorded derivations.

The DOT text of each mode and combination of options is read back. Reachability between the nodes it
shows is compared with reachability in the raw dependencies, members and file accesses, after joining
the evaluations that the options combine (each joined pair must be justified by the records)."""
import os
import re
import shutil
import sys
from collections import Counter, defaultdict
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import projects

DRIVER = os.path.join(VERIF, "lib", "dataflow_driver.py")
MODES = ["simulation", "activation", "dependency", "prospective"]
FLOW = '''def _hidden(x):
    _inner = x + 1
    return _inner
def visible(x, y):
    return _hidden(x)
def pair(p, q):
    return [p, q]
def stores(name, text):
    with open(name, "w") as fil:
        fil.write(text)
def loads(name):
    with open(name) as fil:
        return fil.read()
def same(o):
    return o
_g = ARG
a = 1 + ARG
b = visible(a, _g)
_c = pair(a, b)
d = _c[0] + _c[1]
e = {"k": _c, "l": {"m": d}}
e["n"] = same(_c)
_c[0] = same(d)
f = e["k"][0]
stores("t.txt", str(f))
h = loads("t.txt")
quote = "a\\"b\\\\"
r = same(same(e))
i = [visible(z, 1) for z in (a, b)]
for j in i:
    _c.append(visible(j, _g))
k = l = pair(h, quote)
m, n = k
class C(object):
    def __init__(self, v):
        self._v = v
    def get(self):
        return self._v
o = C(m)
p = o.get()
a += b
stores("t.txt", h)
print(d, f, r, p, n, a)
'''


class Dot(object):
    """Reader of the subset of DOT that has to be understood: statements, subgraphs, edges, attributes"""
    TOKEN = re.compile(r'\s*(?:(->)|([{}\[\];=,])|"((?:[^"\\]|\\.)*)"|([A-Za-z_][A-Za-z_0-9]*|-?\d+(?:\.\d+)?)|(\S))', re.S)

    def __init__(self, text):
        self.tokens = []
        pos = 0
        text = text.rstrip()
        while pos < len(text):
            m = self.TOKEN.match(text, pos)
            if not m or m.group(5):
                raise ValueError("unexpected %r" % text[pos:pos + 60])
            if m.group(1):
                self.tokens.append(("->", None))
            elif m.group(2):
                self.tokens.append((m.group(2), None))
            elif m.group(3) is not None:
                self.tokens.append(("id", m.group(3)))
            else:
                self.tokens.append(("id", m.group(4)))
            pos = m.end()
        self.pos = 0
        self.nodes, self.edges, self.clusters, self.depth = {}, [], {}, {}
        self.owner = {}
        self.next("id", "digraph")
        self.root = self.next("id")
        self.body(None, 1)
        if self.pos != len(self.tokens):
            raise ValueError("text after the graph")

    def peek(self, n=0):
        return self.tokens[self.pos + n] if self.pos + n < len(self.tokens) else ("end", None)

    def next(self, kind, value=None):
        got = self.peek()
        if got[0] != kind or (value is not None and got[1] != value):
            raise ValueError("%s instead of %s %s near %s" % (got, kind, value or "", self.tokens[max(0, self.pos - 4):self.pos + 3]))
        self.pos += 1
        return got[1]

    def attrs(self):
        out = {}
        if self.peek()[0] == "[":
            self.next("[")
            while self.peek()[0] != "]":
                key = self.next("id")
                self.next("=")
                out[key] = self.next("id")
            self.next("]")
        return out

    def body(self, cluster, depth):
        self.next("{")
        while self.peek()[0] != "}":
            if self.peek()[0] == ";":
                self.next(";")
            elif self.peek()[0] == "{":  # {rank=same ...}
                self.next("{")
                while self.peek()[0] != "}":
                    self.pos += 1
                self.next("}")
            elif self.peek() == ("id", "subgraph"):
                self.next("id")
                self.body(self.next("id"), depth + 1)
            elif self.peek(1)[0] == "=":
                key = self.next("id")
                self.next("=")
                self.next("id")
            elif self.peek(1)[0] == "->":
                a = self.next("id")
                self.next("->")
                b = self.next("id")
                self.edges.append((a, b, self.attrs()))
            else:
                name = self.next("id")
                attrs = self.attrs()
                if name in ("node", "edge", "graph"):
                    continue
                if name in self.nodes:
                    raise ValueError("node %s is declared twice" % name)
                self.nodes[name] = attrs
                self.depth[name] = depth
                self.owner[name] = cluster
                if cluster and cluster not in self.clusters:
                    self.clusters[cluster] = name
        self.next("}")


class Raw(object):
    def __init__(self, db, tid):
        self.tid = tid
        self.evals = {r["id"]: r for r in db.rows("select e.*, c.name, c.type, c.first_char_line from evaluation e left join code_component c on c.trial_id=e.trial_id and c.id=e.code_component_id where e.trial_id=?", tid)}
        self.acts = {r["id"]: r["name"] for r in db.rows("select * from activation where trial_id=?", tid)}
        self.deps = [(r["dependent_id"], r["dependency_id"], r["type"], r["reference"]) for r in db.rows("select * from dependency where trial_id=?", tid)]
        self.members = [(r["collection_id"], r["member_id"]) for r in db.rows("select * from member where trial_id=?", tid)]
        self.accesses = {r["id"]: r for r in db.rows("select * from file_access where trial_id=?", tid)}
        self.path = db.rows("select path from trial where id=?", tid)[0]["path"]
        self.refs = defaultdict(set)
        for a, b, _, ref in self.deps:
            if ref:
                self.refs[a].add(b)
        self.assign = {(a, b) for a, b, t, _ in self.deps if t == "assignment"}

    def refers(self, a, b):
        seen, todo = {a}, [a]
        while todo:
            cur = todo.pop()
            if cur == b:
                return True
            for nxt in self.refs[cur]:
                if nxt not in seen:
                    seen.add(nxt)
                    todo.append(nxt)
        return False


def number(nid):
    return int(nid[2:])


def reach(graph, start):
    seen, todo = set(), list(graph.get(start, ()))
    while todo:
        cur = todo.pop()
        if cur not in seen:
            seen.add(cur)
            todo.extend(graph.get(cur, ()))
    return seen


def shorten(text, size):
    if not size or not text:
        return ""
    if len(text) > size:
        half = (size - 5) // 2
        text = text[:half] + " ... " + text[-half:]
    return text


def judge(c, where, raw, conf, got):
    def bad(mech, msg):
        c.violation(mech, "%s: %s" % (where, msg), {"where": list(map(str, where))})
    if "error" in got:
        bad("graph-fails", got["error"][-700:])
        return
    try:
        dot = Dot(got["dot"])
    except ValueError as exc:
        bad("syntax", "%s" % exc)
        return
    mode = conf["mode"]
    joined = {}
    for kind, ids in got["maps"].items():
        for a, b in ids.items():
            if kind == "AccessNameSynonymer":
                ok = raw.accesses[number(a)]["name"] == raw.accesses[number(b)]["name"]
            elif kind == "SameSynonymer":
                ok = (number(a), number(b)) in raw.assign
            else:
                ok = raw.refers(number(a), number(b))
            if not ok:
                bad("joined", "%s joins %s and %s" % (kind, a, b))
            joined[a] = b
    shown = set(dot.nodes)
    rep = lambda nid: joined.get(nid, nid)  # noqa
    clusters = {n for n in dot.clusters.values()}
    # the nodes are records of the trial, labelled with their line, name and value
    for nid, attrs in dot.nodes.items():
        label = attrs.get("label", "")
        if nid.startswith("a_"):
            row = raw.accesses.get(number(nid))
            if row is None:
                bad("node", "%s is not a file access of the trial" % nid)
                continue
            name = row["name"]
            want = shorten(name, conf.get("name_length", 55))
        else:
            row = raw.evals.get(number(nid))
            if row is None:
                bad("node", "%s is not an evaluation of the trial" % nid)
                continue
            name = "return" if nid in clusters else row["name"]
            want = "%s %s" % (row["first_char_line"], shorten(name, conf.get("name_length", 55)))
            value = shorten(row["repr"], conf.get("value_length", 0))
            if value:
                want += " =\n" + value
        if label.replace('\\"', '"').replace("\\\\", "\\") != want and label.replace('\\"', '"') != want:
            bad("label", "%s has label %r, expected %r" % (nid, label, want))
    if conf.get("accesses", 1) in (1, 2):
        names = Counter(raw.accesses[number(n)]["name"] for n in shown if n.startswith("a_"))
        if any(v > 1 for v in names.values()):
            bad("access-twice", "%s" % names)
    if not conf.get("accesses", 1) and any(n.startswith("a_") for n in shown):
        bad("accesses", "hidden accesses are shown")
    if conf.get("hide_internals", True):
        intern = [n for n in shown if n.startswith("e_") and raw.evals[number(n)]["name"].startswith("_") and n not in joined.values()]
        if intern:
            bad("internals", "hidden evaluations are shown: %s" % intern[:4])
    if conf.get("wdf"):
        full = defaultdict(set)
        for a, b in [(a, b) for a, b, _, _ in raw.deps] + raw.members:
            full[rep("e_%d" % a)].add(rep("e_%d" % b))
        eid = rep("e_%d" % conf["wdf"])
        other = [n for n in shown if n.startswith("e_") and n not in reach(full, eid) | {eid}]
        if other:
            bad("wdf", "%s is not derived from %s" % (eid, other[:4]))
        c.count(derived_only=1, derived_shown=len(shown))
    elif not conf.get("depth") and conf.get("types") and conf.get("hide_internals") is False and (mode == "dependency" or (mode == "simulation" and not conf.get("evaluations", 1))):
        absent = [i for i in raw.evals if i != 1 and (mode == "dependency" or raw.evals[i]["activation_id"] in raw.acts) and "e_%d" % i not in shown and "e_%d" % i not in joined]
        if absent:
            bad("absent", "%s are recorded and not shown" % [(i, raw.evals[i]["name"]) for i in absent][:4])
        want = {i for i, r in raw.accesses.items() if conf.get("accesses", 1) in (2, 4) or not os.path.isabs(r["name"]) or r["name"].startswith(raw.path + "/")} if conf.get("accesses", 1) else set()
        have = {number(n) for n in shown | set(joined) if n.startswith("a_")}
        if want != have:
            bad("accesses-shown", "accesses %s, shown %s" % (sorted(want)[:6], sorted(have)[:6]))
        c.count(complete_graphs=1)
    pairs = Counter((a, b) for a, b, _ in dot.edges)
    if any(v > 1 for v in pairs.values()):
        bad("edge-twice", "%s" % [p for p, v in pairs.items() if v > 1][:3])
    if any(a not in shown or b not in shown for a, b in pairs):
        bad("edge-nodes", "%s" % [p for p in pairs if p[0] not in shown or p[1] not in shown][:3])
        return
    graph = defaultdict(set)
    for a, b in pairs:
        graph[a].add(b)
    lower, upper = defaultdict(set), defaultdict(set)

    def add(a, b, sure=True):
        a, b = rep(a), rep(b)
        if a != b and "e_1" not in (a, b):
            upper[a].add(b)
            if sure:
                lower[a].add(b)
    for a, b, typ, _ in raw.deps:
        a, b = "e_%d" % a, "e_%d" % b
        add(a, b, not (rep(a) in clusters and typ.startswith("argument")))
    for a, b in raw.members:
        add("e_%d" % a, "e_%d" % b)
    for r in raw.accesses.values():
        acc = "a_%d" % r["id"]
        if rep(acc) not in shown:
            continue
        act, first = r["activation_id"], True
        while act in raw.acts:
            nid = "e_%d" % act
            sure = first and rep(nid) == nid and nid in shown
            if set("r+") & set(r["mode"]):
                add(nid, acc, sure)
            if set("wxa+") & set(r["mode"]):
                add(acc, nid, sure)
            first = False
            act = raw.evals[act]["activation_id"]
    n = 0
    for u in shown:
        sure, may, drawn = reach(lower, u), reach(upper, u), reach(graph, u)
        n += len(drawn)
        invented = {v for v in graph.get(u, ()) if v not in may}
        if invented:
            bad("invented", "%s -> %s is not recorded" % (u, sorted(invented)[:4]))
        lost = {v for v in sure if v in shown and v != u} - drawn
        if lost:
            v = sorted(lost)[0]
            bad("lost", "%s (%s) is derived from %s (%s) and no path shows it" % (u, raw.evals[number(u)]["name"] if u[0] == "e" else "file", v, raw.evals[number(v)]["name"] if v[0] == "e" else "file"))
    c.observe(key=(mode, conf.get("evaluations", 1), conf.get("accesses", 1), conf.get("hide_internals", True), conf.get("types", False), conf.get("depth", 0), conf.get("group", 0), len(shown), len(pairs)),
              n=len(shown), nodes=len(shown), edges=len(pairs), connected_pairs=n, hidden=len(raw.evals) - len(shown), joined=len(joined), nontrivial=len(pairs) > 2,
              sample={"conf": conf, "nodes": len(shown), "edges": len(pairs), "recorded": len(raw.evals)} if len(c.samples) < 8 else None)


def options(rng, evals):
    conf = {"mode": rng.choice(MODES)}
    if rng.random() < .7:
        conf["evaluations"] = rng.randrange(3)
    if rng.random() < .6:
        conf["accesses"] = rng.randrange(5)
    if rng.random() < .3:
        conf["hide_internals"] = False
    if rng.random() < .3:
        conf["types"] = True
    if rng.random() < .5:
        conf["depth"] = rng.randrange(1, 4)
    if rng.random() < .3:
        conf["group"] = rng.randrange(3)
    if rng.random() < .3:
        conf["value_length"] = rng.choice([5, 10, 55])
    if rng.random() < .2:
        conf["name_length"] = rng.choice([0, 6, 20])
    if rng.random() < .25:
        conf.update(types=True, hide_internals=False, mode=rng.choice(["dependency", "simulation"]), depth=0)
        if conf["mode"] == "simulation":
            conf["evaluations"] = 0
    elif rng.random() < .1:
        conf["wdf"] = rng.choice(evals)
    return conf


def flags(conf):
    names = {"mode": "-m", "evaluations": "-e", "accesses": "-a", "depth": "-d", "group": "-g", "value_length": "--value-length", "wdf": "-w", "name_length": "-n"}
    out = []
    for k, v in conf.items():
        if k in names:
            out += [names[k], str(v)]
    return out + (["-H"] if conf.get("hide_internals") is False else []) + (["-T"] if conf.get("types") else [])


def scenario(c, k):
    rng = c.rng("scenario", k)
    base = new_dir("p") + "/proj"
    os.makedirs(base)
    try:
        if k % 3 == 0:
            # files of other folders, one of them named like the project
            write_files(base + "2", {"out.txt": "1"})
            more = "".join("with open(%r) as fil:\n    out = fil.read()\n" % name for name in (base + "2/out.txt", base + "/script.py", "t.txt"))
            write_files(base, {"script.py": FLOW.replace("ARG", str(rng.randrange(3))) + more})
            pool().now(base, "run", "script.py", timeout=90)
        else:
            projects.build(rng, base, 2, ks=[rng.choice([0, 1, 2, 3, 4, 5]), rng.choice([1, 3, 5, 7])], backups=False)
        db = DB(base)
        for tid in projects.trials(base):
            raw = Raw(db, tid)
            if not raw.acts or len(raw.evals) > 900:
                continue
            confs = [options(rng, sorted(set(raw.evals) - set(raw.acts))) for _ in range(5 if not c.thorough else 12)]
            res = pool().pyexec(base, DRIVER, {"trial": tid, "configs": confs}, timeout=240)
            if "\n@@" not in res.out:
                c.violation("driver", "scenario %d: %s" % (k, (res.out + res.err)[-800:]), {"scenario": k})
                continue
            for conf, got in zip(confs, json.loads(res.out.split("\n@@", 1)[1])):
                judge(c, (k, tid[:9], conf), raw, conf, got)
            conf, got = confs[0], json.loads(res.out.split("\n@@", 1)[1])[0]
            cmd = pool().now(base, "dataflow", *(flags(conf) + [tid]), timeout=120)
            if "dot" in got and sorted(cmd.out.strip().splitlines()) != sorted(got["dot"].strip().splitlines()):
                c.violation("command", "%s: now dataflow %s differs from the model: %s" % (k, flags(conf), (cmd.out + cmd.err)[-400:]), {"scenario": k})
            c.count(commands=1)
        db.close()
    finally:
        shutil.rmtree(os.path.dirname(base), ignore_errors=True)


def body(c):
    n = 24 if not c.thorough else 800
    deadline = c.t0 + (45 if not c.thorough else 780)

    def one(k):
        if time.time() < deadline:
            scenario(c, k)
    pool().map(one, range(n))


if __name__ == "__main__":
    main(Check("C17", "trace", "reachability in dataflow graphs compared with raw dependencies; distinct = (options, nodes, edges)", min_eval=300), body)
