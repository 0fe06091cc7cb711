"""Comparison of what noWorkflow stored with what oracle.py observed"""
import json
import re

from runs import *  # noqa

HERE = os.path.dirname(os.path.abspath(__file__))
ORACLE = os.path.join(HERE, "oracle.py")

# component types whose evaluations the oracle predicts
MODELLED = {
    "name", "literal", "add", "sub", "mult", "mod", "floordiv", "div", "pow", "and", "or", "not", "usub", "uadd", "invert",
    "bitand", "bitor", "bitxor", "lshift", "rshift", "matmult",
    "ifexp", "subscript", "attribute", "list", "tuple", "set", "dict", "key_value", "listcomp", "setcomp", "dictcomp",
    "fstring", "lambda_def", "call", "param", "function_def", "class_def", "yield", "slice", "exception",
}
CMPOP = re.compile(r"^(lt|lte|gt|gte|eq|noteq|in|notin|is|isnot)(\.(lt|lte|gt|gte|eq|noteq|in|notin|is|isnot))*$")


def modelled(type_):
    return type_ in MODELLED or bool(CMPOP.match(type_))


FUNC_REPR = re.compile(r"<(function|built-in function|built-in method|bound method|generator object|method-wrapper) .*? at 0x>")


def norm(value):
    """Representation without addresses and without the parts that name wrappers"""
    if value is None:
        return "None"
    value = strip_addr(value)
    value = value.replace("<function Collector.new_open.<locals>.open at 0x>", "<built-in function open>")
    value = re.sub(r"(<function [^ ]*?)((?:<lambda>|<genexpr>)\.<locals>\.)+", r"\1", value)
    value = re.sub(r"<function open at 0x>", "<built-in function open>", value)
    value = re.sub(r"<generator object [^>]*?<genexpr> at 0x>", "<genexpr>", value)
    value = re.sub(r"<generator object Collector[^>]* at 0x>", "<genexpr>", value)
    return value


class Stored(object):
    """The records of one trial"""

    def __init__(self, base, trial=None):
        db = DB(base)
        self.trial = trial or db.last_trial()
        t = self.trial
        self.comps = {r["id"]: r for r in db.rows("select * from code_component where trial_id=?", t)}
        self.blocks = {r["id"]: r for r in db.rows("select * from code_block where trial_id=?", t)}
        self.evals = {r["id"]: r for r in db.rows("select * from evaluation where trial_id=? order by id", t)}
        self.acts = {r["id"]: r for r in db.rows("select * from activation where trial_id=? order by id", t)}
        self.deps = db.rows("select * from dependency where trial_id=? order by id", t)
        self.members = db.rows("select * from member where trial_id=? order by id", t)
        self.accesses = db.rows("select * from file_access where trial_id=? order by id", t)
        self.row = db.one("select * from trial where id=?", t)
        db.close()

    def pos(self, comp):
        return (comp["first_char_line"], comp["first_char_column"], comp["last_char_line"], comp["last_char_column"])

    def comp_of(self, ev):
        return self.comps.get(ev["code_component_id"])


class Pair(object):
    """One program: oracle trace + stored provenance"""
    problem = None
    capture_failed = None


def trace_program(base, prog, timeout=30):
    """Run the oracle in `base` -> trace dict or None (unmodelled, too long)"""
    write_files(base, prog["files"])
    out = base + "/NOWtrace.json"
    res = pool().pyexec(base, ORACLE, ["script.py", out] + list(prog["args"]), timeout=timeout) \
        if not prog["stdin"] else pool().now(base, exec_=ORACLE, probe_args=["script.py", out] + list(prog["args"]),
                                             timeout=timeout, stdin=prog["stdin"])
    if not os.path.exists(out):
        return None, res
    with open(out) as fil:
        data = json.load(fil)
    os.remove(out)
    return data, res


def pair(prog, opts=(), engine="plain", timeout=40, max_events=None):
    p = Pair()
    p.prog = prog
    p.lines = prog["files"]["script.py"].split("\n")
    with scratch() as d:
        p.trace, res = trace_program(d, prog)
    if p.trace is None:
        p.problem = "oracle: " + (res.err or res.out)[-400:]
        return p
    if max_events and len(p.trace["evs"]) > max_events:
        p.problem = "timeout: too many events"
        return p
    p.now_dir = new_dir("pair")
    p.now = run_now(p.now_dir, prog["files"], prog["stdin"], prog["args"], opts, engine, timeout=timeout)
    if p.now.timeout:
        p.problem = "timeout"
        return p
    p.oracle_out = res.out
    out, tail = split_tail(p.now.out)
    if strip_addr(out) != strip_addr(res.out):
        # the behaviour differs: C01 decides that, nothing to compare here
        p.problem = "output differs from the traced run"
        p.capture_failed = tail
        return p
    p.st = Stored(p.now_dir)
    return p


def done(p):
    if getattr(p, "now_dir", None):
        shutil.rmtree(p.now_dir, ignore_errors=True)


def okey(trace, nid):
    t, pos = trace["nodes"][nid][:2]
    return (t,) + tuple(pos)


def match_activations(p, maxdepth=None):
    """-> (oracle act id -> stored activation id, [differences])"""
    tr, st = p.trace, p.st
    ochildren, dchildren = {}, {}
    known = {okey(tr, n) for n in range(len(tr["nodes"]))}
    for a in tr["acts"]:
        if a[2] is not None:
            ochildren.setdefault(a[2], []).append(a)
    for i, a in st.acts.items():
        ev = st.evals[i]
        dchildren.setdefault(ev["activation_id"], []).append(i)
    mapping, diffs = {}, []
    roots = dchildren.get(0, [])
    if len(roots) != 1:
        diffs.append("activations without caller: %s" % [(i, st.acts[i]["name"]) for i in roots])
        if not roots:
            return mapping, diffs
    if st.acts[roots[0]]["name"] != "__main__":
        diffs.append("main activation is %r" % st.acts[roots[0]]["name"])
    todo = [(tr["acts"][0], roots[0])]
    while todo:
        oact, did = todo.pop()
        mapping[oact[0]] = did
        okids = ochildren.get(oact[0], [])
        if maxdepth is not None and oact[5] > maxdepth:
            okids = []
        # start order: position of the activation's event in the log
        okids = sorted(okids, key=lambda a: a[7])
        okeys = [(a[1],) + okey(tr, a[4]) for a in okids]
        dkids = sorted(dchildren.get(did, []))
        dkeys = []
        for i in dkids:
            comp = st.comp_of(st.evals[i])
            dkeys.append((st.acts[i]["name"],) + canonical(p, (comp["type"],) + st.pos(comp), known))
        if okeys != dkeys:
            k = 0
            while k < min(len(okeys), len(dkeys)) and okeys[k] == dkeys[k]:
                k += 1
            diffs.append("calls made by %s (activation %s) differ from call %d on: really made %s, recorded %s" % (
                oact[1], did, k, okeys[k:k + 3], dkeys[k:k + 3]))
        for a, i, ok, dk in zip(okids, dkids, okeys, dkeys):
            if ok != dk:
                break
            todo.append((a, i))
    return mapping, diffs


def value_sequences(p, mapping, maxdepth=None):
    tr, st = p.trace, p.st
    oseq, dseq = {}, {}
    depth = {a[0]: a[5] for a in tr["acts"]}
    for nid, act, rep, deps, created, serial in tr["evs"]:
        if nid < 0 or (maxdepth is not None and depth[act] > maxdepth):
            continue
        oseq.setdefault(okey(tr, nid), []).append((mapping.get(act, "unrecorded activation %s" % act), norm(rep)))
    known = {okey(tr, n) for n in range(len(tr["nodes"]))}
    docs = {tuple(d) for d in tr["docs"]}
    cache = {}
    for ev in st.evals.values():
        comp = st.comp_of(ev)
        if comp is None or comp["first_char_line"] < 0 or not modelled(comp["type"]):
            continue
        key = (comp["type"],) + st.pos(comp)
        if key[0] == "literal" and key[1:] in docs:
            continue
        if key not in cache:
            cache[key] = canonical(p, key, known)
        dseq.setdefault(cache[key], []).append((ev["activation_id"], norm(ev["repr"])))
    return oseq, dseq


def shrink(lines, pos):
    """Inner position of a parenthesized text, or None"""
    l1, c1, l2, c2 = pos
    text = lines[l1 - 1][c1:] if l1 != l2 else lines[l1 - 1][c1:c2]
    if not text.startswith("(") or lines[l2 - 1][c2 - 1:c2] != ")":
        return None
    c1, c2 = c1 + 1, c2 - 1
    for _ in range(1000):
        if c1 >= len(lines[l1 - 1]):
            l1, c1 = l1 + 1, 0
        elif lines[l1 - 1][c1] in " \t\n":
            c1 += 1
        elif c2 == 0:
            l2, c2 = l2 - 1, len(lines[l2 - 2])
        elif lines[l2 - 1][c2 - 1] in " \t\n":
            c2 -= 1
        else:
            return (l1, c1, l2, c2)
    return None


def canonical(p, key, known):
    """noWorkflow gives operators the position with the enclosing parentheses"""
    lines = p.lines
    pos = key[1:]
    while key[:1] + tuple(pos) not in known:
        pos = shrink(lines, pos)
        if pos is None:
            # key: value pairs end with the parentheses of the value
            if key[0] == "key_value":
                for k in known:
                    if k[0] == "key_value" and k[1:3] == key[1:3]:
                        return k
            return key
    return key[:1] + tuple(pos)


def compare_values(p, mapping, maxdepth=None, ignore=()):
    oseq, dseq = value_sequences(p, mapping, maxdepth)
    diffs = []
    for key in sorted(set(oseq) | set(dseq)):
        if key[0] in ignore or not modelled(key[0]):
            continue
        o, d = oseq.get(key, []), dseq.get(key, [])
        if o != d and key[0] == "fstring":
            # format specifications are also recorded, at the position of the f-string
            rest = iter(d)
            if all(any(x == y for y in rest) for x in o) and len(d) % max(len(o), 1) == 0:
                continue
        if o != d:
            k = 0
            while k < min(len(o), len(d)) and o[k] == d[k]:
                k += 1
            diffs.append("%s at %s: computed %s, recorded %s (from number %d of %d/%d)" % (
                key[0], key[1:], o[k:k + 2], d[k:k + 2], k, len(o), len(d)))
    return diffs


def compare_blocks(p, mapping):
    """Activations of functions and classes of the script refer to their own definition"""
    tr, st = p.trace, p.st
    diffs = []
    known = {okey(tr, n) for n in range(len(tr["nodes"]))}
    count = 0
    for a in tr["acts"]:
        if a[6] is None or a[6] < 0 or a[0] not in mapping:
            continue
        block = st.acts[mapping[a[0]]]["code_block_id"]
        comp = st.comps.get(block)
        if comp is None:
            diffs.append("activation of %s (%s) has no code block (%s)" % (a[1], okey(tr, a[6]), block))
            continue
        count += 1
        key = canonical(p, (comp["type"],) + st.pos(comp), known)
        if key != okey(tr, a[6]):
            diffs.append("activation of %s defined at %s refers to the definition %s" % (a[1], okey(tr, a[6]), key))
    return diffs, count


def compare_multisets(p):
    """Values per position regardless of the activation that computed them"""
    oseq, dseq = value_sequences(p, {})
    diffs = []
    for key in sorted(set(oseq) | set(dseq)):
        o = sorted(x[1] for x in oseq.get(key, []))
        d = sorted(x[1] for x in dseq.get(key, []))
        if modelled(key[0]) and key[0] != "fstring" and o != d:
            diffs.append("%s at %s: computed %s, recorded %s" % (key[0], key[1:], o[:4], d[:4]))
    return diffs


def match_evaluations(p, mapping):
    """oracle event -> stored evaluation, by position, activation and order (values must agree)"""
    tr, st = p.trace, p.st
    known = {okey(tr, n) for n in range(len(tr["nodes"]))}
    cache, dseq, res = {}, {}, {}
    for ev in st.evals.values():
        comp = st.comp_of(ev)
        if comp is None or comp["first_char_line"] < 0 or not modelled(comp["type"]):
            continue
        key = (comp["type"],) + st.pos(comp)
        if key not in cache:
            cache[key] = canonical(p, key, known)
        dseq.setdefault((cache[key], ev["activation_id"]), []).append(ev["id"])
    oseq = {}
    for i, e in enumerate(tr["evs"]):
        if e[0] >= 0 and e[1] in mapping:
            oseq.setdefault((okey(tr, e[0]), mapping[e[1]]), []).append(i)
    for key, evs in oseq.items():
        ids = dseq.get(key, [])
        if len(ids) == len(evs):
            res.update(zip(evs, ids))
    return res


def closure(edges, starts):
    seen, todo = set(), list(starts)
    while todo:
        for y in edges.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def stored_edges(st):
    edges = {}
    for d in st.deps:
        edges.setdefault(d["dependent_id"], set()).add(d["dependency_id"])
    return edges


def must_edges(tr):
    return {i: set(e[3]) for i, e in enumerate(tr["evs"])}


def may_edges(tr):
    """Required and possible dependencies: also conditions, arguments, contents of containers"""
    edges = must_edges(tr)
    latest = {}
    for k, v in tr["may"]:
        edges[k].update(v)
    byact = {}
    for i, e in enumerate(tr["evs"]):
        byact.setdefault(e[1], []).append(i)
    acts = {a[0]: a for a in tr["acts"]}
    for i, e in enumerate(tr["evs"]):
        if e[0] >= 0:
            for c in tr["nodes"][e[0]][3]:
                if (e[1], c) in latest:
                    edges[i].update(latest[(e[1], c)])
            latest.setdefault((e[1], e[0]), set()).add(i)
        if e[4] is not None:
            # calls: whatever the activation did
            edges[i].update(byact.get(e[4], ()))
            a = acts[e[4]]
    return edges


def compare_deps(p, mapping, precision=True):
    """-> [missing], [invented], number of pairs checked"""
    tr, st = p.trace, p.st
    ids = match_evaluations(p, mapping)
    back = {v: k for k, v in ids.items()}
    stored = stored_edges(st)
    missing, invented, n = [], [], 0

    def show(i):
        e = tr["evs"][i]
        return "%s at %s = %s" % (tr["nodes"][e[0]][0], tuple(tr["nodes"][e[0]][1]), e[2][:40])
    must, may = must_edges(tr), may_edges(tr)
    for i, deps in must.items():
        if i not in ids or not deps:
            continue
        reach = None
        for j in deps:
            if j not in ids:
                continue
            n += 1
            if ids[j] in stored.get(ids[i], ()):
                continue
            if reach is None:
                reach = closure(stored, [ids[i]])
            if ids[j] not in reach:
                missing.append("%s does not reach %s" % (show(i), show(j)))
    if precision:
        for i in ids:
            reach = closure(stored, [ids[i]])
            allowed = None
            for d in reach:
                j = back.get(d)
                if j is None:
                    continue
                n += 1
                if allowed is None:
                    allowed = closure(may, [i])
                if j not in allowed and j != i:
                    direct = [x for x in stored.get(ids[i], ()) if x in back]
                    if d in direct:
                        invented.append("%s depends on %s" % (show(i), show(j)))
    return missing, invented, n


# corpus cases whose features the oracle models
UNMODELLED = """inherit genexp_lazy syntaxerr fnmeta nonascii_ops walrus_scopes async_comps dataclass namedtuple async
dunder_file matchstmt threads trystar typeparams class_kw class_attrs enum dirglobals locals eval_exec future unicode lru_cache
typeerr ellipsis random importlocal importpkg circ sysmodules_main traceback nested_cls init_sub contextlib async_gen classes_big
frames defaults_once""".split()


def workload(check, n, profiles=("trace",), corpus_too=True, sizes=(0.4, 0.8, 1.3)):
    """[(label, program)]"""
    import corpus
    import gen
    res = []
    if corpus_too:
        for name, src in sorted(corpus.CASES.items()):
            if name not in UNMODELLED:
                res.append(("corpus:" + name, {"files": dict(corpus.MODS, **{"script.py": src}), "stdin": "", "args": []}))
    for i in range(n):
        rng = check.rng("prog", i)
        prof = profiles[i % len(profiles)]
        res.append(("gen:%s:%d" % (prof, i), gen.program(rng, prof, sizes[i % len(sizes)])))
    return res


def shape(p):
    """Hash of the executed call tree: distinct behaviours"""
    return [(a[1], a[2]) for a in p.trace["acts"]]


def replay(label, prog, diffs):
    return {"case": label, "files": prog["files"], "stdin": prog["stdin"], "args": prog["args"], "diffs": diffs[:10],
            "how": "run `now run script.py` and compare with the execution of the script (lib/oracle.py)"}


def drive(check, items, judge, budget=None, **kw):
    """Run judge(label, prog, p) for each comparable pair, in parallel, within the time budget"""
    def one(item):
        label, prog = item
        if budget and check.elapsed() > budget:
            check.count(skipped_by_time=1)
            return
        p = pair(prog, **kw)
        try:
            if p.problem:
                check.count(not_comparable=1)
                if not p.problem.startswith(("timeout", "oracle")):
                    check.count(not_comparable_output=1)
                return
            judge(label, prog, p)
        finally:
            done(p)
    pool().map(one, items)


def compare_members(p, mapping):
    """Contents of displays, item assignments, item reads -> (differences by kind, counts)"""
    tr, st = p.trace, p.st
    ids = match_evaluations(p, mapping)
    back = {v: k for k, v in ids.items()}
    rows, bymember = {}, {}
    for m in st.members:
        if m["key"] == ".__class__":
            continue
        rows.setdefault(m["collection_id"], []).append(m)
        bymember.setdefault(m["member_id"], []).append(m)
    diffs, n = [], {"displays": 0, "puts": 0, "reads": 0, "other_rows": 0}

    def show(i):
        e = tr["evs"][i]
        return "%s at %s = %s" % (tr["nodes"][e[0]][0], tuple(tr["nodes"][e[0]][1]), e[2][:40])
    expected, puts = {}, []
    for serial, addr, rep, member, ev in tr["members"]:
        if ev is not None:
            expected.setdefault(ev, []).append((addr, rep, member))
        else:
            puts.append((serial, addr, rep, member))
    seen = set()
    putids = {ids[m] for _, _, _, m in puts if m in ids}
    for i, e in enumerate(tr["evs"]):
        if e[0] < 0 or i not in ids or i in expected or tr["nodes"][e[0]][0] not in ("list", "tuple", "set", "dict"):
            continue
        if e[2] in ("[]", "()", "{}", "set()"):
            expected[i] = []
    for ev, exp in expected.items():
        if ev not in ids or any(m is None or m not in ids for _, _, m in exp):
            continue
        n["displays"] += 1
        # later changes of the container (assignments, items found by iterating over it) come after
        mine = [m for m in rows.get(ids[ev], []) if m["member_id"] not in putids][:len(exp)]
        late = [m for m in rows.get(ids[ev], []) if m not in mine and m["member_id"] not in putids]
        got = [(m["key"], norm(st.evals[m["member_id"]]["repr"]), m["member_id"]) for m in mine]
        seen.update(m["id"] for m in mine)
        for m in late:
            if m["key"] in {x[0] for x in got} and tr["evs"][ev][5] not in tr["moved"]:
                diffs.append(("display", "%s: member %s is recorded again, with value %s" % (
                    show(ev), m["key"], st.evals[m["member_id"]]["repr"])))
                break
        want = [(strip_addr(a), norm(r), ids[m]) for a, r, m in exp]
        if [(strip_addr(a), b, c) for a, b, c in got] != want:
            diffs.append(("display", "%s has members %s, recorded %s" % (show(ev), want[:6], got[:6])))
    for serial, addr, rep, member in puts:
        if member is None or member not in ids:
            continue
        n["puts"] += 1
        got = bymember.get(ids[member], [])
        seen.update(m["id"] for m in got)
        bad = None
        if [strip_addr(m["key"]) for m in got] != [strip_addr(addr)]:
            bad = "recorded as a change of %s" % [m["key"] for m in got]
        else:
            col = back.get(got[0]["collection_id"])
            if col is not None and tr["evs"][col][5] != serial:
                bad = "recorded as a change of another container: %s" % show(col)
            elif norm(st.evals[got[0]["member_id"]]["repr"]) != norm(rep):
                bad = "recorded with value %s" % st.evals[got[0]["member_id"]]["repr"]
            elif col is None and got[0]["collection_id"] not in st.evals:
                bad = "recorded as a change of a missing container"
        if bad:
            diffs.append(("assignment", "assignment of item %s (%s) %s" % (addr, show(member), bad)))
    access = {}
    for d in st.deps:
        if d["type"] == "access":
            access.setdefault(d["dependent_id"], []).append(d)
    for ev, serial, addr, member in tr["reads"]:
        if ev not in ids or member not in ids or serial in tr["moved"]:
            continue
        n["reads"] += 1
        got = access.get(ids[ev], [])
        bad = None
        if len(got) != 1:
            bad = "has %d links to members" % len(got)
        elif strip_addr(got[0]["key"] or "") != strip_addr(addr):
            bad = "is linked to the member %s" % got[0]["key"]
        elif got[0]["dependency_id"] != ids[member]:
            j = back.get(got[0]["dependency_id"])
            bad = "is linked to %s" % (show(j) if j is not None else "evaluation %s" % got[0]["dependency_id"])
        elif got[0]["collection_id"] in back and tr["evs"][back[got[0]["collection_id"]]][5] != serial:
            bad = "is linked to another container: %s" % show(back[got[0]["collection_id"]])
        if bad:
            diffs.append(("read", "read of item %s (%s) of the value put by %s %s" % (addr, show(ev), show(member), bad)))
    n["other_rows"] = sum(m["id"] not in seen for ms in rows.values() for m in ms)
    return diffs, n
