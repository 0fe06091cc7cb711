"""C22: listing and history views show exactly the stored trials.

A process that stays alive answers history views while other processes add runs, restore, let a run
finish, tag, name or remove trials, and while it is asked about another project in between. Every view is judged by the rows
stored when it was asked for: trials, order, data, edges (nearest shown ancestor). The command line
(list, history, show) is judged the same way, record by record."""
import os
import re
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa

DRIVER = os.path.join(VERIF, "lib", "history_driver.py")
SCRIPTS = {
    "a.py": "import helper\ndef f(x, y='k'):\n    'doc of f'\n    with open(x) as fil:\n        return fil.read()\nclass C(object):\n    def m(self, *r):\n        return f('in.txt')\n"
            "v = C().m(1, [2])\nw = [f('in.txt') for _ in range(2)]\nopen('out.txt', 'a').write(v)\n",
    "b.py": "import sys\ndef g(n):\n    return n if n <= 0 else g(n - 1)\nprint(g(2), len(sys.argv))\n",
    "sub/c.py": "print(1)\n",
    "sub/a.py": "print(2)\n",
    "fail.py": "def h():\n    open('in.txt').read()\n    raise ValueError('no')\nh()\n",
    "dead.py": "import os\nx = 1\nos._exit(3)\n",
    "bad.py": "def (:\n",
    "wait.py": "import os, time\nopen('started', 'w').close()\nend = time.time() + 40\nwhile not os.path.exists('go') and time.time() < end:\n    time.sleep(.02)\nprint(1)\n",
}
FILES = dict(SCRIPTS, **{"helper.py": "Z = 1\n", "in.txt": "input\n"})


def stored(base):
    db = DB(base)
    try:
        trials = [dict(r) for r in db.rows("select * from trial order by start, sequence_key")]
        tags = {}
        for r in db.rows("select trial_id, name, type from tag order by name"):
            tags.setdefault(r["trial_id"], []).append((r["name"], r["type"]))
        codes = {r["trial_id"]: r["code_hash"] for r in db.rows(
            "select b.trial_id, b.code_hash from code_block b join trial t on b.trial_id = t.id and b.id = t.main_id")}
        return trials, tags, codes
    finally:
        db.close()


def shown(trials, script, status):
    out = []
    for t in trials:
        if script != "*" and t["script"] != script and t["script"].rsplit("/", 1)[-1] != script:
            continue
        if status != "*" and t["status"] != status:
            continue
        out.append(t)
    return out


def ancestor(by_id, t, ids):
    seen = set()
    cur = t["parent_id"]
    while cur is not None and cur in by_id and cur not in seen:
        if cur in ids:
            return cur
        seen.add(cur)
        cur = by_id[cur]["parent_id"]
    return None


def ancestors(by_id, t):
    out = []
    cur = t["parent_id"]
    while cur is not None and cur in by_id and cur not in out:
        out.append(cur)
        cur = by_id[cur]["parent_id"]
    return out


def same_order(ids, by_id):
    starts = [by_id[i]["start"] for i in ids]
    return starts == sorted(starts)


def squeeze(text):
    return re.sub(r"\s+", "", text)


def judge_view(c, where, view, args, state):
    script, status, summarize, _ = args
    trials, tags, codes = state
    by_id = {t["id"]: t for t in trials}
    want = shown(trials, script, status)
    bad = lambda mech, text: c.violation(mech, "%s view %r: %s" % (where, args, text[:700]), {"args": args, "where": where})
    if "error" in view:
        bad("view-fails", view["error"])
        return
    nodes, edges = view["data"]["nodes"], view["data"]["edges"]
    c.observe(("view", where, tuple(args), len(want)), views=1, view_trials=len(nodes), view_edges=len(edges))
    options = {t["script"].rsplit("/", 1)[-1] for t in trials}
    full = {t["script"] for t in trials}
    for got in (view["data"]["scripts"], view["scripts"]):
        if len(got) != len(set(got)) or not ({x.rsplit("/", 1)[-1] for x in got} == options and set(got) <= options | full):
            bad("scripts", "scripts offered %r, stored %r" % (sorted(got), sorted(full)))
    if summarize:
        inside = [t["id"] for n in nodes for t in n["trials"]]
        expect = {t["id"] for t in want if any(k == "AUTO" for _, k in tags.get(t["id"], []))}
        if len(inside) != len(set(inside)) or set(inside) != expect:
            bad("summary-trials", "summary has %r instead of %r" % (sorted(Counter(inside).items()), sorted(expect)))
            return
        for n in nodes:
            versions = {".".join(name.split(".")[:2]) for t in n["trials"] for name, k in tags[t["id"]] if k == "AUTO"}
            if versions != {n["id"]}:
                bad("summary-group", "node %s has trials of versions %r" % (n["id"], versions))
        for e in edges:
            source, target = nodes[e["source"]], nodes[e["target"]]
            if source is target:
                continue
            version = lambda i: {".".join(name.split(".")[:2]) for name, k in tags.get(i, []) if k == "AUTO"}
            inside = {i for i in by_id if target["id"] in version(i)}
            # steps between versions: from any trial of the version to the version of its parent
            todo, reach = [source["id"]], set()
            while todo:
                cur = todo.pop()
                for i in by_id:
                    if cur in version(i) and by_id[i]["parent_id"] in by_id:
                        for v in version(by_id[i]["parent_id"]):
                            if v not in reach:
                                reach.add(v)
                                todo.append(v)
            if target["id"] not in reach:
                bad("summary-edge", "edge from %s to %s is not justified by recorded parents" % (source["id"], target["id"]))
        return
    ids = [n["id"] for n in nodes]
    if Counter(ids) != Counter(t["id"] for t in want):
        bad("view-trials", "shows %r instead of %r" % ([(i, by_id.get(i, {}).get("script")) for i in ids], [(t["id"], t["script"], t["status"]) for t in want]))
        return
    if not same_order(ids, by_id):
        bad("view-order", "trials are not in the order of their start: %r" % [by_id[i]["start"] for i in ids])
    for n in nodes:
        t = by_id[n["id"]]
        own = [name for name, _ in tags.get(t["id"], [])]
        expect = {"script": t["script"], "status": t["status"], "command": t["command"], "parent_id": t["parent_id"], "code_hash": codes.get(t["id"]) or "",
                  "str_start": t["start"], "str_finish": str(t["finish"]), "modules_inherited_from_trial_id": t["modules_inherited_from_trial_id"]}
        for k, v in expect.items():
            if k in n and str(n[k]) != str(v):
                bad("view-data", "%s of trial %s is %r, stored %r" % (k, t["id"], n[k], v))
        for k in ("script", "status", "display", "str_start", "parent_id"):
            if k not in n:
                bad("view-data", "trial %s has no %s" % (t["id"], k))
        auto = [name for name, k in tags.get(t["id"], []) if k == "AUTO"]
        if n.get("display") not in (auto or [t["id"]]):
            bad("view-display", "trial %s is displayed as %r, its tags are %r" % (t["id"], n.get("display"), own))
        tip = n.get("tooltip", "")
        for part in (t["id"], t["script"], t["start"], str(t["finish"]), t["status"].capitalize()):
            if part not in tip:
                bad("view-tooltip", "tooltip of %s has no %r: %r" % (t["id"], part, tip))
    idset = set(ids)
    expect = {(t["id"], ancestor(by_id, t, idset)) for t in want if ancestor(by_id, t, idset)}
    got = [(ids[e["source"]], ids[e["target"]]) for e in edges]
    got = [g for g in got if g[0] != g[1]]
    if Counter(got) != Counter(expect):
        bad("view-edges", "edges %r instead of %r" % (sorted(set(got) - expect), sorted(expect - set(got))))
    check_text(bad, view["text"], want, tags, by_id)


LINE = re.compile(r"^[ |]*? ([*bf])(?: \||  )*  ([0-9a-f-]{36}) (\S.*?)\s*$")


def check_text(bad, text, want, tags, by_id):
    rows = []
    for line in text.split("\n"):
        if re.search(r"[0-9a-f]{8}-[0-9a-f]{4}-", line):
            m = LINE.match(line)
            if not m:
                bad("text-line", "line not understood: %r" % line)
                return
            rows.append(m.groups())
    if Counter(r[1] for r in rows) != Counter(t["id"] for t in want):
        bad("text-trials", "text lists %r instead of %r" % ([r[1] for r in rows], [t["id"] for t in want]))
        return
    if not same_order([r[1] for r in reversed(rows)], by_id):
        bad("text-order", "the text is not in order")
    for letter, tid, rest in rows:
        t = by_id[tid]
        expect = {"finished": "*", "backup": "b"}.get(t["status"], "f")
        names = sorted(name for name, _ in tags.get(tid, []))
        if letter != expect:
            bad("text-status", "trial %s (%s) is marked %r" % (tid, t["status"], letter))
        if not rest.startswith(t["script"]) or sorted(x for x in rest[len(t["script"]):].strip().split(", ") if x) != names:
            bad("text-data", "trial %s of %s with tags %r is listed as %r" % (tid, t["script"], names, rest))


class Viewer(object):
    """The process that stays alive"""

    def __init__(self, c):
        self.box = new_dir("c22box")
        self.k = 0
        self.res = None
        limit = 400 if c.thorough else 110

        def live():
            self.res = pool().pyexec(self.box, DRIVER, {"box": self.box, "limit": limit}, timeout=limit + 20)
        self.thread = threading.Thread(target=live, daemon=True)
        self.thread.start()

    def ask(self, base, views, facts=False):
        path = os.path.join(self.box, "req_%d.json" % self.k)
        with open(path + ".tmp", "w") as fil:
            json.dump({"dir": base, "views": views, "facts": facts}, fil)
        os.rename(path + ".tmp", path)
        out = os.path.join(self.box, "rep_%d.json" % self.k)
        self.k += 1
        limit = time.monotonic() + 60
        while not os.path.exists(out):
            if time.monotonic() > limit or not self.thread.is_alive():
                return None
            time.sleep(.005)
        with open(out) as fil:
            return json.load(fil)

    def stop(self):
        open(os.path.join(self.box, "stop"), "w").close()
        self.thread.join(30)


def now(base, *argv, **kw):
    return pool().now(base, *argv, timeout=90, **kw)


def change(rng, base, log):
    """Something that changes the store. Returns its name"""
    trials = stored(base)[0] if os.path.exists(base + "/.noworkflow/db.sqlite") else []
    kinds = ["run"] * 5 + ["bypass", "fails", "dead", "bad"] + (["restore", "restore", "name", "remove", "replace"] if len(trials) > 1 else [])
    kind = rng.choice(kinds)
    if kind in ("run", "bypass"):
        script = rng.choice(["a.py", "b.py", "b.py", "sub/c.py", "sub/a.py"])
        now(base, "run", *((["-b"] if kind == "bypass" else []) + [script] + ["arg"] * rng.randrange(3)))
    elif kind in ("fails", "dead", "bad"):
        now(base, "run", {"fails": "fail"}.get(kind, kind) + ".py")
    elif kind == "restore":
        t = rng.choice([t for t in trials])
        if rng.random() < .6:
            write_files(base, {t["script"]: FILES.get(t["script"], "") + "# edited %d\n" % len(trials)})
        now(base, "restore", t["id"])
    elif kind == "name":
        # as another process of noWorkflow tags
        t = rng.choice(trials)
        execute(base, "insert into tag (id, trial_id, type, name, timestamp) values (?, ?, 'OTHER', ?, ?)",
                (rng.randrange(10 ** 6, 10 ** 9), t["id"], "named%d" % rng.randrange(1000), t["start"]))
    elif kind == "remove":
        leaves = [t for t in trials if t["id"] not in {x["parent_id"] for x in trials}]
        remove(base, rng.choice(leaves)["id"])
    elif kind == "replace":  # as many trials as before, not the same
        leaves = [t for t in trials if t["id"] not in {x["parent_id"] for x in trials}]
        remove(base, rng.choice(leaves)["id"])
        now(base, "run", rng.choice(["b.py", "sub/c.py"]))
    return kind


def execute(base, sql, args=()):
    import sqlite3
    con = sqlite3.connect(base + "/.noworkflow/db.sqlite", timeout=30)
    try:
        con.execute(sql, args)
        con.commit()
    finally:
        con.close()


def remove(base, tid):
    import sqlite3
    con = sqlite3.connect(base + "/.noworkflow/db.sqlite", timeout=30)
    try:
        for (table,) in con.execute("select name from sqlite_master where type = 'table'").fetchall():
            cols = [r[1] for r in con.execute("pragma table_info(\"%s\")" % table)]
            if "trial_id" in cols:
                con.execute("delete from \"%s\" where trial_id = ?" % table, (tid,))
        con.execute("delete from trial where id = ?", (tid,))
        con.commit()
    finally:
        con.close()


def filters(rng, trials):
    scripts = ["*", "*"] + sorted({t["script"] for t in trials} | {t["script"].rsplit("/", 1)[-1] for t in trials})
    out = [["*", "*", False, True]]
    for _ in range(3):
        out.append([rng.choice(scripts), rng.choice(["*", "*", "finished", "unfinished", "backup"]), rng.random() < .2, rng.random() < .75])
    if rng.random() < .3:
        out.append(["none.py", "*", False, True])
    return out


def look(c, rng, viewer, base, other, where):
    """Views of both projects by the same process"""
    for place in ([base, other] if rng.random() < .5 else [base]):
        if not os.path.exists(place + "/.noworkflow/db.sqlite"):
            continue
        before = stored(place)
        views = filters(rng, before[0])
        res = viewer.ask(place, views, facts=True)
        if res is None:
            c.problem("no answer from the process that views histories")
            return
        if isinstance(res, dict):
            c.violation("view-fails", "%s: %s" % (where, res["error"]), None)
            return
        if stored(place) != before:
            c.violation("view-writes", "%s: views changed the stored trials" % where, None)
        for args, view in zip(views, res):
            judge_view(c, where, view, args, before)
        check_facts(c, where, res[-1], before)


def check_facts(c, where, facts, state):
    trials, tags, _ = state
    want = {t["id"]: t for t in trials}
    c.observe(("facts", where), listed=len(facts))
    if Counter(f["id"] for f in facts) != Counter(list(want)):
        c.violation("all-trials", "%s: Trial.all() gives %r instead of %r" % (where, sorted(f["id"] for f in facts), sorted(want)), None)
        return
    for f in facts:
        t = want[f["id"]]
        mine = (t["status"], t["script"], t["start"], str(t["finish"]), t["command"], t["parent_id"], sorted(n for n, _ in tags.get(t["id"], [])))
        got = (f["status"], f["script"], f["start"], f["finish"], f["command"], f["parent"], f["tags"])
        if mine != got:
            c.violation("trial-data", "%s: trial is given as %r, stored %r" % (where, got, mine), None)


def history_case(c, viewer, seed, steps):
    rng = c.rng("hist", seed)
    base, other = new_dir("c22"), new_dir("c22o")
    for d in (base, other):
        write_files(d, FILES)
    now(other, "run", "b.py")
    done = []
    waiting = None
    for k in range(steps):
        if waiting is None and k == steps // 2:
            waiting = threading.Thread(target=lambda: now(base, "run", "wait.py"))
            waiting.start()
            limit = time.monotonic() + 30
            while not os.path.exists(base + "/started") and time.monotonic() < limit:
                time.sleep(.02)
            done.append("started")
        elif waiting is not None and waiting.is_alive() and rng.random() < .6:
            open(base + "/go", "w").close()
            waiting.join()
            done.append("finished")
        else:
            target = other if rng.random() < .2 else base
            if waiting is not None and waiting.is_alive():
                target = other
            done.append(change(rng, target, done))
        look(c, rng, viewer, base, other, "after " + ",".join(done[-4:]))
    open(base + "/go", "w").close()
    if waiting is not None:
        waiting.join()
    look(c, rng, viewer, base, other, "at the end")
    c.observe(("history", tuple(done)), histories=1, changes=len(done), sample={"changes": done})
    cli_case(c, rng, base)


def text_of(base, *argv):
    return now(base, *argv)


def cli_case(c, rng, base):
    state = stored(base)
    trials, tags, codes = state
    by_id = {t["id"]: t for t in trials}
    rep = {"dir": base}
    res = text_of(base, "list")
    if res.rc != 0:
        c.violation("list-fails", "now list fails: %s" % res.err[-500:], rep)
        return
    blocks = re.split(r"(?m)^  \[(.)\]Trial ", res.out)[1:]
    got = []
    for letter, block in zip(blocks[::2], blocks[1::2]):
        first, _, rest = block.partition("\n")
        tid, _, command = first.partition(": ")
        lines = [x.strip() for x in rest.split("\n") if x.strip()]
        got.append((tid, letter, command, lines))
    c.observe(("list", len(got)), list_entries=len(got))
    if Counter(g[0] for g in got) != Counter(list(by_id)):
        c.violation("list-trials", "now list shows %r instead of %r" % ([g[0] for g in got], sorted(by_id)), rep)
    for tid, letter, command, lines in got:
        t = by_id.get(tid)
        if t is None:
            continue
        want = [("with code hash %s" % (codes.get(tid) or "")).strip(), "ran from %s to %s" % (t["start"], t["finish"]), "Sequence Key: %s" % t["sequence_key"]]
        want += ["Tag: %s Type: %s" % (n, k) for n, k in tags.get(tid, [])]
        have = [x.strip() for x in lines if not x.startswith("duration:")]
        if sorted(have) != sorted(want) or command != (t["command"] or "None") or letter != {"finished": "*", "backup": "b"}.get(t["status"], "f"):
            c.violation("list-data", "trial %s (%s) is listed as [%s] %r %r, stored %r %r" % (tid, t["status"], letter, command, have, t["command"], want), rep)
        if any(x.startswith("duration:") for x in lines) != bool(t["finish"]):
            c.violation("list-duration", "trial %s finished %s: %r" % (tid, t["finish"], lines), rep)
    for _ in range(2):
        script = rng.choice(["*"] + sorted({t["script"] for t in trials}))
        status = rng.choice(["*", "finished", "unfinished", "backup"])
        res = text_of(base, "history", "-s", script, "-e", status)
        bad = lambda mech, text: c.violation("cli-" + mech, "now history -s %s -e %s: %s" % (script, status, text[:600]), rep)
        c.observe(("history-cli", script, status), cli_histories=1)
        if res.rc != 0:
            bad("fails", res.err[-500:])
        else:
            check_text(bad, res.out, shown(trials, script, status), tags, by_id)
    for tid in rng.sample(sorted(by_id), min(2, len(by_id))):
        show_case(c, base, by_id[tid], tags, codes)
    # the trial shown when none is given is the last one
    res = text_of(base, "show")
    m = re.search(r"(?m)^\s*Id: (\S+)", res.out)
    runs = [t for t in trials if t["status"] != "backup"]
    last = max(t["start"] for t in trials)
    c.observe(("show-last", len(trials)), show_last=1)
    if not m or m.group(1) not in {t["id"] for t in trials if t["start"] == last} | {t["id"] for t in runs if t["start"] == max(x["start"] for x in runs)}:
        c.violation("show-last", "now show without a trial shows %s: %s" % (m and m.group(1), res.err[-300:]), rep)


def moment(t, checkpoint):
    if checkpoint is None:
        return "None"
    import datetime
    start = datetime.datetime.fromisoformat(t["start"])
    return str(start + datetime.timedelta(seconds=checkpoint))


def show_case(c, base, t, tags, codes):
    tid = t["id"]
    db = DB(base)
    rows = lambda q: [dict(r) for r in db.rows(q, tid)]
    try:
        modsql = "select m.*, b.code_hash from module m left join code_block b on m.trial_id = b.trial_id and m.code_block_id = b.id where m.trial_id = ? order by m.id"
        mods = rows(modsql)
        if t["modules_inherited_from_trial_id"]:
            mods = db.rows(modsql, t["modules_inherited_from_trial_id"])
        envs = rows("select * from environment_attr where trial_id = ? order by id")
        args = rows("select * from argument where trial_id = ? order by id")
        files = rows("select * from file_access where trial_id = ? order by id")
        blocks = rows("select b.*, c.name, c.type, c.first_char_line from code_block b join code_component c on b.trial_id = c.trial_id and b.id = c.id where b.trial_id = ? order by b.id")
        acts = rows("select a.*, e.repr, e.checkpoint, e.activation_id, e.code_component_id from activation a join evaluation e on a.trial_id = e.trial_id and a.id = e.id where a.trial_id = ? order by a.id")
    finally:
        db.close()
    rep = {"dir": base, "trial": tid}

    def section(*opts):
        res = text_of(base, "show", tid, *opts)
        c.observe(("show", opts, t["script"], t["status"]), shows=1)
        if res.rc != 0 or "Traceback" in res.err:
            c.violation("show-fails:" + opts[0], "now show %s of %s (%s) fails: %s" % (opts, t["script"], t["status"], res.err[-600:]), rep)
            return None
        head = re.search(r"(?s)\[now\] trial information:\n(.*?)(?=\n\[now\]|\Z)", res.out)
        info = dict(re.findall(r"(?m)^\s*([A-Z][A-Za-z ]*): (.*)$", head.group(1))) if head else {}
        want = {"Id": tid, "Status": t["status"].capitalize(), "Script": t["script"], "Code hash": codes.get(tid) or "", "Start": t["start"], "Finish": str(t["finish"]),
                "Inherited Id": str(t["modules_inherited_from_trial_id"]), "Sequence Key": str(t["sequence_key"])}
        for k, v in want.items():
            if info.get(k) != v:
                c.violation("show-data", "now show gives %s %r of trial %s, stored %r" % (k, info.get(k), tid, v), rep)
        shown_tags = re.findall(r"Tag: (.*?) Type: (\S+)", res.out.split("[now] trial information")[0])
        if sorted(shown_tags) != sorted(tags.get(tid, [])):
            c.violation("show-tags", "now show gives tags %r of trial %s, stored %r" % (shown_tags, tid, tags.get(tid)), rep)
        parts = res.out.split("\n[now] ")
        return parts[-1].partition("\n")[2]

    def compare(mech, text, want):
        """the records one after another, apart from white space"""
        if text is None:
            return
        c.count(records_shown=len(want))
        got = squeeze(text)
        pos = 0
        for k, w in enumerate(want):
            w = squeeze(w)
            if not got.startswith(w, pos):
                c.violation(mech, "now show of %s: record %d is %r instead of %r" % (t["script"], k, got[pos:pos + len(w) + 30][:300], w[:300]), rep)
                return
            pos += len(w)
        if pos != len(got):
            c.violation(mech, "now show of %s has more than the stored records: %r" % (t["script"], got[pos:][:200]), rep)

    compare("show-arguments", section("-p"), ["%s: %s" % (a["name"], a["value"]) for a in args])
    compare("show-environment", section("-e"), ["%s: %s" % (a["name"], a["value"]) for a in envs])
    text = section("-m")
    if text is not None:
        compare_modules(c, text, mods, t, rep)
    text = section("-f")
    if text is not None:
        entries = re.split(r"(?m)^  Name: ", "\n" + text)[1:]
        c.count(records_shown=len(files))
        got = []
        for e in entries:
            name, _, rest = e.partition("\n    Mode: ")
            info = dict(re.findall(r"(?m)^\s*([A-Z][A-Za-z ]*): (.*?)\s*$", "Mode: " + rest))
            got.append((name, info.get("Mode"), info.get("Buffering"), info.get("Content hash before"), info.get("Content hash after"), info.get("Timestamp")))
        want = [(f["name"], f["mode"], f["buffering"], str(f["content_hash_before"]), str(f["content_hash_after"]), moment(t, f["checkpoint"])) for f in files]
        if Counter(got) != Counter(list(want)):
            c.violation("show-files", "now show of %s gives accesses %r instead of %r" % (t["script"], list((Counter(got) - Counter(want)))[:2], list((Counter(want) - Counter(got)))[:2]), rep)
    text = section("-d")
    if text is not None:
        entries = re.split(r"(?m)^  Name: ", "\n" + text)[1:]
        got = [(re.match(r"(.*) \[(\w+)\]", e).groups() + (re.search(r"Code hash: (\S+)", e).group(1),)) for e in entries]
        want = [(b["name"], b["type"], str(b["code_hash"])) for b in blocks]
        c.count(records_shown=len(blocks))
        if got != want:
            c.violation("show-definition", "now show of %s gives blocks %r instead of %r" % (t["script"], got, want), rep)
    text = section("-a")
    if text is not None:
        by_id = {a["id"]: a for a in acts}
        heads = re.findall(r"(?m)^( *)(-?\d+): (.*?) \(([^()]*|None) - ([^()]*)\)$", text)
        want = []
        root = [a for a in acts if a["activation_id"] not in by_id]

        def walk(a, level):
            want.append((2 * level, a["name"], moment(t, a["start_checkpoint"]), moment(t, a["checkpoint"])))
            for b in acts:
                if b["activation_id"] == a["id"] and b["id"] != a["id"]:
                    walk(b, level + 1)
        if acts:
            first = min(root, key=lambda a: a["id"])
            walk(first, 1)
        got = [(len(h[0]), h[2], h[3], h[4]) for h in heads]
        c.count(records_shown=len(want))
        if [w[1:] for w in sorted(want, key=lambda w: w[1:])] != [g[1:] for g in sorted(got, key=lambda w: w[1:])] or Counter(got) != Counter(list(want)):
            c.violation("show-activations", "now show of %s gives activations %r instead of %r" % (
                t["script"], list((Counter(got) - Counter(want)).items())[:3], list((Counter(want) - Counter(got)).items())[:3]), rep)


def compare_modules(c, text, mods, t, rep):
    entries = re.split(r"(?m)^  Name: ", "\n" + text)[1:]
    got = []
    for e in entries:
        e = "Name: " + e
        get = lambda k, nxt: squeeze(re.search(r"(?s)%s:(.*?)(?=%s|\Z)" % (k, nxt), e).group(1))
        got.append((get("Name", "\n +Version:|\n +Path:|\n +Code hash:"), get("Code hash", "\n +[A-Z][a-z]+:")))
    want = [(squeeze(m["name"]), str(m["code_hash"])) for m in mods]
    c.count(records_shown=len(mods))
    if Counter(got) != Counter(list(want)):
        c.violation("show-modules", "now show of %s gives modules %r instead of %r" % (t["script"], list((Counter(got) - Counter(want)))[:3], list((Counter(want) - Counter(got)))[:3]), rep)


def body(c):
    deadline = 600 if c.thorough else 34
    viewers = 6 if c.thorough else 4

    def worker(k):
        viewer = Viewer(c)
        n = 0
        try:
            while (c.elapsed() < deadline or n == 0) and n < 60:
                history_case(c, viewer, "%d/%d" % (k, n), rng_steps(c, k, n))
                n += 1
                if c.thorough and n % 4 == 0:
                    viewer.stop()
                    viewer = Viewer(c)
        finally:
            viewer.stop()
    threads = []
    errors = []

    def guard(k):
        try:
            worker(k)
        except Exception:
            import traceback
            errors.append(traceback.format_exc())
    for k in range(viewers // 2 if not c.thorough else 3):
        threads.append(threading.Thread(target=guard, args=(k,)))
        threads[-1].start()
    for t in threads:
        t.join()
    if errors:
        raise Exception(errors[0])


def rng_steps(c, k, n):
    return c.rng("steps", k, n).randrange(5, 12)


if __name__ == "__main__":
    main(Check("C22", "trace", "views and record listings compared with the stored rows; distinct = (history of changes, filters, number of trials shown)", min_eval=25), body)
