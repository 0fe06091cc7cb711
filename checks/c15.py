"""C15: diffs report exactly what differs between two trials.

Histories of real runs (modules that change, appear, disappear and are imported again while running;
environments; files) plus variants of stored trials are compared through the model API and `now diff`;
the answers are judged by multiset differences of the raw rows."""
import os
import random
import re
import shutil
import sqlite3
import sys
from collections import Counter, defaultdict
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import projects

DRIVER = os.path.join(VERIF, "lib", "diff_driver.py")
AGAIN = '''import sys, importlib
import m0
with open("m0.py") as fil:
    text = fil.read()
if %r:
    with open("m0.py", "w") as fil:
        fil.write(text + "\\nAGAIN = %d\\n")
    del sys.modules["m0"]
    importlib.invalidate_caches()
    import m0
'''


def program(rng):
    """A script that imports some local modules and accesses some files"""
    files = {}
    mods = [m for m in ("m0", "m1", "pk.m2", "pk.m3") if rng.random() < .6]
    for m in mods:
        files[m.replace(".", "/") + ".py"] = "%sX = %d\n" % ("__version__ = %r\n" % ("1.%d" % rng.randrange(3)) if rng.random() < .6 else "", rng.randrange(2))
        if "." in m:
            files["pk/__init__.py"] = ""
    lines = ["import %s" % m for m in mods]
    if "m0" in mods and rng.random() < .5:
        lines.append(AGAIN % (rng.random() < .8, rng.randrange(2)))
    for name in ("a.txt", "b.txt", "c d.txt"):
        for _ in range(rng.choice([0, 1, 1, 2])):
            mode = rng.choice(["w", "a", "r"])
            if mode == "r":
                files.setdefault(name, "in%d" % rng.randrange(2))
                lines.append("open(%r).read()" % name)
            else:
                lines.append("with open(%r, %r) as f: f.write('%d')" % (name, mode, rng.randrange(2)))
    if rng.random() < .1:
        lines.append("1 / 0")
    files["script.py"] = "\n".join(lines + ["x = %d" % rng.randrange(2)]) + "\n"
    return files


def variants(rng, base, n):
    """Variants of stored trials: the rows of a trial under another identifier with some records
    changed, removed or repeated"""
    con = sqlite3.connect(base + "/.noworkflow/db.sqlite")
    con.row_factory = sqlite3.Row
    ids = [r["id"] for r in con.execute("select id from trial where main_id is not null order by sequence_key")]
    if not ids:
        return
    tables = ["argument", "code_component", "code_block", "environment_attr", "evaluation", "activation", "file_access", "module"]
    for i in range(n):
        src, new = rng.choice(ids), "variant-%d" % i
        row = dict(con.execute("select * from trial where id=?", (src,)).fetchone())
        row["id"] = new
        row["sequence_key"] = con.execute("select max(sequence_key) from trial").fetchone()[0] + 1
        for col, vals in (("command", ["run a", "run b"]), ("status", ["finished", "unfinished"]), ("parent_id", [None, src]), ("script", ["script.py", "other.py"])):
            if rng.random() < .3:
                row[col] = rng.choice(vals)
        if row["modules_inherited_from_trial_id"] is None and rng.random() < .2:
            row["modules_inherited_from_trial_id"] = rng.choice(ids)
            if con.execute("select modules_inherited_from_trial_id from trial where id=?", (row["modules_inherited_from_trial_id"],)).fetchone()[0]:
                row["modules_inherited_from_trial_id"] = None
        con.execute("insert into trial (%s) values (%s)" % (",".join(row), ",".join("?" * len(row))), list(row.values()))
        for table in tables:
            rows = [dict(r) for r in con.execute("select * from %s where trial_id=?" % table, (src,))]
            extra = []
            keep = []
            for r in rows:
                r["trial_id"] = new
                if table == "environment_attr":
                    p = rng.random()
                    if p < .1:
                        continue
                    if p < .3:
                        r["value"] = rng.choice(["v0", "v1", "", r["value"] + "x"])
                    elif p < .35:
                        r["name"] = "N%d" % rng.randrange(3)
                elif table == "module":
                    p = rng.random()
                    if p < .1:
                        continue
                    if p < .3:
                        r["version"] = rng.choice(["1.0", "2.0", None])
                    elif p < .4:
                        extra.append(dict(r, version=rng.choice(["1.0", "2.0", "3.0"])))
                elif table == "file_access":
                    p = rng.random()
                    if p < .1:
                        continue
                    if p < .3:
                        r[rng.choice(["content_hash_before", "content_hash_after"])] = rng.choice(["a" * 40, "b" * 40, None])
                    elif p < .4:
                        r["mode"] = rng.choice(["r", "w", "rb"])
                    elif p < .5:
                        r["name"] = rng.choice(["a.txt", "z.txt"])
                    elif p < .6:
                        extra.append(dict(r, name=rng.choice(["a.txt", "z.txt"])))
                keep.append(r)
            top = max([r["id"] for r in keep if isinstance(r.get("id"), int)] or [0])
            for r in extra:
                top += 1
                r["id"] = top
                keep.append(r)
            for r in keep:
                con.execute("insert into %s (%s) values (%s)" % (table, ",".join(r), ",".join("?" * len(r))), list(r.values()))
    con.commit()
    con.close()


class Records(object):
    def __init__(self, db, tid):
        self.trial = db.rows("select * from trial where id=?", tid)[0]
        owner = self.trial["modules_inherited_from_trial_id"] or tid
        self.modules = {(owner, r["id"]): (r["name"], r["version"], r["code_hash"]) for r in db.rows(
            "select m.*, b.code_hash from module m left join code_block b on b.trial_id=m.trial_id and b.id=m.code_block_id where m.trial_id=?", owner)}
        self.environment = {(tid, r["id"]): (r["name"], r["value"]) for r in db.rows("select * from environment_attr where trial_id=?", tid)}
        self.files = {(tid, r["id"]): (r["name"], r["mode"], r["content_hash_before"], r["content_hash_after"]) for r in db.rows("select * from file_access where trial_id=?", tid)}
        main = db.rows("select code_hash from code_block where trial_id=? and id=?", tid, self.trial["main_id"]) if self.trial["main_id"] is not None else []
        self.code_hash = main[0]["code_hash"] if main else None


def judge(c, where, r1, r2, got):
    def bad(mech, msg):
        c.violation(mech, "%s: %s" % (where, msg), {"where": list(where)})
    # attributes of the trials
    cols = [k for k in r1.trial.keys() if k not in ("id",)]
    want = {k for k in cols if r1.trial[k] != r2.trial[k]}
    listed = set(got["trial"])
    duration = "duration_text" in listed
    listed.discard("duration_text")
    if r1.code_hash != r2.code_hash:
        want.add("code_hash")
    want.discard("sequence_key")
    listed.discard("sequence_key")
    if listed != want:
        bad("trial", "attributes %s differ, %s listed" % (sorted(want), sorted(listed)))
    if duration and not want & {"start", "finish"}:
        bad("trial", "the duration is listed and neither start nor finish differ")
    for kind in ("modules", "environment", "files"):
        one, two = getattr(r1, kind), getattr(r2, kind)
        k1, k2 = set(one.values()), set(two.values())
        res = got[kind]
        try:
            added = Counter(two[tuple(i)] for i in res["added"])
            removed = Counter(one[tuple(i)] for i in res["removed"])
            pairs = [(one[tuple(a)], two[tuple(b)]) for a, b in res["replaced"]]
        except KeyError as exc:
            bad(kind, "a record of another trial is listed: %s" % exc)
            continue
        from_, to = Counter(a for a, _ in pairs), Counter(b for _, b in pairs)
        for x in (added, removed, from_, to):
            if any(v > 1 for v in x.values()):
                bad(kind, "listed more than once: %s" % [k for k, v in x.items() if v > 1][:3])
        if set(added) | set(to) != k2 - k1 or set(added) & set(to):
            bad(kind, "added %s, replaced by %s, only in the second %s" % (sorted(added, key=repr)[:4], sorted(to, key=repr)[:4], sorted(k2 - k1, key=repr)[:4]))
        if set(removed) | set(from_) != k1 - k2 or set(removed) & set(from_):
            bad(kind, "removed %s, replaced %s, only in the first %s" % (sorted(removed, key=repr)[:4], sorted(from_, key=repr)[:4], sorted(k1 - k2, key=repr)[:4]))
        if any(a[0] != b[0] for a, b in pairs) or (kind == "files" and pairs):
            bad(kind, "replaced: %s" % pairs[:3])
        if kind != "files":
            n1, n2, np_ = Counter(k[0] for k in k1 - k2), Counter(k[0] for k in k2 - k1), Counter(a[0] for a, _ in pairs)
            for name in set(n1) | set(n2):
                if np_[name] != min(n1[name], n2[name]):
                    bad(kind + "-replaced", "%s: %d removed, %d added, %d replaced" % (name, n1[name], n2[name], np_[name]))
        c.count(**{kind + "_differences": len(added) + len(removed) + len(pairs), kind + "_equal": len(k1 & k2)})
    return want


def symmetric(c, where, ab, ba):
    for kind in ("modules", "environment", "files"):
        a, b = ab[kind], ba[kind]
        if (len(a["added"]), len(a["removed"]), len(a["replaced"])) != (len(b["removed"]), len(b["added"]), len(b["replaced"])):
            c.violation("swap-" + kind, "%s: added %d removed %d replaced %d, swapped %d %d %d" % (
                where, len(a["added"]), len(a["removed"]), len(a["replaced"]), len(b["added"]), len(b["removed"]), len(b["replaced"])), {"where": list(where)})


def shown(value):
    return str(value or "<None>")


def command(c, where, base, t1, t2, r1, r2, api):
    res = pool().now(base, "diff", t1, t2, "-m", "-e", "-f", timeout=90)
    if res.rc or res.timeout:
        c.violation("command", "%s: now diff fails: %s" % (where, (res.out + res.err)[-400:]), {"where": list(where)})
        return
    c.count(commands=1)
    for kind, text in (("modules", "modules"), ("environment", "environment attributes"), ("files", "file accesses")):
        for how in ("added", "removed", "replaced"):
            m = re.search(r"(\d+) %s %s:" % (text, how), res.out)
            if not m or int(m.group(1)) != len(api[kind][how]):
                c.violation("command-count", "%s: %s, %d %s %s" % (where, m and m.group(0), len(api[kind][how]), text, how), {"where": list(where)})
    for a, b in api["environment"]["replaced"]:
        line = "  Environment attribute %s changed from %s to %s" % (r1.environment[tuple(a)][0], shown(r1.environment[tuple(a)][1]), shown(r2.environment[tuple(b)][1]))
        if line not in res.out:
            c.violation("command-environment", "%s: %r is not in the output" % (where, line[:200]), {"where": list(where)})
    for key, vals in api["trial"].items():
        line = "  %s changed from " % key.capitalize().replace("_", " ")
        if line not in res.out:
            c.violation("command-trial", "%s: %r is not in the output" % (where, line), {"where": list(where)})
    for name, one, two in (("Script", r1.trial["script"], r2.trial["script"]), ("Command", r1.trial["command"], r2.trial["command"]), ("Code hash", r1.code_hash, r2.code_hash)):
        line = "  %s changed from %s to %s" % (name, shown(one), shown(two))
        if (line in res.out) != (one != two):
            c.violation("command-trial", "%s: %r in the output: %s" % (where, line[:200], line in res.out), {"where": list(where)})
    part = res.out[res.out.index("modules replaced:"):res.out.index("environment attributes added:")]
    for a, b in api["modules"]["replaced"]:
        old, new = r1.modules[tuple(a)], r2.modules[tuple(b)]
        if "  Name: %s\n" % old[0] not in part or (old[1] != new[1] and "    Version changed from %s to %s" % (shown(old[1]), shown(new[1])) not in part):
            c.violation("command-modules", "%s: %s to %s is not in %r" % (where, old, new, part[:300]), {"where": list(where)})


def scenario(c, k):
    rng = c.rng("scenario", k)
    base = new_dir("p") + "/proj"
    os.makedirs(base)
    try:
        if k % 5 == 4:
            projects.build(rng, base, 3, first=k)
        else:
            for i in range(rng.randrange(2, 5)):
                for name in ("m0.py", "m1.py", "pk/m2.py"):
                    if os.path.exists(base + "/" + name) and rng.random() < .5:
                        os.unlink(base + "/" + name)
                write_files(base, program(rng))
                env = {"VERIF_X": str(rng.randrange(2)), "VERIF_Y%d" % rng.randrange(2): "caf\u00e9"}
                pool().now(base, "run", *(rng.choice([[], ["-b"], ["-c", "all"], ["--name", "renamed"]][:4 if i else 1]) + ["script.py"]), env=env, timeout=90)
        variants(rng, base, 0 if k % 2 else 4)
        ids = projects.trials(base)
        pairs = [(a, b) for a in ids for b in ids]
        rng.shuffle(pairs)
        pairs = pairs[:30] if not c.thorough else pairs
        both = [p for ab in pairs for p in (ab, ab[::-1])]
        res = pool().pyexec(base, DRIVER, {"pairs": both}, timeout=120)
        if "\n@@" not in res.out:
            c.violation("diff-fails", "scenario %d: %s" % (k, (res.out + res.err)[-600:]), {"scenario": k})
            return
        got = json.loads(res.out.split("\n@@", 1)[1])
        db = DB(base)
        recs = {t: Records(db, t) for t in ids}
        for i, (a, b) in enumerate(both):
            where = (k, a[:9], b[:9])
            g = got[i]
            want = judge(c, where, recs[a], recs[b], g)
            c.observe(key=(sorted(want), json.dumps([sorted(map(str, recs[a].environment.values())), sorted(map(str, recs[b].environment.values()))])[:50], k, a, b), n=1, nontrivial=a != b,
                      sample={"trial": sorted(want), "modules": [len(g["modules"][x]) for x in ("added", "removed", "replaced")]} if len(c.samples) < 8 else None)
            if a == b and (any(g["trial"]) or any(g[x][y] for x in ("modules", "environment", "files") for y in g[x])):
                c.violation("itself", "%s: a trial differs from itself: %s" % (where, json.dumps(g)[:300]), {"where": list(where)})
            if not i % 2:
                symmetric(c, where, g, got[i + 1])
        for i in rng.sample(range(len(both)), min(2 if not c.thorough else 4, len(both))):
            a, b = both[i]
            command(c, (k, a[:9], b[:9]), base, a, b, recs[a], recs[b], got[i])
        db.close()
    finally:
        shutil.rmtree(os.path.dirname(base), ignore_errors=True)


def body(c):
    n = 24 if not c.thorough else 800
    deadline = c.t0 + (50 if not c.thorough else 780)

    def one(k):
        if time.time() < deadline:
            scenario(c, k)
    pool().map(one, range(n))


if __name__ == "__main__":
    main(Check("C15", "differential", "diffs of pairs of trials compared with differences of the raw rows; distinct = pair", min_eval=70), body)
