"""C08: interrupted or failing runs never damage stored provenance.

Faults at enumerated persistence steps (SQL statement, commit, content put, file creation,
rename, git subprocess; in the process and its workers): SIGKILL of the whole process group,
one failing step, or a disk that stays full. Then the invariants of the store are monitored."""
import os
import shutil
import sqlite3
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import content
import rows

SCRIPT = '''import mod
import os
def f(n):
    with open("in.txt") as fil:
        data = fil.read()
    return mod.g(n) + len(data)
total = 0
for i in range(4):
    total += f(i)
    with open("out%d.txt" % (i % 2), "w") as fil:
        fil.write(str(total) + "VERSION")
d = {"a": [1, 2], "b": total}
d["c"] = d["a"]
print(total)
'''
MOD = "def g(n):\n    x = [n] * 3\n    return sum(x)\n"
PROBE = os.path.join(VERIF, "lib/fault_probe.py")
CONFIGS = [(e, o, b) for e in (None, "plain", "dulwich", "puregit", "pool_pygit", "threading_dulwich", "sequential_pygit")
           for o in ((), ("-s", "1"), ("-c", "package", "-s", "1")) for b in ("history", "empty")]
FIRST = [(None, (), "history"), (None, (), "empty"), ("plain", ("-s", "1"), "history"), ("dulwich", (), "history"), ("puregit", (), "empty"), ("pool_pygit", (), "history")]


def cmd(engine, *args):
    return ["run"] + (["--content-engine", engine] if engine else []) + list(args)


class Config(object):
    """A project with its history, prepared once and copied for every fault"""

    def __init__(self, c, config):
        self.engine, self.opts, self.base = config
        self.key = "%s/%s/%s" % (self.engine, " ".join(self.opts), self.base)
        self.root = new_dir("cfg")
        self.dir = self.root + "/proj"
        os.makedirs(self.dir)
        write_files(self.dir, {"script.py": SCRIPT, "mod.py": MOD, "in.txt": "input"})
        if self.base == "history":
            pool().now(self.dir, *cmd(self.engine, "script.py"), timeout=60)
            write_files(self.dir, {"script.py": SCRIPT.replace("VERSION", "2"), "mod.py": MOD + "# 2\n"})
            pool().now(self.dir, *cmd(self.engine, "script.py"), timeout=60)
            write_files(self.dir, {"script.py": SCRIPT.replace("VERSION", "3"), "in.txt": "changed"})
        self.before = snapshot(self.dir)
        # one run without faults: its steps and its rows
        ref = self.root + "/ref"
        shutil.copytree(self.dir, ref, symlinks=True)
        self.log = self.root + "/log"
        res = pool().now(ref, *cmd(self.engine, *(list(self.opts) + ["script.py"])), probe=PROBE, probe_args={"mode": "kill", "at": -1, "log": self.log}, timeout=90)
        with open(self.log) as fil:
            self.steps = [l.strip() for l in fil]
        self.reference = latest(ref)
        if res.rc or self.reference is None:
            c.problem("reference run of %s failed: %s" % (self.key, res.err[-300:]))
            self.steps = []
        shutil.rmtree(ref)


def latest(base):
    db = DB(base)
    if "trial" not in db.tables():
        db.close()
        return None
    t = db.rows("select * from trial order by sequence_key desc limit 1")
    try:
        out = (t[0]["status"], rows.dump(db, t[0]["id"])) if t else None
    except sqlite3.OperationalError as exc:
        return "unreadable: %s" % exc, None
    finally:
        db.close()
    if out:
        for tab, found in out[1].items():
            out[1][tab] = sorted((tuple((c, v.replace(base, "$DIR") if isinstance(v, str) else v) for c, v in r) for r in found), key=repr)
    return out


def snapshot(base):
    """{trial: (its row and tags, rows, {digest: content})}"""
    if not os.path.exists(base + "/.noworkflow/db.sqlite"):
        return {}
    db = DB(base)
    res = {}
    for t in db.rows("select * from trial"):
        dump = rows.dump(db, t["id"], ignore=set())
        named = {r["content_hash_before"] for r in db.rows("select content_hash_before from file_access where trial_id=?", t["id"])}
        named |= {r["content_hash_after"] for r in db.rows("select content_hash_after from file_access where trial_id=?", t["id"])}
        named |= {r["code_hash"] for r in db.rows("select code_hash from code_block where trial_id=?", t["id"])}
        named.discard(None)
        tags = sorted(r["name"] for r in db.rows("select name from tag where trial_id=?", t["id"]))
        res[t["id"]] = ((dict(t), tags), dump, {d: content.read(base, d) for d in named})
    db.close()
    return res


def judge(c, cfg, mode, at, after_ms, rng):
    base = new_dir("x") + "/proj"
    log = os.path.dirname(base) + "/log"
    try:
        shutil.copytree(cfg.dir, base, symlinks=True)
        res = pool().now(base, *cmd(cfg.engine, *(list(cfg.opts) + ["script.py"])), probe=PROBE,
                         probe_args={"mode": mode, "at": at, "log": log, "after_ms": after_ms}, timeout=60)
        step = "?"
        with open(log) as fil:
            done = [l.strip() for l in fil]
        if mode in ("kill", "error", "full"):
            if at > len(done):
                c.count(not_reached=1)
                return
            step = done[at - 1]
        name = "%s, %s at step %s (%s)" % (cfg.key, mode, at if mode != "timer" else "%d ms" % after_ms, step)
        replay = {"config": cfg.key, "mode": mode, "at": at, "step": step, "after_ms": after_ms}

        def bad(mech, msg):
            c.violation(mech, "%s: %s" % (name, msg), replay)
        if res.timeout:
            bad("hang", "the run does not end: %s" % res.err[-300:])
        path = base + "/.noworkflow/db.sqlite"
        exists = os.path.exists(path) and os.path.getsize(path) > 0
        new = None
        if exists:
            db = DB(base)
            ok = db.scalar("pragma integrity_check")
            if ok != "ok":
                bad("integrity", str(ok)[:200])
            tables = db.tables()
            db.close()
            if "trial" in tables and "tag" in tables:
                try:
                    after = snapshot(base)
                except Exception as exc:
                    after = None
                    if cfg.base == "history":
                        bad("unreadable", repr(exc))
                if after is not None:
                    for tid, (trial, dump, stored) in cfg.before.items():
                        if tid not in after:
                            bad("lost-trial", "trial %s is not stored any more" % trial[0]["sequence_key"])
                            continue
                        if after[tid][0] != trial or after[tid][1] != dump:
                            bad("changed-trial", "trial %s changed" % trial[0]["sequence_key"])
                        if after[tid][2] != stored:
                            bad("lost-content", "contents of trial %s changed: %s" % (trial[0]["sequence_key"], [d for d in stored if after[tid][2].get(d) != stored[d]]))
                    fresh = [v for t, v in after.items() if t not in cfg.before]
                    if len(fresh) > 1:
                        bad("trials", "%d trials for one run" % len(fresh))
                    for (trial, _), _, stored in fresh:
                        new = trial[0] if isinstance(trial, tuple) else trial
                        sha = sha1 if cfg.engine == "plain" else git_blob_sha
                        for d, data in stored.items():
                            if data is not None and sha(data) != d:
                                bad("corrupt-content", "the content %s of the interrupted trial is corrupt" % d)
                        if new["status"] == "finished":
                            got = latest(base)[1]
                            diffs = rows.differences(cfg.reference[1], got)
                            if diffs:
                                bad("finished-incomplete", "the trial is marked finished but %s" % (diffs[:2],))
                            if mode == "kill" or mode == "timer":
                                missing = [d for d, data in stored.items() if data is None]
                                c.count(finished_content_missing=len(missing) > 0)
        broken = content.check_store(base)
        broken = broken[0] if isinstance(broken, tuple) else broken
        if broken:
            bad("corrupt-store", str(broken)[:300])
        # every command still works and a new run succeeds
        engine = ["--content-engine", cfg.engine] if cfg.engine else []
        if cfg.base == "history":
            for args in (["list"], ["show", "1"]) if rng.random() < .4 else ():
                r = pool().now(base, *args, timeout=60)
                if r.rc or r.timeout or "invalid noWorkflow" in r.out:
                    bad("command", "now %s ends with %s: %s" % (args, r.rc, (r.out + r.err)[-300:]))
            if rng.random() < .25:
                r = pool().now(base, "restore", *(engine + ["1"]), timeout=60)
                with open(base + "/script.py") as fil:
                    text = fil.read()
                if r.rc or r.timeout or text != SCRIPT:
                    bad("restore", "restore of an earlier trial ends with %s: %s" % (r.rc, (r.out + r.err)[-300:]))
                write_files(base, {"script.py": SCRIPT.replace("VERSION", "3"), "in.txt": "changed"})
        r = pool().now(base, *cmd(cfg.engine, "script.py"), timeout=60)
        got = latest(base) if os.path.exists(path) else None
        if r.rc or r.timeout or got is None or got[0] != "finished":
            bad("next-run", "the next run ends with %s, status %s: %s" % ("timeout" if r.timeout else r.rc, got and got[0], (r.out + r.err)[-400:]))
        else:
            snap = snapshot(base)
            db = DB(base)
            tid = db.scalar("select id from trial order by sequence_key desc limit 1")
            db.close()
            missing = [d for d, data in snap[tid][2].items() if data is None]
            if missing:
                bad("next-content", "contents of the next run are missing: %s" % missing)
            for t, (trial, dump, stored) in cfg.before.items():
                if snap.get(t, (0, 0, 0))[1:] != (dump, stored):
                    bad("changed-trial", "after the next run trial %s changed" % trial[0]["sequence_key"])
        c.observe(key=(cfg.key, mode, step), n=1, sample={"fault": name, "left": new and new["status"]}, **{
            mode: 1, "left_" + str(new["status"] if new else "nothing"): 1})
    finally:
        shutil.rmtree(os.path.dirname(base), ignore_errors=True)


def body(c):
    rng = c.rng("plan")
    configs = FIRST + ([x for x in CONFIGS if x not in FIRST] if c.thorough else rng.sample([x for x in CONFIGS if x not in FIRST], 2))
    configs = pool().map(lambda x: Config(c, x), configs)
    deadline = c.t0 + (60 if not c.thorough else 760)
    jobs = []
    for cfg in configs:
        n = len(cfg.steps)
        c.count(steps=n)
        # every different step, first and last occurrence, and random ones
        firsts = {}
        for k, s in enumerate(cfg.steps):
            firsts.setdefault("sql CREATE" if s.startswith("sql CREATE") else s, []).append(k + 1)
        picks = {ks[0] for ks in firsts.values()} | {ks[-1] for ks in firsts.values()}
        picks |= set(range(1, n + 1)) if c.thorough else set(rng.sample(range(1, n + 1), min(n, 6)))
        for k in picks:
            for mode in ("kill", "error", "full") if c.thorough else rng.sample(["kill", "kill", "error", "full"], 2):
                jobs.append((cfg, mode, k, 0))
        for _ in range(6 if not c.thorough else 100):
            jobs.append((cfg, "timer", 0, rng.choice([60, 100, 150, 200, 300, 400, 600]) + rng.randrange(60)))
    rng.shuffle(jobs)

    def one(item):
        k, (cfg, mode, at, ms) = item
        if time.time() < deadline:
            judge(c, cfg, mode, at, ms, c.rng("job", k))
        else:
            c.count(skipped=1)
    pool().map(one, list(enumerate(jobs)))


if __name__ == "__main__":
    main(Check("C08", "fault_enumeration", "store after SIGKILL or failing step at enumerated persistence steps, then a new run; distinct = (configuration, fault, step)", min_eval=15), body)
