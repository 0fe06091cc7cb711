"""C13: transfers (import, push, pull) are lossless and idempotent.

Real command lines against real repositories and a real `now vis` server on the loopback
interface; after every transfer the raw rows and contents of all repositories are compared
with the ones recorded before."""
import concurrent.futures as cf
import json
import os
import shutil
import socket
import sqlite3
import subprocess
import sys
import time
import urllib.request
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import content
import projects

TABLES = ["code_component", "code_block", "composition", "evaluation", "activation", "dependency", "member",
          "file_access", "module", "argument", "environment_attr"]
PROBE = os.path.join(VERIF, "lib/fault_probe.py")


class Server(object):
    def __init__(self, base):
        self.base = base
        for _ in range(3):
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                self.port = s.getsockname()[1]
            self.log = open(base + "/../server.log", "ab")
            self.proc = subprocess.Popen([PY, "-W", "ignore", "-m", "noworkflow", "vis", "-p", str(self.port)], cwd=base, env=ENV,
                                         stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, start_new_session=True)
            end = time.time() + 40
            while time.time() < end and self.proc.poll() is None:
                try:
                    self.get("/users")
                    return
                except OSError:
                    time.sleep(.1)
            self.close()
        raise RuntimeError("the server does not start: " + self.tail())

    def tail(self):
        with open(self.base + "/../server.log", "rb") as fil:
            return fil.read()[-600:].decode("utf-8", "replace")

    def get(self, path):
        with urllib.request.urlopen("http://127.0.0.1:%d%s" % (self.port, path), timeout=20) as res:
            return json.loads(res.read())

    def experiment(self, name):
        req = urllib.request.Request("http://127.0.0.1:%d/experiments" % self.port, data=json.dumps({"name": name, "description": "d"}).encode(), headers={"Content-Type": "application/json"})
        with urllib.request.urlopen(req, timeout=20) as res:
            return "http://127.0.0.1:%d/experiments/%s" % (self.port, json.loads(res.read())["id"])

    def close(self):
        with contextlib.suppress(Exception):
            os.killpg(self.proc.pid, 9)
        self.proc.wait(10)
        self.log.close()


def state(base):
    """{trial: {table: rows}} and {trial: {digest: content}} read without noworkflow"""
    if not os.path.exists(base + "/.noworkflow/db.sqlite"):
        return {}
    db = DB(base)
    res = {}
    for t in db.rows("select * from trial"):
        tid = t["id"]
        rec = {tab: sorted(map(repr, db.con.execute("select * from %s where trial_id=?" % tab, (tid,)).fetchall() and
                           [tuple(r) for r in db.con.execute("select * from %s where trial_id=?" % tab, (tid,))])) for tab in TABLES}
        row = dict(t)
        for k in ("sequence_key", "experiment_id"):
            row.pop(k, None)
        # the user who ran it
        row["user"] = [tuple(r) for r in db.con.execute('select "id", "userLogin" from user where id=?', (t["user_id"],))]
        rec["trial"] = [repr(sorted(row.items()))]
        rec["tag"] = [repr((r["type"],)) for r in db.rows("select type from tag where trial_id=?", tid)]
        named = {r[0] for r in db.con.execute("select content_hash_before from file_access where trial_id=? union select content_hash_after from file_access where trial_id=?"
                                             " union select code_hash from code_block where trial_id=?", (tid, tid, tid))} - {None}
        rec["contents"] = [repr((d, content.read(base, d))) for d in sorted(named)]
        assert tid not in res
        res[tid] = rec
    res["counts"] = {tab: db.scalar("select count(*) from %s" % tab) for tab in TABLES + ["trial"]}
    db.close()
    return res


def compare(expected, got):
    """First difference between the records of a trial"""
    for tab in expected:
        if expected[tab] != got.get(tab):
            a, b = set(expected[tab]), set(got.get(tab) or [])
            return "%s: %d rows for %d; e.g. %s instead of %s" % (tab, len(got.get(tab) or []), len(expected[tab]), sorted(b - a)[:1], sorted(a - b)[:1])
    return None


def scenario(c, k):
    rng = c.rng("scenario", k)
    root = new_dir("t")
    server = None
    steps = []
    try:
        repos = {n: root + "/" + n for n in "ABCDS"}
        for p in repos.values():
            os.makedirs(p)
        projects.build(rng, repos["A"], rng.choice([2, 3]), first=rng.randrange(8), opts=())
        if rng.random() < .7:
            projects.build(rng, repos["B"], rng.choice([1, 2]))
        for n in "SCD":
            if rng.random() < .5 or n == "S" and k % 2:
                projects.build(rng, repos[n], 1)
        if rng.random() < .5:  # times without microseconds are possible too
            con = sqlite3.connect(repos["A"] + "/.noworkflow/db.sqlite")
            con.execute("update trial set start='2026-01-02 03:04:05.000000', finish='2026-01-02 03:04:06.000000' where sequence_key=1")
            con.commit()
            con.close()
        known = {n: state(p) for n, p in repos.items()}

        def bad(mech, msg):
            c.violation(mech, "scenario %d after %s: %s" % (k, steps, msg[:700]), {"scenario": k, "steps": steps})

        def arrived(expected, dst, ress, what):
            """The expected trials are in dst, nothing else changed"""
            for res in ress:
                if res.rc or res.timeout or "Error" in res.out or "failed" in res.out:
                    bad(what + "-fails", "rc %s: %s %s" % (res.rc, (res.out + res.err)[-400:], server.tail()[-300:] if server else ""))
                    return
            now = {n: state(p) for n, p in repos.items()}
            for n in repos:
                for tid in known[n]:
                    if tid == "counts":
                        continue
                    if tid not in now[n]:
                        bad(what + "-lost", "trial of %s was lost" % n)
                    else:
                        diff = compare(known[n][tid], now[n][tid])
                        if diff:
                            bad(what + "-changed", "a trial already in %s changed: %s" % (n, diff))
            for tid in expected:
                if tid not in now[dst]:
                    bad(what + "-missing", "the trial %s is not in %s" % (tid, dst))
                    continue
                diff = compare(expected[tid], now[dst][tid])
                if diff:
                    bad(what + "-differs", "the trial is not the same in %s: %s" % (dst, diff))
                c.observe(key=(what, sorted((t, len(r)) for t, r in expected[tid].items())), n=1, sample={"steps": steps[-3:], "rows": sum(len(r) for r in expected[tid].values())}, trials=1)
            new = {t for t in now[dst] if t != "counts"} - {t for t in known[dst] if t != "counts"}
            if new - set(expected):
                bad(what + "-invented", "unexpected trials in %s: %s" % (dst, new - set(expected)))
            if not new and known[dst].get("counts") and now[dst]["counts"] != known[dst]["counts"]:
                bad(what + "-duplicates", "repeating changes the number of rows in %s: %s" % (dst, {t: (v, now[dst]["counts"][t]) for t, v in known[dst]["counts"].items() if v != now[dst]["counts"][t]}))
            if dst in now and now[dst].get("counts"):
                for tab, count in now[dst]["counts"].items():
                    got = sum(len(r[tab]) for t, r in now[dst].items() if t != "counts")
                    if got != count:
                        bad(what + "-orphans", "%d rows of %s in %s, but %d belong to trials" % (count, tab, dst, got))
            broken = content.check_store(repos[dst])[0]
            if broken:
                bad(what + "-store", str(broken)[:300])
            known.update(now)

        def ids_of(n):
            return [t for t in known[n] if t != "counts"]

        def interrupt(where, *argv):
            """Kill the transfer at one of its steps; repeating it must complete it"""
            if rng.random() < .4:
                at = rng.choice([rng.randrange(1, 12), rng.randrange(1, 40), rng.randrange(1, 100)])
                pool().now(where, *argv, probe=PROBE, probe_args={"mode": "kill", "at": at, "log": root + "/log"}, timeout=90)
                with open(root + "/log") as fil:
                    done = [l.strip() for l in fil]
                os.unlink(root + "/log")
                if len(done) >= at:
                    steps.append("killed at %d: %s" % (at, done[at - 1]))
                    c.count(interrupted=1)

        kind = ["import", "http"][k % 2]
        if kind == "import":
            chain = [("A", "C")] + [rng.choice([("B", "C"), ("C", "D"), ("A", "D"), ("A", "C"), ("B", "A")]) for _ in range(3)]
            for src, dst in chain:
                if not os.path.exists(repos[src] + "/.noworkflow"):
                    continue
                for again in ((False, True) if rng.random() < .5 else (False,)):
                    steps.append("import %s to %s" % (src, dst))
                    interrupt(repos[dst], "import", "--source", repos[src])
                    if rng.random() < .5:
                        res = pool().now(repos[dst], "import", "--source", repos[src], timeout=90)
                    else:
                        res = pool().now(root, "import", "--source", repos[src], "--target", repos[dst], timeout=90)
                    arrived({t: known[src][t] for t in ids_of(src)}, dst, [res], "import")
        else:
            server = Server(repos["S"])
            url = server.experiment("e1")
            pushed = {}
            plan = [("push", "A"), ("pull", "C")] + [rng.choice([("push", "A"), ("push", "B"), ("pull", "C"), ("pull", "D"), ("push", "C"), ("pull", "A"), ("both", "")]) for _ in range(4)]
            if rng.random() < .5:
                plan.append(("second", "A"))
            for what, n in plan:
                steps.append("%s %s" % (what, n))
                if what == "second":
                    url2 = server.experiment("e2")
                    res = pool().now(repos[n], "push", "--url", url2, timeout=90)
                    arrived({t: known[n][t] for t in ids_of(n)}, "S", [res], "push-again")
                    continue
                if what == "both":
                    have = [n for n in "AB" if os.path.exists(repos[n] + "/.noworkflow")]
                    with cf.ThreadPoolExecutor(2) as ex:
                        ress = list(ex.map(lambda n: pool().now(repos[n], "push", "--url", url, timeout=90), have))
                    pushed.update({t: 1 for n in have for t in ids_of(n)})
                    arrived({t: known[n][t] for n in have for t in ids_of(n)}, "S", ress, "push")
                    continue
                if what == "push":
                    if not os.path.exists(repos[n] + "/.noworkflow"):
                        continue
                    res = pool().now(repos[n], "push", "--url", url, timeout=90)
                    pushed.update({t: 1 for t in ids_of(n)})
                    arrived({t: known[n][t] for t in ids_of(n)}, "S", [res], "push")
                else:
                    interrupt(repos[n], "pull", "--url", url)
                    res = pool().now(repos[n], "pull", "--url", url, timeout=90)
                    arrived({t: known["S"][t] for t in pushed}, n, [res], "pull")
    finally:
        if server:
            server.close()
        shutil.rmtree(root, ignore_errors=True)


def body(c):
    n = 10 if not c.thorough else 150
    deadline = c.t0 + (75 if not c.thorough else 780)

    def one(k):
        if time.time() < deadline:
            scenario(c, k)
    pool().map(one, range(n))


if __name__ == "__main__":
    main(Check("C13", "differential", "rows and contents of trials compared between repositories after real transfers; distinct = (transfer, row counts of the trial)", min_eval=10), body)
