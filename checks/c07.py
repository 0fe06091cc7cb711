"""C07: stored content always reads back unchanged, for every content engine.

Monitor: a map (identifier -> bytes) follows random histories of put/get/find/list/close/commit/gc over
several processes (some of them concurrent, some using threads), for every engine; after committing,
objects are aged, so that garbage collection would remove what is not referenced."""
import base64
import json
import os
import subprocess
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from runs import *  # noqa
import content
import corpus

ENGINES = ["plain", "sequential_pygit", "pygit", "pool_pygit", "threading_pygit", "dulwich", "distributed_dulwich",
           "pool_dulwich", "threading_dulwich", "puregit", "gitdb"]
DRIVER = os.path.join(VERIF, "lib", "engine_driver.py")
NAMES = ["a.txt", "b/c.txt", "b", "a.txt/d", "b/c.txt - file", "/etc/zz", "é ü.txt", ".git/config", "x/.git", "../up.txt", "generic", " s ",
         "L" * 300, "/".join(["d" * 200] * 25), "a.txt - v2", "bad\udcff", "q\"uote", "new\nline", "tab\t", "-dash", "~/home", "a//b", "./a.txt", "HEAD", "git~1", "a:b", "*"]


def b64(data):
    return base64.b64encode(data).decode()


def payload(rng, pool_):
    kind = rng.random()
    if kind < 0.3 and pool_:
        return rng.choice(pool_)
    if kind < 0.36:
        return b""
    if kind < 0.45 and pool_:  # one byte of difference
        base = bytearray(rng.choice(pool_) or b"z")
        base[rng.randrange(len(base))] ^= 1 << rng.randrange(8)
        return bytes(base)
    if kind < 0.5 and pool_:
        return rng.choice(pool_) + rng.choice([b"\n", b"\r\n", b"\0", b" "])
    if kind < 0.55:
        return os.urandom(0) + bytes(rng.getrandbits(8) for _ in range(rng.choice([4095, 4096, 4097, 65536, 70001])))
    if kind < 0.58:
        return rng.choice([b"ab\n", b"\0"]) * rng.choice([100000, 1500000])
    if kind < 0.65:
        return rng.choice([b"tree 4\0abcd", b"blob 3\0abc", b"100644 x\0" + b"\1" * 20, b"\xff\xfe\0x", b"\r\n\r", b"\x1a", b"ref: refs/heads/x\n", b"\n", b"$Id$\n"])
    return bytes(rng.choice(b"abc\n\r\0\xff\x80 ") for _ in range(rng.randint(1, 60)))


class Model(object):
    def __init__(self):
        self.map = {}      # id -> bytes
        self.rev = {}      # bytes -> id
        self.safe = set()  # committed

    def stored(self, data, cid, bad):
        if not isinstance(cid, str):
            bad.append(("put-identifier", "put returned %r" % (cid,)))
            return
        if self.rev.setdefault(data, cid) != cid:
            bad.append(("identifier-not-stable", "equal content got identifiers %s and %s" % (self.rev[data], cid)))
        if self.map.setdefault(cid, data) != data:
            bad.append(("identifier-collision", "different contents got identifier %s" % cid))


def session_ops(rng, model, data_pool, size, kind):
    """operations and, for each one, how to judge it"""
    ops = []
    known = list(model.map)
    fresh = []
    for _ in range(size):
        x = rng.random()
        if x < 0.5:
            data = payload(rng, data_pool)
            data_pool.append(data)
            fresh.append(data)
            if rng.random() < .1:
                ops.append(["put_noname", b64(data)])
            else:
                ops.append(["put", b64(data), rng.choice(NAMES)])
        elif x < 0.56:
            groups = []
            for _ in range(rng.randint(2, 5)):
                items = []
                for _ in range(rng.randint(1, 4)):
                    data = payload(rng, data_pool)
                    if len(data) > 10 ** 5:
                        data = data[:1000]
                    data_pool.append(data)
                    items.append([b64(data), rng.choice(NAMES)])
                groups.append(items)
            ops.append(["threads", groups])
        elif x < 0.72 and (known or fresh):
            if fresh and rng.random() < .6:
                ops.append(["getdata", b64(rng.choice(fresh))])
            elif known:
                ops.append(["get", rng.choice(known)])
        elif x < 0.86 and (known or fresh):
            if fresh and rng.random() < .5:
                ops.append(["finddata", b64(rng.choice(fresh)), rng.choice([2, 4, 7, 12, 39, 40])])
            elif known:
                ops.append(["find", rng.choice(known)[:rng.choice([2, 4, 7, 12, 39, 40])]])
            if rng.random() < .1:
                ops.append(["find", rng.choice(["ffffffffff", "00000000000000", "zz", "master", "HEAD", "abcdefabcdef"])])
            if rng.random() < .15:
                ops.append(["find", "".join(rng.choice("0123456789abcdef") for _ in range(rng.choice([4, 40])))])
        elif x < 0.92:
            ops.append(["list"])
        elif x < 0.95:
            ops.append(["close"])
        elif x < 0.98:
            ops.append(["commit", rng.choice(["m", "", "é\n\nlong", "-x"])])
        else:
            ops.append(["gc"])
    if kind == "run":
        ops += [["commit", "Trial x"], ["close"]]
    else:
        ops += [["close"]]
    return ops


def judge(ops, res, model, listed_exact, engine, bad, before=None):
    """check the results of a session against the model; returns number of observations
    (before: identifiers known when the session started; contents of concurrent sessions may appear at any time)"""
    n = 0
    whole, model = model, Model()
    for cid in (whole.map if before is None else before):
        model.map[cid] = whole.map[cid]
        model.rev[whole.map[cid]] = cid
    try:
        return judge_session(ops, res, model, listed_exact, engine, bad, n, whole)
    finally:
        for cid, data in model.map.items():
            whole.stored(data, cid, bad)


def judge_session(ops, res, model, listed_exact, engine, bad, n, whole):
    for op, r in zip(ops, res):
        n += 1
        kind = op[0]
        if r is None or "error" in (r or {}):
            if kind in ("get", "getdata", "put", "put_noname", "find", "finddata", "list", "commit", "gc", "close", "threads"):
                bad.append((kind + "-error", "%s %r failed: %s" % (kind, op[1:] if kind != "threads" else "", (r or {}).get("error"))))
            continue
        if kind in ("put", "put_noname"):
            model.stored(base64.b64decode(op[1]), r["id"], bad)
        elif kind == "threads":
            for items, got in zip(op[1], r["ids"]):
                for (d, _), g in zip(items, got or [None] * len(items)):
                    n += 1
                    if g is None or "error" in g:
                        bad.append(("put-error", "concurrent put failed: %s" % (g or {}).get("error")))
                    else:
                        model.stored(base64.b64decode(d), g["id"], bad)
        elif kind in ("get", "getdata"):
            want = base64.b64decode(op[1]) if kind == "getdata" else whole.map.get(op[1])
            if r.get("type") == "str":
                bad.append(("get-type", "get returned text"))
            got = base64.b64decode(r["data"])
            if got != want:
                bad.append(("get-content", "%s returned %d bytes %r instead of %d bytes %r" % (kind, len(got), got[:40], len(want), want[:40])))
        elif kind in ("find", "finddata"):
            prefix = r["prefix"] if kind == "finddata" else op[1]
            matches = [i for i in model.map if i.startswith(prefix)]
            got = r["id"]
            if got is None:
                # an engine may refuse an ambiguous abbreviation, and git engines know other objects
                if len(matches) == 1 and len(prefix) >= 12:
                    bad.append(("find-missing", "find_subhash(%r) found nothing, %s is stored" % (prefix, matches[0])))
            elif not got.startswith(prefix) and len(prefix) == len([x for x in prefix if x in "0123456789abcdef"]):
                bad.append(("find-wrong", "find_subhash(%r) -> %r" % (prefix, got)))
            elif got not in matches and (engine == "plain" and listed_exact):
                bad.append(("find-unknown", "find_subhash(%r) -> %r, which was never stored" % (prefix, got)))
            elif len(prefix) >= 12 and matches and got not in matches:
                bad.append(("find-wrong", "find_subhash(%r) -> %r" % (prefix, got)))
        elif kind == "list":
            ids = r["ids"]
            if len(ids) != len(set(ids)):
                bad.append(("list-duplicates", "listing has repeated identifiers"))
            missing = set(model.map) - set(ids)
            if missing:
                bad.append(("list-missing", "%d of %d stored contents are not listed: %s" % (len(missing), len(model.map), sorted(missing)[:2])))
            if listed_exact and set(ids) - set(model.map):
                bad.append(("list-extra", "listing has contents that were never stored: %s" % sorted(set(ids) - set(model.map))[:2]))
    return n


def age(base):
    """Make all stored objects old"""
    old = time.time() - 90 * 86400
    for dirname, _, files in os.walk(os.path.join(base, ".noworkflow")):
        if "objects" in dirname:
            for f in files:
                try:
                    os.utime(os.path.join(dirname, f), (old, old))
                except OSError:
                    pass


def session(base, engine, ops, timeout=90):
    out = os.path.join(new_dir("o"), "o.json")
    r = pool().pyexec(base, DRIVER, {"engine": engine, "ops": ops, "out": out}, timeout=timeout)
    try:
        with open(out) as fil:
            return json.load(fil), r
    except Exception:
        return None, r


def engine_history(c, i):
    rng = c.rng("engine", i)
    engine = ENGINES[i % len(ENGINES)]
    model, bad, log = Model(), [], []
    data_pool = []
    small = engine in ("puregit", "gitdb")  # these run git commands for each operation
    with scratch() as d:
        for step in range(rng.randint(2, 4)):
            workers = 1 if rng.random() < .6 else rng.randint(2, 3)
            size = rng.randint(4, 12 if small else 25)
            todo = []
            for _ in range(workers):
                kind = "run" if workers == 1 else "plain"  # trials commit at the end
                ops = session_ops(rng, model, data_pool, size if workers == 1 else size // 2 + 1, kind)
                if workers > 1:
                    ops = [o for o in ops if o[0] not in ("commit", "gc")]
                todo.append(ops)
            if workers > 1 and step == 0:
                session(d, engine, [])  # concurrent creation of the databases is not a content operation
            res = [None] * workers
            snap = dict(model.map)

            def go(k):
                res[k] = session(d, engine, todo[k])
            ths = [threading.Thread(target=go, args=(k,)) for k in range(workers)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            if any(r[1].timeout for r in res):
                c.count(timeouts=1)
                bad.append(("hang", "content operations did not finish in 90 s (%s)" % engine)) if not small else None
                break
            for ops, (got, r) in zip(todo, res):
                log.append({"engine": engine, "ops": ops})
                if got is None:
                    bad.append(("session-died", "content session of %s ended without results: %s" % (engine, r.err[-300:])))
                    continue
                c.observe(key=(engine, i, step), n=judge(ops, got, model, workers == 1, engine, bad, snap), sessions=1,
                          concurrent=int(workers > 1), **{"engine_" + engine: 1})
            if workers > 1 and not bad:  # make everything stored by the concurrent processes referenced
                ops = [["put", b64(data), "c%d" % k] for k, data in enumerate(model.rev) if model.rev[data] not in snap] + [["commit", "c"]]
                got, r = session(d, engine, ops)
                bad += [] if got else [("session-died", "commit session died: " + r.err[-300:])]
                judge(ops, got or [], model, False, engine, bad)
            if bad:
                break
            if rng.random() < .4:
                age(d)
            ops = [["gc"] + rng.choice([[], [], [True]])] if rng.random() < .6 else []
            ops += [["get", i_] for i_ in model.map] + [["list"]]
            ops += [["find", rng.choice(list(model.map))] for _ in range(2 if model.map else 0)]
            got, r = session(d, engine, ops)
            log.append({"engine": engine, "ops": ops})
            if got is None:
                if not r.timeout:
                    bad.append(("session-died", "reading session of %s ended without results: %s" % (engine, r.err[-300:])))
                break
            c.observe(n=judge(ops, got, model, True, engine, bad), reads_back=len(model.map), contents=len(model.map))
            probs, _ = content.check_store(d)
            for p in probs:
                bad.append(("store", p))
            if bad:
                break
        for mech, msg in bad[:3]:
            c.violation(mech, "[%s] %s" % (engine, msg), log)


def command_history(c, i):
    """contents that trials reference survive later runs, restores and garbage collection"""
    rng = c.rng("command", i)
    engine = rng.choice([None, "plain", "sequential_pygit", "dulwich", "puregit"])
    names = sorted(corpus.CASES)
    bad, log, seen = [], [], {}
    with scratch() as d:
        runs = 0
        for step in range(rng.randint(2, 4)):
            x = rng.random()
            eng = ["--content-engine", engine] if engine else []
            if x < .6 or not runs:
                prog = {"files": dict(corpus.MODS, **{"script.py": rng.choice([corpus.CASES[rng.choice(names)], "open('o%d.txt','w').write('r%d')\nprint(open('o%d.txt').read())\n" % (step, i, step)])}), "stdin": "", "args": []}
                res = run_now(d, prog["files"], "", [], [], engine, timeout=40)
                log.append(prog["files"]["script.py"])
                runs += 1
            elif x < .75:
                res = pool().now(d, "restore", str(rng.randint(1, runs)), *eng)
                log.append("restore")
            else:
                if rng.random() < .7:
                    age(d)
                res = pool().now(d, "gc", *(rng.choice([[], ["--aggressive"]]) + eng), timeout=60)
                log.append("gc")
            if res.timeout or not os.path.exists(d + "/.noworkflow/db.sqlite"):
                return
            db = DB(d)
            hashes = set()
            for t in db.rows("select id, status from trial where status in ('finished', 'backup')"):
                for tab, col in (("code_block", "code_hash"), ("file_access", "content_hash_before"), ("file_access", "content_hash_after")):
                    hashes |= {r["h"] for r in db.rows("select distinct %s as h from %s where trial_id=?" % (col, tab), t["id"]) if r["h"]}
            db.close()
            for h in sorted(hashes):
                data = content.read(d, h)
                if data is None:
                    bad.append(("trial-content-lost", "content %s that a finished trial references is unreadable after %s" % (h, log[-1][:30])))
                elif seen.setdefault(h, data) != data:
                    bad.append(("trial-content-changed", "content %s changed" % h))
            c.observe(key=("cmd", i, step), n=len(hashes), commands=1, referenced_contents=len(hashes))
            if bad:
                break
        for mech, msg in bad[:2]:
            c.violation(mech, "[%s] %s" % (engine, msg), {"engine": engine, "history": log})


def body(c):
    n, m, budget = (66, 24, 70) if not c.thorough else (1400, 300, 780)
    jobs = [(engine_history, i) for i in range(n)]
    step = max(1, n // m)
    for k in range(m):
        jobs.insert(min(len(jobs), k * (step + 1)), (command_history, k))

    def go(job):
        if c.elapsed() > budget:
            c.count(skipped_by_time=1)
            return
        job[0](c, job[1])
    pool().map(go, jobs)


main(Check("C07", "exploration",
           "every identifier returned by put reads back, lists and is found as exactly the bytes stored, in the same or later processes, after commits and garbage collection",
           min_eval=200), body)
