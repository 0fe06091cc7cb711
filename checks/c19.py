"""C19: how often provenance is saved during a run does not change what is recorded.

Monitor: the rows of a run that saves at the end vs the rows of runs of the same program that save partially
at injected points (the collector's clock jumps, so that -s is due exactly there)."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from runs import *  # noqa
import corpus
import rows

PROBE = os.path.join(VERIF, "lib", "saves_probe.py")
SKIP = {"memaddr", "ids", "times"}


def programs(c, n):
    names = sorted(corpus.CASES)
    for i in range(n):
        rng = c.rng("prog", i)
        if i < len(names) * (2 if c.thorough else 0) or i % 3 == 0:
            name = names[(i * 7 + c.seed) % len(names)]
            yield i, rng, "corpus:" + name, dict(corpus.MODS, **{"script.py": corpus.CASES[name]}), "", []
        else:
            prof = rng.choice(["general", "trace", "flow"])
            prog = gen.program(rng, prof, rng.choice([.4, .8, 1.2]))
            yield i, rng, "gen:%s:%d" % (prof, i), prog["files"], prog["stdin"], prog["args"]


def one(c, base, files, stdin, args, opts, probe):
    out = os.path.join(new_dir("o"), "o.json")
    d = os.path.join(base, "d")  # the same path in all runs
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    res = run_now(d, files, stdin, args, opts, timeout=30, probe=PROBE, probe_args=dict(probe, out=out))
    if res.timeout or not os.path.exists(d + "/.noworkflow/db.sqlite"):
        return None, None, None
    db = DB(d)
    trials = db.rows("select id, status, main_id from trial")
    got = rows.dump(db, trials[0]["id"])
    db.close()
    stats = {}
    if os.path.exists(out):
        with open(out) as fil:
            stats = json.load(fil)
    return res, (len(trials), trials[0]["status"], trials[0]["main_id"], got), stats


def body(c):
    n, budget = (20, 50) if not c.thorough else (2000, 780)

    def go(item):
        i, rng, name, files, stdin, args = item
        if c.elapsed() > budget:
            c.count(skipped_by_time=1)
            return
        opts = list(rng.choice([(), (), (), ("-d", "1"), ("-d", "2"), ("-d", "3"), ("-c", "package")]))
        t0 = c.elapsed()
        with scratch() as base:
            seed = rng.randrange(10 ** 6)
            res0, first, st = one(c, base, files, stdin, args, opts + ["-s", "0"], {"seed": seed, "mode": "at", "at": []})
            if first is None:
                c.count(unusable=1); os.environ.get("VERIF_DEBUG") and print("UNUSABLE", name)
                return
            res1, again, _ = one(c, base, files, stdin, args, opts + ["-s", "0"], {"seed": seed, "mode": "at", "at": []})
            if again is None or rows.differences(first[3], again[3]) or res0.out != res1.out:
                c.count(nondeterministic=1)
                return
            total = max(2, st.get("readings", 100))
            plans = [{"mode": "p", "p": min(rng.choice([.02, .1]), 30. / total)}, {"mode": "p", "p": min(.5, 80. / total)}]
            for _ in range(2 if not c.thorough else 6):
                plans.append({"mode": "at", "at": sorted(rng.sample(range(9, total + 12), rng.randint(1, 3)))})
            if total < 250:
                plans.append({"mode": "p", "p": 1.0})
            for plan in plans:
                plan["seed"] = rng.randrange(10 ** 6)
                freq = rng.choice(["1000", "1", "50000"])
                res, got, stats = one(c, base, files, stdin, args, opts + ["-s", freq] + rng.choice([[], [], ["-S", "3"]]), plan)
                replay = {"files": files, "stdin": stdin, "args": args, "opts": opts, "freq": freq, "plan": plan}
                if got is None:
                    if res is None:
                        c.count(timeouts=1)
                    continue
                nrows = sum(len(v) for v in first[3].values())
                c.observe(key=(i, json.dumps(plan)), n=nrows, nontrivial=bool(stats.get("partial")), runs=1,
                          partial_saves=stats.get("partial", 0), clock_jumps=stats.get("jumps", 0),
                          sample={"program": name, "plan": plan["mode"], "stats": stats, "rows": nrows})
                if split_tail(res.out)[0] != split_tail(res0.out)[0]:
                    c.violation("output", "%s: partial saves change the output of the script (%s)" % (name, res.err[-200:]), replay)
                    break
                if got[:3] != first[:3]:
                    c.violation("trial", "%s: trials, status, main block are %r, %r when saving at the end" % (name, got[:3], first[:3]), replay)
                    break
                diff = rows.differences(first[3], got[3])
                if diff:
                    tab, a, b, ex = diff[0]
                    c.violation(tab, "%s %s: %d %s rows lost or changed, %d new; saving at the end (first) vs partially (second): %s" % (
                        name, opts, a, tab, b, ex), replay)
                    break
        if os.environ.get("VERIF_DEBUG"):
            print("%s %.1f-%.1f" % (name, t0, c.elapsed()), flush=True)
    pool().map(go, programs(c, n))
    if not c.counters.get("partial_saves") and not c.violations:
        c.problem("no partial save was observed")


main(Check("C19", "exploration",
           "the rows stored with partial saves at injected points equal the rows stored when saving only at the end",
           min_eval=5000), body)
