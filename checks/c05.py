"""C05: every reference in the stored provenance resolves and record order agrees with time.

Monitor: invariants over the raw rows after every command of random histories of runs
(normal, failing, limited, periodically saved, in several contexts and engines) and restores."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from runs import *  # noqa
import content
import corpus
import invariants

OPTS = [(), (), ("-S", "1"), ("-S", "5"), ("-s", "1"), ("-d", "1"), ("-d", "2"), ("-d", "3"), ("-c", "package"),
        ("--name", "other"), ("-S", "2", "-d", "2"), ("-s", "5", "-c", "package"), ("-c", "all")]


def body(c):
    n, budget = (64, 60) if not c.thorough else (1500, 780)
    names = sorted(corpus.CASES)

    def history(i):
        if c.elapsed() > budget:
            c.count(skipped_by_time=1)
            return
        rng = c.rng("hist", i)
        engine = rng.choice(["plain", "plain", "plain", "plain", None, "sequential_pygit", "dulwich"])
        with scratch() as d:
            done, known = [], {}
            for step in range(rng.randint(2, 5)):
                kind = rng.random()
                eng = (["--content-engine", engine] if engine else [])
                if kind < 0.2 and done:
                    args = ["restore", str(rng.randint(1, len(done)))] + rng.choice([[], ["-s"], ["-i"], ["-m"]]) + eng
                    res = pool().now(d, *args)
                    done.append((args, None))
                elif kind < 0.3 and done:
                    args = ["gc"] + eng if rng.random() < .5 else ["list"]
                    res = pool().now(d, *args)
                    done.append((args, None))
                else:
                    if rng.random() < 0.3:
                        prog = {"files": dict(corpus.MODS, **{"script.py": corpus.CASES[rng.choice(names)]}), "stdin": "", "args": []}
                    else:
                        prog = gen.program(rng, rng.choice(["general", "trace", "flow"]), rng.choice([.4, .8]))
                    opts = list(rng.choice(OPTS))
                    if rng.random() < 0.25 and done:
                        opts.append("-b")
                    res = run_now(d, prog["files"], prog["stdin"], prog["args"], opts, engine, timeout=40)
                    done.append((opts, prog["files"]["script.py"]))
                if res.timeout:
                    c.count(timeouts=1)
                    break
                path = d + "/.noworkflow/db.sqlite"
                if not os.path.exists(path):
                    break
                has = {}

                def stored(h):
                    if h not in has:
                        has[h] = content.read(d, h) is not None
                    return has[h]
                lazy = any("async" in (s or "") for _, s in done)
                bad, seen = invariants.check_db(path, content=stored)
                db = DB(d)
                last = db.last_trial()
                db.close()
                if not lazy:
                    late, total = invariants.order_violations(path, last)
                    seen["dependency-order"] = total
                    bad += [("dependency-order", "%s %r depends (%s) on %s %r, computed later" % (
                        x["t1"], x["n1"], x["type"], x["t2"], x["n2"])) for x in late]
                else:
                    bad = [b for b in bad if b[0] != "call-ends-in-caller"]
                for kind_, msg in bad:
                    c.violation(kind_, msg, {"history": done, "engine": engine})
                c.observe(key=(i, step), n=sum(seen.values()), commands=1, trials=int(done[-1][1] is not None),
                          sample={"records": seen, "last": done[-1][0]} if step == 1 else None)
                if bad:
                    return
    pool().map(history, range(n))


if __name__ == "__main__":
    chk = Check("C05", "exercised", "one case = the database after one command of a history; evaluations = references and orders examined", 5000)
    main(chk, body)
