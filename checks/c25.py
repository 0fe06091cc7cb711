"""C25: recorded members are the contents that lists, tuples, dictionaries and sets had.

Oracle: container operations of the same script, logged by lib/oracle.py, under plain Python."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from tracecmp import *  # noqa


def body(c):
    n, budget = (200, 100) if not c.thorough else (4000, 780)
    items = workload(c, n, ("flow", "trace"), corpus_too=False, sizes=(0.5, 0.8, 1.2))

    def judge(label, prog, p):
        mapping, adiffs = match_activations(p)
        if adiffs:
            c.count(trees_differ=1)
            return
        diffs, num = compare_members(p, mapping)
        for kind, d in diffs[:3]:
            c.violation(kind, "%s: %s" % (label, d), replay(label, prog, diffs))
        total = num["displays"] + num["puts"] + num["reads"]
        c.observe(key=[(m[1], m[2]) for m in p.trace["members"]], nontrivial=total > 5, n=total, programs=1,
                  sample=dict(num, case=label), **num)
    drive(c, items, judge, budget, max_events=8000)


if __name__ == "__main__":
    chk = Check("C25", "exercised", "one case = one program; distinct sequences of container changes with more than 5 operations", 500)
    sys.exit(main(chk, body))
