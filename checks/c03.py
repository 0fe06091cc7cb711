"""C03: every recorded evaluation holds the value Python computed there, in order.

Oracle: the same script, instrumented by lib/oracle.py, under plain Python."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from tracecmp import *  # noqa


def body(c):
    n, budget = (110, 100) if not c.thorough else (2500, 780)
    items = workload(c, n)

    def judge(label, prog, p):
        mapping, adiffs = match_activations(p)
        if adiffs:
            # the tree is decided by C02; without it values cannot be attributed
            c.count(trees_differ=1)
            mapping = None
        diffs = compare_values(p, mapping) if mapping is not None else compare_multisets(p)
        for d in diffs[:3]:
            c.violation("values", "%s: %s" % (label, d), replay(label, prog, diffs))
        ev = p.trace["evs"]
        types = {p.trace["nodes"][e[0]][0] for e in ev if e[0] >= 0}
        c.observe(key=[(e[0], e[2]) for e in ev], nontrivial=len(ev) > 10, n=len(ev), programs=1, values=len(ev),
                  failed_scripts=int(bool(p.trace["error"])),
                  sample={"case": label, "values": len(ev), "types": sorted(types)})
    drive(c, items, judge, budget, max_events=20000)


if __name__ == "__main__":
    chk = Check("C03", "exercised", "one case = one program; distinct sequences of (position, value) with more than 10 values", 2000)
    sys.exit(main(chk, body))
