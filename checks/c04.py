"""C04: recorded dependencies connect results to the values they were computed from, and nothing else.

Oracle: dynamic data flow of the same script, instrumented by lib/oracle.py, under plain Python."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from tracecmp import *  # noqa


def body(c):
    n, budget = (150, 100) if not c.thorough else (4000, 780)
    items = workload(c, n, ("flow",), corpus_too=False, sizes=(0.4, 0.7, 1.0))

    def judge(label, prog, p):
        mapping, adiffs = match_activations(p)
        if adiffs:
            c.count(trees_differ=1)
            return
        missing, invented, pairs = compare_deps(p, mapping)
        for d in missing[:3]:
            c.violation("lost-derivation", "%s: %s" % (label, d), replay(label, prog, missing))
        for d in invented[:3]:
            c.violation("invented-derivation", "%s: %s" % (label, d), replay(label, prog, invented))
        must = sum(len(e[3]) for e in p.trace["evs"])
        c.observe(key=[(e[0], tuple(e[3])) for e in p.trace["evs"]], nontrivial=must > 10, n=pairs, programs=1,
                  derivations=must, pairs=pairs,
                  sample={"case": label, "derivations": must, "pairs": pairs})
    drive(c, items, judge, budget, max_events=2500)


if __name__ == "__main__":
    chk = Check("C04", "exercised", "one case = one program; distinct dynamic data-flow graphs with more than 10 required derivations", 5000)
    sys.exit(main(chk, body))
