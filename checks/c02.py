"""C02: the recorded activation tree is the tree of calls that really ran.

Oracle: the same script, instrumented by lib/oracle.py, under plain Python."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from tracecmp import *  # noqa


def body(c):
    n, budget = (110, 100) if not c.thorough else (2500, 780)
    items = workload(c, n)

    def judge(label, prog, p):
        mapping, diffs = match_activations(p)
        bdiffs, blocks = compare_blocks(p, mapping)
        for d in diffs[:3]:
            c.violation("calls", "%s: %s" % (label, d), replay(label, prog, diffs))
        if not diffs:
            for d in bdiffs[:3]:
                c.violation("definition", "%s: %s" % (label, d), replay(label, prog, bdiffs))
        extra = [i for i in p.st.acts if i not in set(mapping.values())]
        if not diffs and extra:
            c.violation("calls", "%s: recorded activations that never ran: %s" % (
                label, [(i, p.st.acts[i]["name"]) for i in extra[:5]]), replay(label, prog, []))
        a = p.trace["acts"]
        c.observe(key=shape(p), nontrivial=len(a) > 3, n=len(a), programs=1, activations=len(a), code_blocks=blocks,
                  internal_calls=sum(x[3] == "internal" for x in a), failed_scripts=int(bool(p.trace["error"])),
                  max_depth=0, generators=sum(bool(x[9]) for x in a),
                  sample={"case": label, "activations": len(a), "names": sorted({x[1] for x in a})[:12]})
    drive(c, items, judge, budget, max_events=20000)


if __name__ == "__main__":
    chk = Check("C02", "exercised", "one case = one program; distinct call trees (names and parents) with more than 3 activations", 500)
    sys.exit(main(chk, body))
