"""C28: cells of a notebook behave as without capture and are recorded.

The same cells run in IPython and in noWorkflow's kernel shell; results, outputs, errors, In, Out and variables are compared
cell by cell, and the stored cells, activations and values with what ran."""
import ast
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from tracecmp import *  # noqa
import content
import gen
from c27 import answer, notebook

DRIVER = os.path.join(VERIF, "lib", "notebook_driver.py")
FIXED = ["_", "__", "Out", "len(In)", "_ih[-1]", "In[1]", "x = 5;", "x = 5\nx;", "(1 +", "def f(:\n  pass", "1/0", "raise ValueError('cell')", "!echo hi", "y = !echo two\ny",
         "%%capture cap\nprint('in')\n3", "cap.stdout", "from IPython.display import display\ndisplay(3)\n4", "import asyncio\nawait asyncio.sleep(0)\n7", "async def co():\n    return 3\nawait co()",
         "for i in range(3):\n    i", "if True:\n    8", "# comment", "", "  \n", "def g():\n    return _\ng()", "class A(object):\n    def m(self):\n        return self.v\n    v = 3\nA().m()",
         "'''text\nlines'''", "\"\u00e9\u4f60\"", "print('a', end='')", "None", "a = b = [1, 2]\na.append(3)\nb", "import sys\nsys.exit(3)", "del x", "z = 3\ndel z\nz", "get_ipython().run_cell('q = 4')\nq",
         "%time 3 + 4" if False else "3 + 4", "lambda v: v", "[k for k in range(4)]", "with open('f.txt', 'w') as fil:\n    fil.write('x')\nopen('f.txt').read()",
         "global gg\ngg = 4\ngg", "try:\n    1/0\nexcept ZeroDivisionError as e:\n    r = str(e)\nr", "def gen_():\n    yield 1\n    yield 2\nlist(gen_())", "assert False, 'msg'",
         "import helper_mod\nhelper_mod.V", "from helper_mod import *\nh(3)", "%load_ext noworkflow" if False else "4 if x else 5", "x: int = 6\nx", "(n := 10)\nn", "_ + 1", "_i", "_oh[max(_oh)]" if False else "sorted(_oh)[:3]",
         "def rec(n):\n    return n if n < 1 else rec(n - 1)\nrec(5)", "@staticmethod\ndef st():\n    return 1\nst()", "x = 1\nx += 2\nx", "print(__name__)", "'%s' % (3,)", "%who_ls int"]


def cells_of(rng):
    """Cells of a random notebook"""
    p = rng.random()
    cells = []
    if p < .5:
        prog = gen.program(rng, rng.choice(["general", "trace"]), rng.choice([.3, .6, 1]))
        if not prog["stdin"] and len(prog["files"]) == 1:
            src = prog["files"]["script.py"]
            try:
                body = ast.parse(src).body
            except SyntaxError:
                body = []
            lines = src.split("\n")
            starts = [min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])]) for n in body]
            ok = len(set(starts)) == len(starts) and all(b.end_lineno < s for b, s in zip(body, starts[1:]))
            k = 0
            while ok and k < len(body):
                n = rng.choice([1, 1, 2, 3, 6])
                end = starts[k + n] - 1 if k + n < len(body) else len(lines)
                cells.append("\n".join(lines[starts[k] - 1:end]))
                k += n
    if not cells:
        cells = notebook(rng) if p < .8 else []
    for _ in range(rng.choice([2, 5, 12])):
        cells.insert(rng.randrange(len(cells) + 1), rng.choice(FIXED))
    for _ in range(rng.choice([0, 0, 2])):
        cells.insert(rng.randrange(len(cells) + 1), rng.choice(cells))
    return [{"source": s, "history": rng.random() > .07} for s in cells[:40]]


def clean(value):
    value = strip_addr(value or "")
    value = re.sub(r"<ipython-input-\d+-\w+>", "<cell>", value)
    return norm(value)




def case(c, i):
    rng = c.rng("cells", i)
    cells = cells_of(rng)
    label = "notebook:%d" % i
    rep = {"cells": cells, "how": "lib/notebook_driver.py with capture true and false"}
    files = {"helper_mod.py": "V = 9\ndef h(a):\n    return a + V\n"}
    with scratch("nb") as d, scratch("nb") as e:
        write_files(d, files)
        write_files(e, files)
        env = {"PYTHONHASHSEED": "0"}
        res = pool().pyexec(e, DRIVER, {"cells": cells, "capture": False}, timeout=90, env=env)
        plain = answer(res)
        if plain is None:
            c.count(not_comparable=1)
            return
        res = pool().pyexec(d, DRIVER, {"cells": cells, "capture": True}, timeout=120, env=env)
        got = answer(res)
        if got is None:
            if not res.timeout:
                c.violation("session", "%s: the session dies: %s" % (label, (res.err or res.out)[-400:]), rep)
            return
        bad = 0
        for k, (a, b) in enumerate(zip(plain["cells"], got["cells"])):
            for field in ("count", "result", "error", "message", "out"):
                if a["error"] == "SyntaxError" and field in ("message", "out"):
                    continue
                x, y = [clean(str(v[field])).replace(e, "HERE").replace(d, "HERE") for v in (a, b)]
                if x != y:
                    bad += 1
                    if bad <= 2:
                        c.violation("behaviour:" + field, "%s cell %d %r: %s is %r, in IPython %r" % (label, k, cells[k]["source"][:80], field, y[:150], x[:150]), rep)
        for name in sorted(set(plain["names"]) | set(got["names"])):
            x, y = [clean(v["names"].get(name, "missing")).replace(e, "HERE").replace(d, "HERE") for v in (plain, got)]
            if x != y and not bad:
                bad += 1
                c.violation("behaviour:names", "%s: %s is %r at the end, in IPython %r" % (label, name, y[:150], x[:150]), rep)
        # records
        db = DB(d)
        trials = db.rows("select * from trial")
        blocks = db.rows("select c.id, c.name, c.type, b.code_hash from code_component c join code_block b on b.trial_id=c.trial_id and b.id=c.id where c.type='cell' order by c.id")
        acts = db.rows("select a.id, a.name, a.code_block_id, e.repr, e.activation_id, e.checkpoint from activation a join evaluation e on e.trial_id=a.trial_id and e.id=a.id order by a.id")
        db.close()
        if len(trials) != 1 or trials[0]["status"] != "finished":
            c.violation("trial", "%s: the session left the trials %s" % (label, [(t["id"], t["status"]) for t in trials]), rep)
        ran = [(k, r) for k, r in enumerate(got["cells"]) if cells[k]["history"] and not (r["error"] in ("SyntaxError", "IndentationError", "TabError") or r["error"].startswith("SHELL"))]
        ran = [(k, r) for k, r in ran if cells[k]["source"].strip()]
        numbers = [int(b["name"].split("-")[2]) for b in blocks]
        want = [r["count"] for _, r in ran]
        invalid = {r["count"] for k, r in enumerate(got["cells"]) if cells[k]["history"] and r["error"] in ("SyntaxError", "IndentationError", "TabError")}
        nested = any("run_cell(" in x["source"] for x in cells)
        if not nested and [n for n in numbers if n not in invalid] != want:
            c.violation("cells", "%s: cells recorded are %s, cells that ran are %s" % (label, numbers, want), rep)
        elif not nested:
            byn = {n: b for n, b in zip(numbers, blocks)}
            for k, r in ran:
                b = byn[r["count"]]
                src = cells[k]["source"]
                data = content.read(d, b["code_hash"])
                plain_code = not re.search(r"^\s*[!%]|= ?!|\?\s*$", src, re.M)
                if data is None or (plain_code and data.decode("utf-8").strip() != src.strip()):
                    c.violation("content", "%s: cell %d is stored as %r, it ran %r" % (label, r["count"], (data or b"")[:100], src[:100]), rep)
                mine = [a for a in acts if a["code_block_id"] == b["id"]]
                if len(mine) != 1:
                    c.violation("activations", "%s: cell %d has %d activations" % (label, r["count"], len(mine)), rep)
                elif r["error"] == "NoneType" and r["result"] != "None" and strip_addr(mine[0]["repr"]) != strip_addr(r["result"]):
                    c.violation("values", "%s: cell %d %r has the value %s, its result was %s" % (label, r["count"], src[:60], mine[0]["repr"], r["result"]), rep)
                c.count(cells_checked=1)
        c.observe(key=[(r["error"], bool(r["result"] != "None")) for r in got["cells"]], nontrivial=len(ran) > 3, n=len(cells), notebooks=1,
                  cells_failed=sum(r["error"] != "NoneType" for r in got["cells"]), cells_without_history=sum(not x["history"] for x in cells),
                  sample={"case": label, "cells": [x["source"][:40] for x in cells[:6]]})


def body(c):
    n = 60 if not c.thorough else 2500

    def one(i):
        if c.elapsed() > (float(os.environ.get("C28_T", 36)) if not c.thorough else 600):
            c.count(skipped_by_time=1)
        else:
            case(c, i)
    pool().map(one, range(n))


if __name__ == "__main__":
    chk = Check("C28", "exercised", "one case = one notebook, in IPython and in the kernel shell; distinct sequences of outcomes", 25)
    sys.exit(main(chk, body))
