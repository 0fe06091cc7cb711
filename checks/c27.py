"""C27: merging and cleaning of notebooks keeps cells, their order and their code.

Merge: random pairs of notebooks go through the real merge; every cell carries an identity, and the result is judged by
identities, order and an independent longest common subsequence. Clean: notebooks run in the real kernel shell; the
notebooks that `now clean` writes hold executed cells once, in order, with their code and results; running them again in
plain IPython gives the value that was queried."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa

DRIVER = os.path.join(VERIF, "lib", "notebook_driver.py")
MERGE = os.path.join(VERIF, "lib", "merge_driver.py")


# ------------------------------------------------------------------------------------------------------------------ merge
def cell(rng, ident, texts):
    kind = rng.choice(["code", "code", "code", "markdown", "raw"])
    src = rng.choice(texts)
    if rng.random() < .25:
        src = rng.choice(["\n", " ", ""]) + src + rng.choice(["\n", "  ", "\n\n"])
    res = {"cell_type": kind, "source": src, "metadata": {"ident": ident, "tags": [ident]}}
    if kind == "code":
        res.update({"execution_count": rng.choice([None, 1, 7]), "outputs": rng.choice([[], [{"output_type": "execute_result", "execution_count": 1, "metadata": {}, "data": {"text/plain": ident}}],
                                                                                     [{"output_type": "stream", "name": "stdout", "text": "a\n"}]])})
    return res


def notebooks(rng):
    texts = rng.choice([["a", "b", "c"], ["x = 1", "y = 2", "z", "print(1)", "", "# c"], ["a"], ["c%d" % i for i in range(12)]])
    one = [cell(rng, "h%d" % i, texts) for i in range(rng.choice([0, 1, 2, 3, 5, 8, 12]))]
    if rng.random() < .6:  # an edited copy
        two = []
        for c in one:
            p = rng.random()
            if p < .2:
                continue
            d = json.loads(json.dumps(c))
            if p < .3:
                d["source"] = rng.choice(texts)
            two.append(d)
            if p > .8:
                two.append(cell(rng, "", texts))
        if rng.random() < .3 and len(two) > 1:
            i, j = rng.randrange(len(two)), rng.randrange(len(two))
            two[i], two[j] = two[j], two[i]
    else:
        two = [cell(rng, "", texts) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12]))]
    for i, c in enumerate(two):
        c["metadata"] = {"ident": "o%d" % i}
    if rng.random() < .5:
        one = [c for c in one if c["cell_type"] == "code"]
    return two, one  # original, history


def same(a, b):
    return a["cell_type"] == b["cell_type"] == "code" and a["source"].strip() == b["source"].strip()


def longest(a, b, eq):
    row = [0] * (len(b) + 1)
    for x in a:
        new = [0]
        for j, y in enumerate(b):
            new.append(max(row[j + 1], new[j], row[j] + 1 if eq(x, y) else 0))
        row = new
    return row[-1]


def judge_merge(original, history, before, after, merge_code, cells):
    """-> [(mechanism, message)]"""
    out = []
    ids = [c["metadata"].get("ident") for c in cells]
    byid = {c["metadata"]["ident"]: c for c in original + history + before + after}
    nb, na = len(before), len(after)
    if ids[:nb] != [c["metadata"]["ident"] for c in before] or (na and ids[-na:] != [c["metadata"]["ident"] for c in after]):
        out.append(("merge:around", "cells before or after the merge are not where they belong: %s" % ids))
        return out
    mid = cells[nb:len(cells) - na]
    ids = ids[nb:len(ids) - na]
    twice = sorted({i for i in ids if ids.count(i) > 1}, key=str)
    if twice or None in ids:
        out.append(("merge:cells", "cells kept more than once or made up: %s in %s" % (twice, ids)))
        return out
    for c in mid:
        if c != byid[c["metadata"]["ident"]]:
            out.append(("merge:content", "cell %s changed: %s, it was %s" % (c["metadata"]["ident"], c, byid[c["metadata"]["ident"]])))
    h = [i for i in ids if i[0] == "h"]
    o = [i for i in ids if i[0] == "o"]
    if h != [c["metadata"]["ident"] for c in history]:
        out.append(("merge:history", "the cells of the history are %s" % h))
    for i in ids:
        if i[0] not in "ho":
            out.append(("merge:cells", "unexpected cell %s" % i))
    order = [int(i[1:]) for i in o]
    if order != sorted(order):
        out.append(("merge:original", "the cells of the previous notebook are in the order %s" % o))
    common = longest(original, history, same)
    codes = [c for c in original if c["cell_type"] == "code"]
    kept_code = [i for i in o if byid[i]["cell_type"] == "code"]
    rest = [c["metadata"]["ident"] for c in original if c["cell_type"] != "code"]
    if [i for i in o if byid[i]["cell_type"] != "code"] != rest and order == sorted(order):
        out.append(("merge:original", "cells that are not code in the previous notebook: %s, kept %s" % (rest, o)))
    want = len(codes) - common if merge_code else 0
    if len(kept_code) != want:
        out.append(("merge:common", "%d code cells of the previous notebook kept, expected %d (%d, %d in common)" % (len(kept_code), want, len(codes), common)))
    if not out:  # positions agree with a longest common subsequence
        got = longest(original, mid, lambda a, b: a["metadata"]["ident"] == b["metadata"]["ident"] or (b["metadata"]["ident"][0] == "h" and same(a, b)))
        if got < len(o) + common:
            out.append(("merge:order", "kept cells are not placed between the cells that both notebooks have: %s" % ids))
    return out


def merge_batch(c, k, size):
    cases = []
    for i in range(size):
        rng = c.rng("merge", k, i)
        original, history = notebooks(rng)
        before = [dict(cell(rng, "b%d" % j, ["h"])) for j in range(rng.choice([0, 0, 1, 2]))]
        after = [dict(cell(rng, "a%d" % j, [""])) for j in range(rng.choice([0, 0, 1]))]
        cases.append({"original": original, "history": history, "before": before, "after": after, "first": rng.random() < .5, "merge_code": rng.random() < .5})
    with scratch() as d:
        res = pool().pyexec(d, MERGE, {"cases": cases}, timeout=120)
    data = answer(res)
    if data is None:
        c.problem("merge driver: %s" % (res.err or res.out)[-500:])
        return
    for case, got in zip(cases, data):
        label = "merge:%d" % k
        if "error" in got:
            c.violation("merge:error", "%s: merging fails: %s" % (label, got["error"]), case)
            continue
        for mech, msg in judge_merge(case["original"], case["history"], case["before"], case["after"], case["merge_code"], got["cells"])[:2]:
            c.violation(mech, "%s original_first=%s merge_code=%s: %s" % (label, case["first"], case["merge_code"], msg), case)
        if not got["untouched"]:
            c.violation("merge:inputs", "%s: merging changed its inputs" % label, case)
        shape = [x["metadata"]["ident"] for x in got["cells"]]
        c.observe(key=shape, nontrivial=len(case["original"]) > 1 and len(case["history"]) > 1, n=len(shape), merges=1,
                  cells_in=len(case["original"]) + len(case["history"]), cells_out=len(shape),
                  sample={"original": len(case["original"]), "history": len(case["history"]), "result": shape[:10]})


def answer(res):
    i = res.out.rfind("@@")
    if i < 0:
        return None
    try:
        return json.loads(res.out[i + 2:])
    except ValueError:
        return None


# ------------------------------------------------------------------------------------------------------------------ clean
def notebook(rng):
    """Cells with simple flow; every cell that ends in an expression has a result"""
    cells, names, funcs = [], [], []
    n = rng.randrange(4, 16)
    for k in range(n):
        lines = []
        use = lambda: rng.choice(names) if names and rng.random() < .8 else str(rng.randrange(9))  # noqa
        p = rng.random()
        if p < .35 or not names:
            v = rng.choice(names) if names and rng.random() < .35 else "v%d" % k
            lines.append("%s = %s" % (v, rng.choice(["%s + %s" % (use(), use()), use(), "%s * 2 - %s" % (use(), use()), str(k)])))
            names.append(v)
        elif p < .5:
            f = "f%d" % k
            other = rng.choice(funcs) if funcs and rng.random() < .5 else None
            lines += ["def %s(a, b=%s):" % (f, use()), "    c = a + b + %s" % use(), "    return %s" % ("%s(c)" % other if other else "c")]
            funcs.append(f)
        elif p < .7 and funcs:
            v = "r%d" % k
            lines.append("%s = %s(%s)" % (v, rng.choice(funcs), use()))
            names.append(v)
        elif p < .8:
            v = "t%d" % k
            lines += ["%s = 0" % v, "for i%d in range(3):" % k, "    %s = %s + i%d + %s" % (v, v, k, use())]
            names.append(v)
        elif p < .86:
            lines += ["print(%s)" % use()]
        elif p < .92:
            lines += ["# only a comment"] if rng.random() < .5 else ["undefined_name_%d" % k]
        if rng.random() < .3 and names:
            lines.append(rng.choice(names))
        if not lines:
            lines = [use()]
        cells.append("\n".join(lines) + rng.choice(["", "", "\n", "\n\n"]))
    names = sorted(set(names))
    cells.append(rng.choice(names) if rng.random() < .6 or len(names) < 2 else " + ".join(rng.sample(names, 2)))
    return cells


def clean_case(c, i):
    rng = c.rng("clean", i)
    label = "clean:%d" % i
    cells = notebook(rng)
    for _ in range(rng.choice([0, 0, 3])):
        cells.insert(rng.randrange(len(cells)), rng.choice(cells[:-1]))
    rep = {"cells": cells, "how": "run the cells in the kernel shell (lib/notebook_driver.py), then now clean"}
    with scratch("nb") as d:
        res = pool().pyexec(d, DRIVER, {"cells": [{"source": s} for s in cells], "capture": True}, timeout=90)
        data = answer(res)
        if data is None:
            if not res.timeout:
                c.violation("clean:run", "%s: the notebook does not run: %s" % (label, (res.err or res.out)[-300:]), rep)
            return
        ran = data["cells"]
        count = ran[-1]["count"]
        if ran[-1]["error"] != "NoneType":
            return
        opts, merged = [], None
        if rng.random() < .4:
            opts.append("--header")
        if rng.random() < .4:
            opts.append("--add-empty")
        original = None
        if rng.random() < .4:
            texts = [s for s in cells] + ["# other", "note"]
            original = [cell(rng, "o%d" % k, texts) for k in range(rng.randrange(1, 8))]
            for k, o in enumerate(original):
                o["id"] = "id%d" % k
            write_files(d, {"previous.ipynb": json.dumps({"cells": original, "metadata": {}, "nbformat": 4, "nbformat_minor": 5})})
            opts += ["-j", "previous.ipynb"]
            if rng.random() < .5:
                opts.append("--merge-last")
            merged = rng.random() < .5
            if merged:
                opts.append("--merge-code")
        before = read_tree(d)
        r = pool().now(d, "clean", "-o", "clean.ipynb", "-n", str(count), *opts, timeout=90)
        rep = dict(rep, options=opts)
        if r.timeout:
            return
        try:
            with open(d + "/clean.ipynb") as fil:
                nb = json.load(fil)
        except (OSError, ValueError) as exc:
            c.violation("clean:file", "%s: now clean %s writes no notebook (%s): %s" % (label, opts, exc, (r.out + r.err)[-300:]), rep)
            return
        after = read_tree(d)
        after.pop("clean.ipynb", None)
        if {k: v for k, v in before.items()} != after:
            c.violation("clean:files", "%s: now clean changed other files: %s" % (label, [k for k in set(before) | set(after) if before.get(k) != after.get(k)]), rep)
        got = nb["cells"]
        for x in got:
            x["source"] = "".join(x["source"])
        if "--header" in opts:
            if not got or got[0]["cell_type"] != "markdown" or not got[0]["source"].startswith("# History"):
                c.violation("clean:header", "%s: no header in the notebook" % label, rep)
                return
            got = got[1:]
        if "--add-empty" in opts:
            if not got or got[-1]["cell_type"] != "code" or got[-1]["source"]:
                c.violation("clean:empty", "%s: no empty cell at the end of the notebook" % label, rep)
                return
            got = got[:-1]
        mine = [x for x in got if not x["metadata"].get("ident")]
        execs = [x.get("execution_count") for x in mine]
        if execs != sorted(set(execs), key=lambda z: (z is None, z)) or count not in execs:
            c.violation("clean:order", "%s: the cells of the clean notebook are the executions %s, queried %s" % (label, execs, count), rep)
            return
        for x in mine:
            k = x["execution_count"] - 1
            if x["source"] != cells[k].strip():
                c.violation("clean:code", "%s: execution %d has the code %r, it was %r" % (label, k + 1, x["source"], cells[k]), rep)
            texts = ["".join(o["data"]["text/plain"]) for o in x["outputs"]]
            want = [] if ran[k]["result"] == "None" else [ran[k]["result"]]
            if texts != want:
                c.violation("clean:outputs", "%s: execution %d shows %s, its result was %s" % (label, k + 1, texts, ran[k]["result"]), rep)
        if original is not None:
            kept = {o["metadata"]["ident"]: o for o in original}
            norm = []
            for x in got:
                ident = x["metadata"].get("ident")
                if ident:
                    if x["source"] != kept[ident]["source"] or x["cell_type"] != kept[ident]["cell_type"]:
                        c.violation("clean:previous", "%s: cell %s of the previous notebook changed" % (label, ident), rep)
                    norm.append(kept[ident])
            history = [dict(x, metadata={"ident": "h%d" % k}) for k, x in enumerate(mine)]
            it = iter(history)
            seq = [kept[x["metadata"]["ident"]] if x["metadata"].get("ident") else next(it) for x in got]
            for mech, msg in judge_merge(original, history, [], [], merged, seq)[:2]:
                c.violation(mech, "%s %s: %s" % (label, opts, msg), rep)
            c.count(clean_merged=1)
        # running the clean notebook again gives the value
        again = pool().pyexec(new_dir("nb2"), DRIVER, {"cells": [{"source": x["source"]} for x in mine], "capture": False}, timeout=60)
        replayed = answer(again)
        if replayed is not None:
            last = replayed["cells"][execs.index(count)]
            if (last["result"], last["error"]) != (ran[-1]["result"], "NoneType"):
                c.violation("clean:value", "%s: the queried cell gave %s, the clean notebook gives %s %s with executions %s of %d" % (
                    label, ran[-1]["result"], last["result"], last["message"], execs, len(cells)), dict(rep, clean=[x["source"] for x in mine]))
            c.count(replayed=1)
        c.observe(key=(execs, len(cells)), nontrivial=len(execs) < len(cells), n=len(mine), clean_notebooks=1, cells_kept=len(mine), cells_ran=len(cells),
                  sample={"case": label, "ran": len(cells), "kept": execs, "options": opts})


def body(c):
    items = [("merge", k) for k in range(16 if not c.thorough else 160)] + [("clean", i) for i in range(48 if not c.thorough else 1200)]
    c.rng("order").shuffle(items)

    def one(item):
        if c.elapsed() > (float(os.environ.get("C27_T", 38)) if not c.thorough else 600):
            c.count(skipped_by_time=1)
        elif item[0] == "merge":
            merge_batch(c, item[1], 120 if not c.thorough else 400)
        else:
            clean_case(c, item[1])
    pool().map(one, items)


if __name__ == "__main__":
    chk = Check("C27", "exercised", "one case = one merge of two notebooks or one clean notebook; distinct results", 60)
    sys.exit(main(chk, body))
