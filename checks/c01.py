"""C01: capturing does not change what the script does"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import corpus  # noqa
from runs import *  # noqa

CHECK = Check("C01", "exploration",
              "one execution compared with plain Python (stdout, stderr, files, ending exception); distinct = program x options", 100)

OPTION_SETS = [
    [], ["-d", "1"], ["-d", "2"], ["-d", "3"], ["-c", "package"], ["-s", "1"],
    ["-d", "2", "-c", "package", "-s", "1"], ["--name", "other", "--message", "m"], ["-d", "0"], ["-S", "1"],
    ["-d", "4", "-s", "2"],
]


def compare(check, mech, label, plain, plain_tree, now, now_tree, end_only=False):
    if now.timeout:
        check.violation(mech, "%s: hangs under capture (plain Python ends)" % label)
        return
    out, tail = split_tail(now.out)
    perr, pexc = plain_end(plain)
    problems = []
    if strip_addr(out) != strip_addr(plain.out):
        i = 0
        while i < min(len(out), len(plain.out)) and out[i] == plain.out[i]:
            i += 1
        problems.append("stdout differs at %d: plain %r now %r %s" % (
            i, plain.out[max(0, i - 30):i + 120], out[max(0, i - 30):i + 120], (tail or "")[-600:]))
    nerr = now.err
    if plain.rc == 0:
        if strip_addr(nerr) != strip_addr(plain.err):
            problems.append("stderr differs: plain %r now %r" % (plain.err[-300:], nerr[-300:]))
        if tail is not None and "sys.exit()" not in tail:
            problems.append("script ends with %r only under capture" % tail[:600])
    elif pexc == "exit":
        if tail is None or "exited via sys.exit()" not in tail:
            problems.append("plain Python leaves with status %s (stderr %r), now: %r" % (
                plain.rc, plain.err[-100:], tail))
        else:
            code = tail.strip().split("Exit status: ", 1)[-1]
            expected = str(plain.rc)
            shown = code if not code.lstrip("-").isdigit() else str(int(code) % 256)
            if shown != expected and code not in plain.err:
                problems.append("exit code %r instead of %r" % (code, expected))
    else:
        if tail is None:
            problems.append("plain Python ends with %r, the captured run without exception" % pexc)
        elif last_exc_line(tail.rstrip("\n")) != pexc and pexc not in strip_addr(tail):
            problems.append("ending exception %r instead of %r" % (last_exc_line(tail.rstrip())[:300], pexc[:300]))
        if strip_addr(nerr) != strip_addr(perr):
            problems.append("stderr differs: plain %r now %r" % (perr[-300:], nerr[-300:]))
    if plain_tree != now_tree:
        diff = [n for n in set(plain_tree) | set(now_tree) if plain_tree.get(n) != now_tree.get(n)]
        problems.append("files differ: %s" % [(n, plain_tree.get(n), now_tree.get(n)) for n in sorted(diff)[:3]])
    if problems:
        check.violation(mech, "%s: %s" % (label, "; ".join(problems)))


def one_corpus(item):
    name, src, opts, engine = item
    files = dict(corpus.MODS)
    files["script.py"] = src
    plain, ptree = usable(files, "in\n", ["q"], timeout=20)
    if plain is None:
        CHECK.problem("plain timeout: " + name)
        return
    with scratch() as d:
        now = run_now(d, files, "in\n", ["q"], opts, engine)
        tree = read_tree(d)
    CHECK.observe(key=("corpus", name, tuple(opts), engine), corpus_runs=1,
                  sample={"script": src[:120], "options": opts} if len(src) < 200 else None)
    mech = "feature:" + name
    compare(CHECK, mech, "corpus script %r options %s engine %s" % (name, opts, engine), plain, ptree, now, tree)


def one_random(item):
    salt, opts, engine, size, profile = item
    prog = gen.program(CHECK.rng("prog", *salt), profile, size)
    plain, ptree = usable(prog["files"], prog["stdin"])
    if plain is None:
        CHECK.count(discarded_slow=1)
        return
    with scratch() as d:
        now = run_now(d, prog["files"], prog["stdin"], (), opts, engine, timeout=120)
        tree = read_tree(d)
    if now.timeout:
        # capture is allowed to be slow; only a decided difference counts
        CHECK.problem("generated program %s: no end within 120s" % (salt,))
        return
    CHECK.observe(key=("gen", salt, tuple(opts), engine), generated_runs=1,
                  output_lines=plain.out.count("\n"), uncaught=int(plain.rc != 0),
                  files_written=len(ptree) - len(prog["files"]),
                  **{"opts_" + ("_".join(opts).replace("-", "") or "default"): 1})
    label = "generated program %s options %s engine %s\n%s" % (salt, opts, engine, prog["files"]["script.py"])
    before = len(CHECK.violations)
    compare(CHECK, "generated", "generated program %s options %s engine %s" % (salt, opts, engine), plain, ptree, now, tree)
    if len(CHECK.violations) > before:
        CHECK.violations[-1]["replay"] = prog


def body(check):
    rng = check.rng("plan")
    items = []
    for name, src in corpus.CASES.items():
        items.append((name, src, [], "plain"))
    light = [n for n in corpus.CASES if "feature:" + n not in {f["mechanism"] for f in check.known}]
    extra = 3 if check.thorough else 1
    for name in light:
        for _ in range(extra):
            if check.thorough or rng.random() < 0.35:
                items.append((name, corpus.CASES[name], rng.choice(OPTION_SETS[1:]), rng.choice(ENGINES_FAST)))
    pool().map(one_corpus, items)
    check.count(corpus_features=len(corpus.CASES))
    n = 0
    budget = 560 if check.thorough else 75
    while True:
        batch = []
        for _ in range(64):
            opts = [] if rng.random() < 0.45 else rng.choice(OPTION_SETS[1:])
            engine = "plain" if rng.random() < 0.85 else rng.choice(ENGINES_FAST)
            batch.append(((n,), opts, engine, rng.choice([0.5, 1, 1, 1.5]), "general"))
            n += 1
        pool().map(one_random, batch)
        if check.elapsed() > budget or (not check.thorough and n >= 320):
            break
    check.assumptions += ["exit code and the place where an uncaught traceback is printed belong to `now run` itself",
                          "memory addresses in printed values are ignored"]


if __name__ == "__main__":
    main(CHECK, body)
