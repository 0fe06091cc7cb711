"""Projects with varied stored histories: generated programs, modules, binary and odd
files, failing and interrupted scripts, backups. Used by the checks of what is computed
from stored trials (transfers, exports, diffs, graphs, views)."""
import os

from vlib import DB, pool, write_files
import gen

ODD = ["caf\u00e9.txt", "with space.txt", "quo'te.txt", "dou\"ble.txt", "back\\slash.txt", "new\nline.txt", "per%cent.txt", "sub/in.txt"]
ODD_SCRIPT = '''import sys
NAMES = %r
class Odd(object):
    def __init__(self, text): self.text = text
    def __repr__(self): return self.text
    def meth(self, k): return self
def f(x, y="d'e", *rest, **kw):
    return Odd(x)
texts = ["it's", 'say "hi"', "back\\\\slash", "new\\nline", "tab\\t", "caf\\u00e9 \\u4f60", "a.b:-c", "%%d %%s", "end'", "\\\\'", "'", "nul\\x00", "\\x1b[0m", "\\u2028", ""]
for t in texts:
    o = f(t, t, t, key=t)
    d = {t: o, "k": [t, o]}
    z = d[t]
for n in NAMES:
    with open(n, "w") as fil:
        fil.write(n)
    with open(n) as fil:
        fil.read()
big = 10 ** 60
neg = [-1, -2.5, float("inf"), float("nan"), True, None, b"by\\x00te's"]
print(len(texts), z)
'''
CALLS = '''import helper
def leaf(n):
    return n + 1
def mid(n, k=2):
    total = 0
    for i in range(n):
        total += leaf(i)
        if i % 2:
            total += helper.twice(leaf(i))
    return total
def rec(n):
    if n <= 0:
        return [0]
    return rec(n - 1) + [leaf(n)]
def evens(n):
    for i in range(n):
        yield leaf(i * 2)
class C(object):
    def __init__(self, v):
        self.v = v
    def add(self, o):
        self.v += mid(o)
        return self
while_ = 0
while while_ < 2:
    while_ = leaf(while_)
a = mid(ARG)
b = rec(3)
c = C(1).add(2).add(1)
e = list(evens(3))
b[1] = a
d = {"x": b, "y": {"z": c}}
d["y"]["w"] = d["x"][0]
c.v = d["x"]
t = (a, *b)
m = [leaf(q) for q in t if q]
try:
    helper.fail(a)
except ValueError as exc:
    msg = str(exc)
with open("data.txt", "w") as fil:
    fil.write(str(m))
with open("data.txt") as fil:
    res = fil.read()
print(a, m, msg, res)
'''
HELPER = "def twice(x):\n    return x * 2\ndef fail(x):\n    raise ValueError(x)\n"


def sources(rng, k):
    """(name, files, stdin, args) of the k-th program"""
    kind = ["calls", "gen", "odd", "gen", "fails", "gen", "syntax", "small"][k % 8]
    if kind == "calls":
        return kind, {"script.py": CALLS.replace("ARG", str(rng.randrange(1, 6))), "helper.py": HELPER}, "", []
    if kind == "odd":
        names = [n for n in ODD if rng.random() < .7]
        return kind, {"script.py": ODD_SCRIPT % (names,), "sub/x.txt": "x"}, "", ["it's", "a b"]
    if kind == "fails":
        return kind, {"script.py": "def f(x):\n    open('in.txt').read()\n    return g(x)\ndef g(x):\n    return 1 / x\nv = [f(1), f(2)]\nf(0)\n", "in.txt": "in"}, "", []
    if kind == "syntax":
        return kind, {"script.py": "x = 1\ndef f(:\n"}, "", []
    if kind == "small":
        return kind, {"script.py": "x = %d\n" % rng.randrange(3)}, "", []
    p = gen.program(rng, rng.choice(["general", "trace", "flow"]), size=rng.choice([.3, .5, .8]))
    return kind, p["files"], p.get("stdin", ""), p.get("args", [])


def build(rng, base, n, first=None, opts=(), engine=None, backups=True, ks=None):
    """Run n programs in the project. Returns the ids of the trials"""
    os.makedirs(base, exist_ok=True)
    eng = ["--content-engine", engine] if engine else []
    first = rng.randrange(8) if first is None else first
    for k in ks if ks is not None else range(first, first + n):
        kind, files, stdin, args = sources(rng, k)
        write_files(base, files)
        opt = list(opts) or rng.choice([[], [], ["-c", "all"], ["-d", "2"], ["--name", "renamed"], ["-b"]])
        opt = [o for o in opt if o not in ("--name", "renamed", "-b")] + (["-b"] if "-b" in opt else [])
        pool().now(base, "run", *(eng + opt + ["script.py"] + list(args)), stdin=stdin, timeout=90)
        if backups and rng.random() < .3:
            write_files(base, {"script.py": files["script.py"] + "\n# edited\n"})
            pool().now(base, "restore", *(eng + ["1"]), timeout=90)
    return trials(base)


def trials(base):
    if not os.path.exists(base + "/.noworkflow/db.sqlite"):
        return []
    db = DB(base)
    try:
        return [r["id"] for r in db.rows("select id from trial order by sequence_key")]
    finally:
        db.close()
