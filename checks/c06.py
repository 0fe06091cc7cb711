"""C06: file accesses are recorded faithfully.

Monitor: an independent observer of the same script in plain Python (lib/open_probe.py:
wrappers over the open functions plus a profiler that notices the end of the activations)
against the file_access rows and the stored contents of `now run`."""
import json
import os
import shutil
import subprocess
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import content

NAMES = ["a.txt", "b.bin", "sub/c.txt", "new.txt", "sub/new2.txt", "caf\u00e9 \u4f60.txt", "with'quote\"s.txt", "a.txt.bak", "link.txt", "pages\nline.txt"]


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.k = 0
        self.in_class = False

    def fresh(self):
        self.k += 1
        return "v%d" % self.k

    def path(self, chdir=False):
        rng = self.rng
        name = rng.choice(NAMES)
        r = rng.random()
        if r < .15:
            return "os.path.join(BASE, %r)" % name
        if r < .25:
            return "Path(%r)" % name
        if r < .32:
            return "%r.encode()" % name
        if r < .4:
            return repr("./" + name)
        return repr(name)

    def payload(self):
        rng = self.rng
        r = rng.random()
        if r < .1:
            return "b''"
        if r < .2:
            return "bytes(range(256)) * %d" % rng.choice([1, 20])
        if r < .25:
            return "b'big' * 200000"
        return repr(("text %d \u00e9\n" % rng.randrange(30)).encode())

    def access(self, ind, top):
        """Statements that open a file"""
        rng = self.rng
        v = self.fresh()
        p = self.path()
        kind = rng.choice(["write", "write", "append", "read", "read", "rplus", "wplus", "textw", "textr", "bare", "kw", "buf", "excl", "missing",
                           "ioopen", "pathlib", "pathwrite", "codecs", "osopen", "lines", "left", "closed_later", "with2", "opener", "exists"])
        if kind == "lines" and self.in_class:  # generator expressions of class bodies belong to the module
            kind = "read"
        out = []
        g = lambda s: out.append("    " * ind + s)  # noqa
        pay = self.payload()
        if kind == "write":
            g("with open(%s, 'wb') as %s:" % (p, v)); g("    %s.write(%s)" % (v, pay))
        elif kind == "append":
            g("with open(%s, 'ab') as %s:" % (p, v)); g("    %s.write(%s)" % (v, pay))
        elif kind == "textw":
            g("with open(%s, 'w', encoding='utf-8') as %s:" % (p, v)); g("    %s.write('texto \\u00e9 %d')" % (v, rng.randrange(9)))
        elif kind == "wplus":
            g("%s = open(%s, 'w+b')" % (v, p)); g("%s.write(%s)" % (v, pay)); g("%s.seek(0)" % v); g("%s.read()" % v); g("%s.close()" % v)
        elif kind in ("left", "closed_later") and top:
            g("%s = open(%s, 'wb')" % (v, p)); g("%s.write(%s)" % (v, pay))
            if kind == "closed_later":
                g("LATER.append(%s)" % v)
            else:
                g("%s.flush()" % v)
        elif kind == "opener":
            g("%s = helper_open(%s, 'wb')" % (v, p)); g("%s.write(%s)" % (v, pay)); g("%s.close()" % v)
        elif kind == "ioopen":
            g("with io.open(%s, 'wb') as %s:" % (p, v)); g("    %s.write(%s)" % (v, pay))
        elif kind == "pathwrite":
            g("Path(os.fsdecode(%s)).write_bytes(%s)" % (p, pay))
        elif kind == "with2":
            g("with open(%s, 'wb') as %s, open(%s, 'ab') as w%s:" % (p, v, self.path(), v)); g("    %s.write(%s)" % (v, pay)); g("    w%s.write(b'2')" % v)
        elif kind == "osopen":
            g("%s = os.open(%s, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)" % (v, p)); g("os.write(%s, %s)" % (v, pay)); g("os.close(%s)" % v)
        elif kind == "excl":
            g("try:"); g("    with open(%s, 'xb') as %s:" % (p, v)); g("        %s.write(%s)" % (v, pay)); g("except FileExistsError:"); g("    print('exists')")
        elif kind == "missing":
            g("try:"); g("    open('missing/%d.txt')" % rng.randrange(3)); g("except OSError as exc:"); g("    print('missing')")
        else:
            g("if os.path.exists(%s):" % p)
            if kind == "read":
                g("    with open(%s, 'rb') as %s:" % (p, v)); g("        print(len(%s.read()))" % v)
            elif kind == "bare":
                g("    %s = open(%s)" % (v, p)); g("    %s.close()" % v)
            elif kind == "kw":
                g("    with open(file=%s, mode='rb') as %s:" % (p, v)); g("        print(len(%s.read()))" % v)
            elif kind == "buf":
                g("    with open(%s, 'rb', 0) as %s:" % (p, v)); g("        print(%s.read(2))" % v)
            elif kind == "rplus":
                g("    with open(%s, 'r+b') as %s:" % (p, v)); g("        %s.write(b'##')" % v)
            elif kind == "textr":
                g("    with open(%s, errors='replace') as %s:" % (p, v)); g("        print(len(%s.read()))" % v)
            elif kind == "pathlib":
                g("    print(len(Path(os.fsdecode(%s)).read_bytes()))" % p)
            elif kind == "codecs":
                g("    with codecs.open(%s, 'r', 'latin-1') as %s:" % (p, v)); g("        print(len(%s.read()))" % v)
            elif kind == "lines":
                g("    print(sum(1 for _ in open(%s, 'rb')))" % p)
            else:
                g("    print(os.path.getsize(%s))" % p)
        return out

    def other(self, ind):
        rng = self.rng
        p = self.path()
        kind = rng.choice(["remove", "rename", "chdir", "chdir", "print", "copy"])
        out = []
        g = lambda s: out.append("    " * ind + s)  # noqa
        if kind == "remove":
            g("if os.path.exists(%s):" % p); g("    os.remove(%s)" % p)
        elif kind == "rename":
            g("if os.path.exists(%s):" % p); g("    os.replace(%s, 'renamed.txt')" % p)
        elif kind == "chdir":
            g("os.chdir(os.path.join(BASE, %r))" % rng.choice(["sub", ".", "sub"]))
        else:
            g("print(%d)" % rng.randrange(9))
        return out

    def body(self, ind, n, top, funcs):
        rng = self.rng
        out = []
        for _ in range(n):
            r = rng.random()
            if r < .5:
                out += self.access(ind, top)
            elif r < .6:
                out += self.other(ind)
            elif r < .8 and funcs:
                f = rng.choice(funcs)
                if rng.random() < .3:
                    out.append("    " * ind + "try:"); out.append("    " * ind + "    %s(%d)" % (f, rng.randrange(4))); out.append("    " * ind + "except KeyError:"); out.append("    " * ind + "    print('caught')")
                else:
                    out.append("    " * ind + "%s(%d)" % (f, rng.randrange(4)))
            elif r < .9 and ind < 3:
                out.append("    " * ind + "for i%d in range(%d):" % (ind, rng.choice([1, 2, 3])))
                out += self.body(ind + 1, rng.choice([1, 2]), top, funcs)
            else:
                out.append("    " * ind + "x%d = %d" % (ind, rng.randrange(9)))
        return out or ["    " * ind + "pass"]

    def program(self):
        rng = self.rng
        out = ["import os, io, codecs", "from pathlib import Path", "BASE = os.path.dirname(os.path.abspath(__file__))", "LATER = []"]
        out += ["def helper_open(path, mode):", "    return open(path, mode)"]
        funcs = []
        for k in range(rng.choice([1, 2, 3])):
            name = "f%d" % k
            out.append("def %s(n):" % name)
            out += self.body(1, rng.choice([1, 2, 3]), False, list(funcs))
            if rng.random() < .2:
                out += ["    if n == 3:", "        raise KeyError(n)"]
            out.append("    return n")
            funcs.append(name)
        if rng.random() < .4:
            self.in_class = True
            out += ["class C(object):"] + self.body(1, 1, False, [])
            self.in_class = False
            out += ["    def m(self, n):"] + self.body(2, 2, False, list(funcs))
            out += ["C().m(1)", "C().m(2)"]
        out += self.body(0, rng.choice([3, 5, 7]), True, funcs)
        out += ["for later in LATER:", "    later.close()"]
        if rng.random() < .1:
            out.append("raise ValueError('end')")
        return "\n".join(out) + "\n"


def prepare(rng, base):
    os.makedirs(base + "/sub")
    for name in NAMES:
        if rng.random() < .55 and name != "link.txt" and "new" not in name:
            with open(os.path.join(base, name), "wb") as fil:
                fil.write(rng.choice([b"", b"one\ntwo\r\n", bytes(range(256)), ("n %d" % rng.randrange(40)).encode()]))
    if rng.random() < .5:
        os.symlink("a.txt", base + "/link.txt")


def judge(c, k, rng):
    text = Gen(rng).program()
    root = new_dir("f")
    plain, cap = root + "/plain/proj", root + "/now/proj"
    os.makedirs(plain)
    with open(plain + "/script.py", "w") as fil:
        fil.write(text)
    try:
        compile(text, "s", "exec")
    except SyntaxError as exc:
        c.problem("generated program does not compile: %s" % exc)
        return
    try:
        prepare(rng, plain)
        shutil.copytree(plain, cap, symlinks=True)
        res = pool().pyexec(plain, os.path.join(VERIF, "lib/open_probe.py"), {"script": plain + "/script.py", "log": root + "/log.json"}, timeout=30)
        if not os.path.exists(root + "/log.json"):
            c.problem("no plain log: %s" % res.err[-200:])
            return
        with open(root + "/log.json") as fil:
            log = json.load(fil)["log"]
        engine = rng.choice([None, None, "plain", "dulwich", "puregit"])
        opts = rng.choice([[], [], [], [], ["-d", "1"], ["-s", "1"], ["-c", "package"]])
        cmd = ["run"] + (["--content-engine", engine] if engine else []) + opts + ["script.py"]
        res = pool().now(cap, *cmd, timeout=90, stdin="")
        if res.timeout:
            c.problem("timeout")
            return
        replay = {"script": text, "cmd": cmd, "engine": engine}

        def bad(mech, msg):
            c.violation(mech, "case %s: %s" % (k, msg), replay)
        if not os.path.exists(cap + "/.noworkflow/db.sqlite"):
            bad("no-trial", res.err[-300:])
            return
        for side in (plain, cap):  # dangling links
            for name in os.listdir(side):
                if os.path.islink(os.path.join(side, name)) and not os.path.exists(os.path.join(side, name)):
                    os.remove(os.path.join(side, name))
        a, b = read_tree(plain), read_tree(cap)
        if a != b:
            bad("files", "the script leaves other files than in plain Python: %s" % sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x)))
            return
        db = DB(cap)
        rows = db.rows("select * from file_access order by id")
        acts = {r["id"]: r for r in db.rows("select a.id, a.name, a.code_block_id, e.activation_id as caller from activation a join evaluation e on e.id=a.id and e.trial_id=a.trial_id")}
        db.close()
        sha = sha1 if engine == "plain" else git_blob_sha
        digest = lambda d: None if d is None else sha(d.encode("latin-1"))  # noqa
        fix = lambda name: name.replace(plain, cap)  # noqa
        limited = bool(opts) and opts[0] == "-d"
        j = 0
        seen = {}
        matched = 0
        blame = []
        for rec in log:
            if rec["kind"] == "os.open":
                want_mode = None
            else:
                want_mode = rec["mode"]
            row = rows[j] if j < len(rows) else None
            same = row is not None and row["name"] == fix(rec["name"]) and (want_mode is None or row["mode"] == want_mode)
            if not same:
                if not rec["ok"]:
                    continue  # it did not open anything
                blame.append("access %d of plain Python (%s %r %s in %s) is not the recorded one: %s" % (
                    matched, rec["kind"], rec["name"], rec["mode"], rec["function"], row and (row["name"], row["mode"])))
                break
            j += 1
            matched += 1
            tag = "%s %r %s in %s" % (rec["kind"], rec["name"], rec["mode"], rec["function"])
            if rec["kind"] in ("open", "io.open") and str(row["buffering"]) not in (str(rec["buffering"]), {"-1": "default"}.get(str(rec["buffering"]))):
                bad("buffering", "%s: buffering %s instead of %s" % (tag, row["buffering"], rec["buffering"]))
            if row["content_hash_before"] != digest(rec["before"]):
                bad("before", "%s: digest before is %s instead of %s" % (tag, row["content_hash_before"], digest(rec["before"])))
            # the activation that opened it
            act = acts.get(row["activation_id"])
            while act is not None and act["code_block_id"] is None and act["name"] != (rec["function"]):
                act = acts.get(act["caller"])
            want = "__main__" if rec["function"] == "<module>" else rec["function"]
            if not limited:
                if act is None or act["name"] != want:
                    bad("activation", "%s: opened by activation %s" % (tag, act and act["name"]))
                elif seen.setdefault(rec["frame"], act["id"]) != act["id"]:
                    bad("activation", "%s: opened by two activations" % tag)
            if rec["done"] and rec["ok"] and not limited and row["content_hash_after"] != digest(rec["after"]):
                bad("after", "%s: digest after is %s instead of %s (before %s)" % (tag, row["content_hash_after"], digest(rec["after"]), row["content_hash_before"]))
            for when in ("before", "after"):
                h = row["content_hash_" + when]
                if h is not None:
                    data = content.read(cap, h)
                    if data is None or sha(data) != h:
                        bad("content", "%s: the content %s can not be read back" % (tag, when))
                    c.count(contents=1)
        if blame or j < len(rows):
            bad("sequence", blame[0] if blame else "recorded but not made: %s" % [(r["name"], r["mode"]) for r in rows[j:]][:3])
        times = [r["checkpoint"] for r in rows]
        if times != sorted(times):
            bad("order", "times of the accesses are not in order: %s" % times)
        if not limited and len(set(seen.values())) != len(seen):
            bad("activation", "accesses of different activations are recorded in the same one")
        c.observe(n=max(1, matched), key=text, programs=1, accesses=matched, absent_before=sum(r["content_hash_before"] is None for r in rows), absent_after=sum(r["content_hash_after"] is None for r in rows),
                  changed=sum(r["content_hash_before"] != r["content_hash_after"] for r in rows), sample={"script": text[:300], "accesses": [(r["name"], r["mode"]) for r in rows][:6]})
    finally:
        shutil.rmtree(root, ignore_errors=True)


def body(c):
    deadline = c.t0 + (40 if not c.thorough else 780)

    def one(k):
        if time.time() < deadline:
            judge(c, k, c.rng("case", k))
    pool().map(one, range(400 if not c.thorough else 100000))


if __name__ == "__main__":
    main(Check("C06", "statistical", "rows of file_access and stored contents vs an independent observer of the same script; distinct = generated scripts", min_eval=100), body)
