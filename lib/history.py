"""Random histories of edits, runs and restores in one project directory, with a
model of what every trial must hold. Shared by the checks of C09, C10 and C11;
each reports the mechanisms of its own property."""
import os
import shutil
import time

from vlib import DB, new_dir, pool, read_tree, write_files, git_blob_sha, sha1
import content

SCRIPTS = ["a.py", "b.py"]
MODULES = {"m1": "m1.py", "m3": "m3.py", "pkg.m2": "pkg/m2.py", "pkg": "pkg/__init__.py"}
DATA = ["d1.txt", "d2.bin", "sub/d3.txt", "mydata.txt", "data.txt"]
OUTS = ["out1.txt", "sub/out2.txt", "log.txt", "d1.txt"]
UNRELATED = ["imported.log", "notes.md", "other.py", "sub/keep.bin", "a.py.bak"]


# importing the module creates a file
SIDE = "import os\nif not os.path.exists('imported.log'):\n    os.mknod('imported.log')\n"


class Trial(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def files(self, script=True, local=True, access=True):
        """{path: (kind, bytes or None)} of the state recorded for the trial"""
        res = {}
        if script and self.code is not None:
            res[self.script] = ("script", self.code)
        if local:
            for path, data in self.modules.items():
                res[path] = ("module", data)
        if access:
            for path, data in self.accesses.items():
                res[path] = ("access", data)
        return res


def blob(rng):
    kind = rng.random()
    if kind < .15:
        return b""
    if kind < .45:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 40, 700])))
    if kind < .6:
        return ("caf\u00e9 \u4f60 %d\r\nline\r" % rng.randrange(99)).encode()
    return ("text %d\n" % rng.randrange(50)).encode() * rng.choice([1, 2, 30])


def module_text(rng, name):
    text = "V = %d\n" % rng.randrange(1000)
    if rng.random() < .4:
        text += "__version__ = '%d.%d'\n" % (rng.randrange(3), rng.randrange(9))
    if rng.random() < .3:
        text += "# caf\u00e9\n"
    if rng.random() < .3:
        text += "def f(x):\n    return x + V\n"
    if rng.random() < .2:
        text += SIDE
    if rng.random() < .1:
        text = text.replace("\n", "\r\n")
    data = text.encode()
    if rng.random() < .07:
        data = b"\xef\xbb\xbf" + data
    return data


class Program(object):
    """A generated script: which modules it imports and the accesses it makes"""

    def __init__(self, rng, base):
        self.imports = []
        self.ops = []
        text = "import sys\n"
        if rng.random() < .12:
            text = "# -*- coding: latin-1 -*-\n" + text + "LATIN = '\u00e9'\n"
        for name in rng.sample(["m1", "m3", "pkg.m2"], rng.choice([0, 1, 1, 2])):
            self.imports.append(name)
            text += "import %s\n" % name
            text += "print(%s.V)\n" % name
        text += "# edition %d\n" % rng.randrange(6)
        k = 0
        for _ in range(rng.choice([0, 1, 2, 3])):
            k += 1
            what = rng.choice(["r", "r", "w", "a", "r+"])
            path = rng.choice(DATA if what == "r" else OUTS + ["d2.bin"])
            given = os.path.join(base, path) if rng.random() < .15 else path
            value = "%s %d\n" % (what, rng.randrange(20))
            inner = rng.random() < .3
            self.ops.append((what, path, value.encode(), inner))
            mode = {"r": "rb", "w": "wb", "a": "ab", "r+": "r+b"}[what]
            body = {"r": "fil.read()", "r+": "fil.seek(0, 2); fil.write(%r)" % value.encode()}.get(what, "fil.write(%r)" % value.encode())
            stmt = "import os\nif os.path.exists(%r):\n    with open(%r, %r) as fil:\n        %s\n" if what in ("r", "r+") else "import os\nif os.path.isdir(os.path.dirname(%r) or '.'):\n    with open(%r, %r) as fil:\n        %s\n"
            stmt = stmt % (given, given, mode, body)
            if inner:
                stmt = "def act%d():\n" % k + "".join("    " + l + "\n" for l in stmt.rstrip("\n").split("\n")) + "act%d()\n" % k
            text += stmt
        if rng.random() < .15:
            text += "with open(%r) as fil:\n    fil.read()\n" % (base + "x/s.txt")
        text += "print(sys.argv[1:])\n"
        self.fails = rng.random() < .1
        if self.fails:
            text += "raise ValueError('end')\n"
        self.data = text.encode("latin-1" if "latin-1" in text else "utf-8")

    def modules(self, tree):
        """Local modules imported by a run in the tree, or None when it can not import"""
        res = {}
        for name in self.imports:
            if name.startswith("pkg."):
                if "pkg/__init__.py" not in tree:
                    return None
                res["pkg/__init__.py"] = tree["pkg/__init__.py"]
            path = MODULES[name]
            if path not in tree:
                return None
            res[path] = tree[path]
        return res

    def simulate(self, tree, dirs):
        """[(path, before, after)] of the run"""
        now = dict(tree)
        res = []
        for what, path, value, inner in self.ops:
            before = now.get(path)
            if what in ("r", "r+"):
                if before is None:
                    continue
            elif os.path.dirname(path) not in dirs:
                continue
            if what == "r":
                after = before
            elif what == "w":
                after = value
            else:
                after = (before or b"") + value
            now[path] = after
            res.append((path, before, after if inner else None, inner))
        # the content after is the one at the end of the activation that opened the file
        return [(path, before, after if inner else now[path]) for path, before, after, inner in res]


class History(object):
    def __init__(self, c, rng, length):
        self.c = c
        self.rng = rng
        self.length = length
        self.engine = rng.choice([None, None, None, "plain", "dulwich", "puregit"])
        self.base = os.path.realpath(new_dir("proj"))
        self.side = self.base + "x"  # a directory whose name extends the project's
        os.makedirs(self.side)
        self.trials = []
        self.heads = {}
        self.programs = {}
        self.log = []
        self.stop = False

    # -- helpers --------------------------------------------------------------
    def bad(self, prop, mech, msg):
        if prop == self.c.prop:
            self.c.violation(mech, msg, {"log": self.log, "engine": self.engine})
        else:
            self.c.count(other_property_alarms=1)

    def now(self, *argv, **kw):
        cmd = [argv[0]] + (["--content-engine", self.engine] if self.engine else []) + list(argv[1:])
        self.log.append("now " + " ".join(cmd))
        return cmd, pool().now(kw.get("cwd", self.base), *cmd, timeout=90, stdin="")

    def write(self, path, data):
        full = os.path.join(self.base, path)
        if data is None:
            if os.path.exists(full):
                os.remove(full)
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as fil:
                fil.write(data)
        self.log.append("write %s %s" % (path, None if data is None else data[:60]))

    def tree(self):
        res = read_tree(self.base)
        for path, data in read_tree(self.side).items():
            res["//side/" + path] = data
        return res

    def dirs(self):
        res = {""}
        for name, ds, _ in os.walk(self.base):
            ds[:] = [d for d in ds if not d.startswith(".")]
            res.add(os.path.relpath(name, self.base).replace(".", "", 1) if name == self.base else os.path.relpath(name, self.base))
        return res

    def last(self, script=None):
        found = [t for t in self.trials if script is None or t.script == script]
        return max(found, key=lambda t: t.start) if found else None

    def current(self, script):
        return self.heads.get(script) or self.last(script)

    def new_rows(self):
        db = DB(self.base)
        rows = db.rows("select * from trial order by sequence_key")
        tags = {}
        for t in db.rows("select * from tag where type='AUTO'"):
            tags.setdefault(t["trial_id"], []).append(t["name"])
        db.close()
        known = {t.id for t in self.trials}
        # C11: numbering of everything stored so far
        keys = [r["sequence_key"] for r in rows]
        if len(set(keys)) != len(keys):
            self.bad("C11", "sequence", "sequence numbers repeat: %s" % keys)
        old = {t.id: t.seq for t in self.trials}
        for r in rows:
            if r["id"] in old and r["sequence_key"] != old[r["id"]]:
                self.bad("C11", "sequence", "trial %s was number %s, is %s" % (r["id"], old[r["id"]], r["sequence_key"]))
        fresh = [r for r in rows if r["id"] not in known]
        for r in fresh:
            if old and r["sequence_key"] <= max(old.values()):
                self.bad("C11", "sequence", "new trial has number %s after %s" % (r["sequence_key"], max(old.values())))
        names = [n for ns in tags.values() for n in ns]
        if len(set(names)) != len(names):
            self.bad("C11", "tag-unique", "automatic tags repeat: %s" % sorted(names))
        if not set(known) <= {r["id"] for r in rows}:
            self.bad("C11", "lost", "trials disappeared")
        return fresh, tags

    def expected_tag(self, code, command, backup):
        auto = [(t, list(map(int, t.tag.split(".")))) for t in self.trials if t.tag]
        if not auto:
            return "1.1.1"
        same = [n for t, n in auto if t.code == code and t.command == command and not backup]
        if same:
            n = max(same)
            return "%d.%d.%d" % (n[0], n[1], n[2] + 1)
        code_ = [n for t, n in auto if t.code == code and not backup]
        if code_:
            n = max(code_)
            return "%d.%d.1" % (n[0], n[1] + 1)
        n = max(n for _, n in auto)
        return "%d.0.0" % (n[0] + 1) if backup else "%d.1.1" % (n[0] + 1)

    def check_lineage(self, row, tags, code, command, backup, script):
        want = self.heads.get(script) or self.last(script)
        if row["parent_id"] != (want.id if want else None):
            seqs = {t.id: t.seq for t in self.trials}
            self.bad("C11", "parent", "trial %s of %s has parent %s instead of %s" % (
                row["sequence_key"], script, seqs.get(row["parent_id"], row["parent_id"]), want.seq if want else None))
        tag = tags.get(row["id"], [])
        if len(tag) != 1:
            self.bad("C11", "tag", "trial %s has automatic tags %s" % (row["sequence_key"], tag))
            return None
        expected = self.expected_tag(code, command, backup)
        if tag[0] != expected:
            self.bad("C11", "tag", "trial %s (%s) has tag %s instead of %s; tags before: %s" % (
                row["sequence_key"], "backup" if backup else command, tag[0], expected, [t.tag for t in self.trials]))
        self.c.observe(n=1, key=("tag", tag[0], backup)) if self.c.prop == "C11" else None
        return tag[0]

    # -- operations -----------------------------------------------------------
    def op_edit(self):
        rng = self.rng
        for _ in range(rng.choice([1, 1, 2, 3])):
            kind = rng.random()
            if kind < .3:
                script = rng.choice(SCRIPTS)
                old = self.versions.get(script, [])
                if old and rng.random() < .35:
                    prog = rng.choice(old)  # back to an earlier version
                else:
                    prog = Program(rng, self.base)
                    self.versions.setdefault(script, []).append(prog)
                self.programs[script] = prog
                self.write(script, prog.data)
            elif kind < .6:
                name = rng.choice(list(MODULES))
                if rng.random() < .12 and name != "pkg":
                    self.write(MODULES[name], None)
                else:
                    self.write(MODULES[name], module_text(rng, name))
            elif kind < .9:
                self.write(rng.choice(DATA + OUTS), None if rng.random() < .25 else blob(rng))
            else:
                path = rng.choice(UNRELATED + ["../" + os.path.basename(self.side) + "/s.txt"])
                self.write(path, None if path == "imported.log" else blob(rng))

    def op_run(self):
        rng = self.rng
        script = rng.choice(SCRIPTS)
        tree = self.tree()
        data = tree.get(script)
        prog = next((p for p in self.versions.get(script, []) if p.data == data), None)
        if prog is None:
            return
        self.programs[script] = prog
        opts = rng.choice([[], [], [], ["-c", "package"], ["-d", "1"], ["--name", SCRIPTS[0]]])
        inherit = self.trials and rng.random() < .06
        if inherit:
            opts = opts + ["-b"]
        dirs = self.dirs()
        mods = prog.modules(tree)
        name = opts[1] if opts[:1] == ["--name"] else script
        if name != script:
            return
        argv = rng.choice([[], [], ["1"], ["2", "x"]])
        cmd, res = self.now("run", *(opts + [script] + argv))
        after = self.tree()
        if res.timeout:
            self.c.problem("timeout of %s" % cmd)
            self.stop = True
            return
        fresh, tags = self.new_rows()
        if len(fresh) != 1:
            self.bad("C11", "run-trials", "a run stored %d trials (%s)" % (len(fresh), res.err[-300:]))
            self.stop = True
            return
        row = fresh[0]
        command = " ".join(cmd)
        tag = self.check_lineage(row, tags, data, command, False, script)
        self.heads.pop(script, None)
        accesses = {}
        sequence = prog.simulate(tree, dirs) if mods is not None else []
        for path, before, _ in sequence:
            accesses.setdefault(path, before)
        if mods is None:
            # some of the imports failed: which modules are recorded is not modelled
            imported = None
        else:
            imported = mods
        if inherit:
            origin = max((t for t in self.trials if not t.inherits), key=lambda t: t.start, default=None)
            if "-c" in opts and mods is not None or origin is None or origin.modules is None:
                imported = None
            else:
                imported = origin.modules
        want = dict(tree)
        for path, _, aft in prog.simulate(tree, dirs) if mods is not None else ():
            want[path] = aft
        if any(SIDE.encode() in data.replace(b"\r\n", b"\n") for data in (mods or {}).values()):
            want.setdefault("imported.log", b"")
        if mods is not None and want != after:
            self.c.problem("a run changed files in another way than simulated: %s" % sorted(
                k for k in set(want) | set(after) if want.get(k) != after.get(k)))
            self.stop = True
        self.trials.append(Trial(id=row["id"], seq=row["sequence_key"], script=script, code=data, command=command, tag=tag, start=row["start"],
                                 modules=imported, accesses=accesses, sequence=sequence, backup=False, inherits=bool(inherit)))
        self.log.append("-> trial %s modules %s accesses %s" % (row["sequence_key"], sorted(imported or ()), [(p, b and b[:20], a and a[:20]) for p, b, a in sequence]))

    def op_restore(self):
        rng = self.rng
        if not self.trials:
            return
        trial = rng.choice(self.trials) if rng.random() < .8 else self.last()
        if trial.modules is None:
            return
        ref = rng.choice(["seq", "id", "tag"])
        ref = {"seq": str(trial.seq), "id": trial.id, "tag": trial.tag or trial.id}[ref]
        if trial is self.last() and rng.random() < .4:
            ref = None
        flags = {"script": True, "local": True, "access": True}
        opts = []
        for name, opt in (("script", "-s"), ("local", "-l"), ("access", "-a")):
            if rng.random() < .2:
                flags[name] = False
                opts.append(opt)
        head = self.current(trial.script)
        if head.modules is None:
            return
        before = self.tree()
        recorded = head.files(**flags)
        target = trial.files(**flags)
        # what must be backed up: files of the current trial, and whatever would be overwritten
        differs = [p for p, (_, data) in recorded.items() if before.get(p) != data]
        lost = [p for p, (kind, data) in target.items() if p not in recorded and kind != "access" and before.get(p) is not None and before[p] != data]
        cwd = self.base
        if rng.random() < .15:  # from another directory
            cwd = self.side
            opts = opts + ["--dir", self.base]
        cmd, res = self.now("restore", *(opts + ([ref] if ref else [])), cwd=cwd)
        if res.timeout:
            self.c.problem("timeout of %s" % cmd)
            self.stop = True
            return
        after = self.tree()
        where = "restore %s of trial %s (%s, head %s)" % (" ".join(opts), trial.seq, trial.script, head.seq)
        fresh, tags = self.new_rows()
        if res.rc or res.sig:
            self.bad("C09", "command", "%s ended with %s: %s" % (where, res.rc, res.err[-300:]))
            self.stop = True
            return
        want = dict(before)
        for path, (_, data) in target.items():
            if data is None:
                want.pop(path, None)
            else:
                want[path] = data
        for path in sorted(set(want) | set(after)):
            if want.get(path) != after.get(path):
                kind = target.get(path, ("unrelated",))[0]
                self.bad("C09", kind, "%s: %s is %r instead of %r (before: %r)" % (
                    where, path, show(after.get(path)), show(want.get(path)), show(before.get(path))))
        if self.c.prop == "C09":
            self.c.observe(n=len(target), key=(tuple(sorted((p, d and sha1(d)) for p, (_, d) in target.items())), tuple(opts)), restores=1,
                           files_restored=sum(1 for p in target if before.get(p) != want.get(p)), files_removed=sum(1 for p, (_, d) in target.items() if d is None and p in before),
                           sample={"op": where, "files": sorted(target)})
        # backups
        want_backup = bool(differs)
        code_lost = bool(lost)
        if len(fresh) > 1 or any(r["status"] != "backup" for r in fresh):
            self.bad("C10", "backup-rows", "%s: stored trials %s" % (where, [(r["sequence_key"], r["status"]) for r in fresh]))
        if self.c.prop == "C10":
            self.c.observe(n=1, key=("backup", bool(fresh), tuple(sorted(differs)), tuple(sorted(lost)), tuple(opts)), restores=1, backups=len(fresh), needed=int(want_backup or code_lost),
                           sample={"op": where, "differs": differs, "lost": lost, "backups": len(fresh)})
        if (want_backup or code_lost) and not fresh:
            mech = "backup-missing" if want_backup else "backup-missing-other"
            self.bad("C10", mech, "%s: no backup was made although %s differ from the trial and %s would be lost" % (where, differs, lost))
        if fresh and not (want_backup or code_lost):
            self.bad("C10", "backup-needless", "%s: a backup was made although nothing differs" % where)
        # whatever was overwritten or removed can be retrieved
        for path, data in before.items():
            if after.get(path) != data and not path.startswith("//"):
                digest = (sha1 if self.engine == "plain" else git_blob_sha)(data)
                if content.read(self.base, digest) != data:
                    self.bad("C10", "content-lost", "%s: the former content of %s can not be retrieved" % (where, path))
                elif self.c.prop == "C10":
                    self.c.count(retrieved=1)
        if fresh:
            row = fresh[0]
            command = " ".join(cmd)
            code = before.get(trial.script) if flags["script"] else None
            tag = self.check_lineage(row, tags, code, command, True, trial.script)
            mods = {p: before.get(p) for p, (k, _) in recorded.items() if k == "module" and before.get(p) is not None}
            mods.update({p: before[p] for p in lost})
            mods.pop(trial.script, None)
            accs = {p: before.get(p) for p, (k, _) in recorded.items() if k == "access"}
            self.trials.append(Trial(id=row["id"], seq=row["sequence_key"], script=trial.script, code=code, command=command, tag=tag, start=row["start"],
                                     modules=mods, accesses=accs, sequence=[(p, d, d) for p, d in accs.items()], backup=True, inherits=False))
            self.log.append("-> backup %s modules %s accesses %s" % (row["sequence_key"], sorted(mods), sorted(accs)))
        self.heads[trial.script] = trial

    def op_file(self):
        """Restore one version of one file"""
        rng = self.rng
        trials = [t for t in self.trials if t.modules is not None and t.code is not None and not t.backup]
        if not trials:
            return
        trial = rng.choice(trials)
        choices = [(trial.script, 1, trial.code)]
        choices += [(p, 1, d) for p, d in trial.modules.items()]
        count = {p: 1 for p in list(trial.modules) + [trial.script]}
        for p, b, a in trial.sequence:
            k = count.get(p, 0)
            choices += [(p, k + 1, b), (p, k + 2, a)]
            count[p] = k + 2
        path, number, data = rng.choice(choices)
        if data is None:
            return
        how = rng.choice(["number", "hash", "short"])
        if path == trial.script and rng.random() < .4:
            how = "time"
        digest = (sha1 if self.engine == "plain" else git_blob_sha)(data)
        fid = {"number": str(number), "hash": digest, "short": digest[:12], "time": str(trial.start).replace("T", " ")}[how]
        to = rng.choice([None, "target.out", path, "new/dir/t.bin"])
        ref = rng.choice([str(trial.seq), trial.id, trial.tag or trial.id])
        args = [ref]
        if trial is self.last() and rng.random() < .3:
            args = []
        before = self.tree()
        nt = len(self.trials)
        args += ["-f", path]
        if how != "number" or number != 1 or rng.random() < .5:
            args += ["-i", fid]
        if to:
            args += ["-t", to]
        cmd, res = self.now("restore", *args)
        after = self.tree()
        want = dict(before)
        want[to or path] = data
        fresh, tags = self.new_rows()
        if self.c.prop == "C09":
            self.c.observe(n=1, key=("file", how, bool(to), trial.backup, data), single_files=1)
        if res.rc or res.sig or want != after or fresh:
            changed = {k: (show(after.get(k)), show(want.get(k))) for k in set(want) | set(after) if want.get(k) != after.get(k)}
            self.bad("C09", "file", "now %s ended with %s, files (got, expected) %s, %d new trials: %s %s" % (" ".join(cmd), res.rc, changed, len(fresh), res.out[-100:], res.err[-200:]))
            if fresh:
                self.stop = True

    def run(self):
        rng = self.rng
        self.versions = {}
        try:
            for path in UNRELATED:
                self.write(path, blob(rng))
            with open(self.side + "/s.txt", "wb") as fil:
                fil.write(b"side")
            for name, path in MODULES.items():
                self.write(path, module_text(rng, name))
            for path in DATA:
                if rng.random() < .7:
                    self.write(path, blob(rng))
            os.makedirs(self.base + "/sub", exist_ok=True)
            for script in SCRIPTS:
                prog = Program(rng, self.base)
                self.versions[script] = [prog]
                self.programs[script] = prog
                self.write(script, prog.data)
            self.op_run()
            for _ in range(self.length):
                if self.stop:
                    break
                kind = rng.random()
                if kind < .3:
                    self.op_edit()
                elif kind < .6:
                    self.op_run()
                elif kind < .88:
                    self.op_restore()
                else:
                    self.op_file()
            self.c.count(histories=1, trials=len(self.trials))
        finally:
            shutil.rmtree(self.base, ignore_errors=True)
            shutil.rmtree(self.side, ignore_errors=True)


def show(data):
    return None if data is None else data[:40]


def body(c, quick=40, thorough=700, length=14):
    deadline = c.t0 + (thorough if c.thorough else quick)

    def one(k):
        if time.time() > deadline:
            return
        rng = c.rng("history", k)
        History(c, rng, length if not c.thorough else rng.choice([length, 30])).run()
    pool().map(one, range(100000 if c.thorough else 4000))
