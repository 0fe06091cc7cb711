"""C20: modules, environment and arguments in effect are recorded.

Generated trees of modules (packages, relative, circular, lazy, failing, reloaded, compiled only, odd encodings, modules
that rewrite or delete themselves or others) tell themselves what was executed and with which bytes; the stored rows
and the content store are judged by that. Environment and options are set by the check, hostile values included."""
import importlib.util
import os
import platform
import py_compile
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from tracecmp import *  # noqa
import content
from c21 import Canon, diff

HEAD = "LOG.append(['start', __name__, __file__, SOURCE(__file__)])\n"
TAIL = "LOG.append(['end', __name__, __file__])\n"
SCRIPT = """import builtins, json, sys, os, shutil, importlib
builtins.LOG = []
def SOURCE(path):
    fd = os.open(path, os.O_RDONLY)
    try:
        return os.read(fd, 10 ** 6).hex()
    finally:
        os.close(fd)
builtins.SOURCE = SOURCE
builtins.BASE = os.path.dirname(os.path.abspath(__file__))
def REWRITE(path, text):
    fd = os.open(path, os.O_WRONLY | os.O_TRUNC | os.O_CREAT)
    os.write(fd, text.encode())
    os.close(fd)
builtins.REWRITE = REWRITE
builtins.HEAD_ = %r
builtins.TAIL_ = %r
sys.path += [BASE + '/extra', BASE + '/zip.zip']
sys.dont_write_bytecode = True
r = 0
""" % (HEAD, TAIL)
END = """
print(r)
print('@LOG', json.dumps(LOG))
"""


def module(rng, others, name):
    """Text of a module -> (bytes, needs) that may import others"""
    head, text = "", ""
    enc = "utf-8"
    p = rng.random()
    if p < .1:
        enc, head, text = "latin-1", "# -*- coding: latin-1 -*-\n", "S = 'caf\xe9'\n"
    elif p < .2:
        text = "S = '\u4f60 \xe9'\n"
    text += HEAD
    p = rng.random()
    if p < .2:
        text += "__version__ = '%d.%d'\n" % (rng.randrange(9), rng.randrange(9))
    elif p < .3:
        text += "__version__ = (%d, %d, 'b')\n" % (rng.randrange(9), rng.randrange(9))
    elif p < .4:
        text += "VERSION = '7.%d'\n" % rng.randrange(9)
    elif p < .5:
        text += "def version(): return 1\n__VERSION__ = '8.%d'\n" % rng.randrange(9)
    for o in rng.sample(others, min(len(others), rng.choice([0, 0, 1, 2]))):
        text += rng.choice(["import %s\n" % o, "try:\n    import %s\nexcept Exception as e:\n    pass\n" % o, "if len(LOG) %% 2:\n    import %s\n" % o])
    p = rng.random()
    if p < .1:
        text += "REWRITE(__file__, HEAD_ + 'CHANGED = 1\\n' + TAIL_)\n"
    elif p < .17:
        text += "os = __import__('os')\nos.remove(__file__)\n"
    elif p < .24:
        text += "raise ImportError('not today')\n"
    elif p < .28:
        text += "1 / 0\n"
    elif p < .33:
        text += "__name__ = 'other_name'\n" if False else "x = [i for i in range(3)]\n"
    text += "def f(x):\n    return x + %d\n" % rng.randrange(50)
    data = (head + text + TAIL).encode(enc)
    if rng.random() < .1:
        data = data.replace(b"\n", b"\r\n")
    if enc == "utf-8" and rng.random() < .07:
        data = b"\xef\xbb\xbf" + data
    if rng.random() < .1:
        data = data.rstrip(b"\n")
    return data


def project(rng):
    files, names = {}, []
    for k in range(rng.randrange(3, 8)):
        kind = rng.choice(["module", "module", "module", "extra", "package", "namespace", "pyc", "relative"])
        name = "mod%d" % k
        if kind in ("module", "extra"):
            files[("extra/" if kind == "extra" else "") + name + ".py"] = module(rng, names, name)
            names.append(name)
        elif kind == "package":
            files["%s/__init__.py" % name] = rng.choice([module(rng, names, name), (HEAD + "from . import sub\n" + TAIL).encode(), b""])
            files["%s/sub.py" % name] = module(rng, names, name)
            names += [name, name + ".sub"]
        elif kind == "relative":
            files["%s/__init__.py" % name] = (HEAD + "from .a import b\nfrom .a.c import *\n" + TAIL).encode()
            files["%s/a/__init__.py" % name] = (HEAD + "from .. import a as self_\nfrom . import b\n" + TAIL).encode()
            files["%s/a/b.py" % name] = (HEAD + "import %s\nfrom ...%s import a\n" % (name, name) + TAIL).encode() if rng.random() < .3 else (HEAD + "import %s\n" % name + TAIL).encode()
            files["%s/a/c.py" % name] = module(rng, names, name)
            names += [name, name + ".a.b"]
        elif kind == "namespace":
            files["%s/part.py" % name] = module(rng, names, name)
            files["extra/%s/other.py" % name] = module(rng, names, name)
            names += [name + ".part", name + ".other"]
        else:
            files["pyc_src/%s.py" % name] = ("LOG.append(['start', __name__, __file__, SOURCE(__file__)])\nQ = %d\n" % k + TAIL).encode()
            names.append(name)
    lines = []
    for n in range(rng.randrange(3, 10)):
        name = rng.choice(names)
        how = rng.randrange(7)
        body = ["import %s" % name, "from %s import f" % name, "importlib.import_module(%r)" % name, "__import__(%r)" % name,
                "if %s in sys.modules: importlib.reload(sys.modules[%s])" % (repr(name), repr(name)),
                "sys.modules.pop(%r, None); import %s" % (name, name),
                "exec('import %s')" % name][how]
        lines += ["try:", "    " + body, "    r += 1", "except Exception as e:", "    r -= 1"]
        p = rng.random()
        if p < .15:
            victim = rng.choice([f for f in files if f.endswith(".py")])
            lines += ["if os.path.exists(BASE + '/%s'): REWRITE(BASE + '/%s', HEAD_ + 'LATER = 1\\n' + TAIL_)" % (victim, victim)]
        elif p < .3:
            lines += ["try:", "    import %s" % rng.choice(["missing_module", "mod0.nothing", "xxlimited", "this_is.not_there"]), "except Exception as e:", "    r += 100"]
    return files, lines


def build(base, files):
    write_files(base, {k: v for k, v in files.items() if k != "script.py"})
    for k in files:
        if k.startswith("pyc_src/"):
            py_compile.compile(base + "/" + k, base + "/" + os.path.basename(k) + "c", doraise=True)
    shutil.rmtree(base + "/pyc_src", ignore_errors=True)
    with open(base + "/script.py", "wb") as fil:
        fil.write(files["script.py"])


def stored_modules(base, trial):
    db = DB(base)
    try:
        return db.rows("select m.*, b.code_hash, c.type ctype from module m left join code_block b on b.trial_id = m.trial_id and b.id = m.code_block_id "
                       "left join code_component c on c.trial_id = m.trial_id and c.id = m.code_block_id where m.trial_id = ? order by m.id", trial)
    finally:
        db.close()


def expect_version(data, compiled):
    """Version that the module declares"""
    text = data.decode("latin-1")
    for attr in ("__version__", "version", "__VERSION__", "VERSION"):
        m = re.search(r"^%s = (.*?)\r?$" % attr, text, re.M)
        if m:
            v = eval(m.group(1))
            return v if isinstance(v, str) else ".".join(map(str, v))
    return None


def module_case(c, i):
    rng = c.rng("modules", i)
    files, lines = project(rng)
    label = "modules:%d" % i
    files["script.py"] = (SCRIPT + "\n".join(lines) + END).encode()
    engine = rng.choice(["plain", "plain", "dulwich"])
    trees = {}
    runs = []
    ctxs = rng.choice([["main"], ["main", "bypass"], ["main", "bypass"], ["package", "bypass"], ["main", "package"]])
    base = os.path.realpath(new_dir("c20"))
    rep = {"files": {k: v.decode("latin-1") for k, v in files.items()}, "engine": engine}
    try:
        for ctx in ctxs:
            build(base, files)
            argv = ["run", "--content-engine", engine] + (["-b"] if ctx == "bypass" else ["-c", ctx])
            res = pool().now(base, *(argv + ["script.py"]), timeout=60)
            if res.timeout:
                c.count(not_comparable=1)
                return
            out, tail = split_tail(res.out)
            if "@LOG" not in out:
                c.violation("run", "%s %s: the script did not end under capture: %s" % (label, ctx, (tail + res.err)[-300:]), rep)
                return
            log = json.loads(out[out.index("@LOG") + 5:])
            db = DB(base)
            trial = db.one("select * from trial order by start desc limit 1")
            db.close()
            rows = stored_modules(base, trial["id"])
            done = Counter((e[1], e[2]) for e in log if e[0] == "end")
            bytes_ = {}
            for e in log:
                if e[0] == "start":
                    bytes_.setdefault((e[1], e[2]), []).append(bytes.fromhex(e[3]))
            empty, told = [k for k, v in files.items() if v == b""], set(bytes_)
            local = [r for r in rows if r["path"].startswith(base + "/")]
            for r in local:  # empty packages do not tell
                rel = os.path.relpath(r["path"], base)
                if rel in empty and (r["name"], r["path"]) not in told:
                    done[(r["name"], r["path"])] += 1
                    bytes_.setdefault((r["name"], r["path"]), [b""])
            got = Counter((r["name"], r["path"]) for r in local)
            if ctx == "bypass":
                if rows:
                    c.violation("bypass", "%s: modules recorded by a run that bypasses modules: %s" % (label, [r["name"] for r in rows][:4]), rep)
                if runs and trial["modules_inherited_from_trial_id"] != runs[-1]["id"]:
                    c.violation("bypass", "%s: the modules of a run that bypasses modules come from %s, the last run with modules is %s" % (
                        label, trial["modules_inherited_from_trial_id"], runs[-1]["id"]), rep)
            else:
                if got != done:
                    c.violation("modules", "%s -c %s: modules executed and not recorded: %s, recorded and not executed: %s" % (
                        label, ctx, sorted((done - got).items())[:3], sorted((got - done).items())[:3]), rep)
                if trial["modules_inherited_from_trial_id"] is not None:
                    c.violation("bypass", "%s: a run with its own modules inherits them from another trial" % label, rep)
                if "import xxlimited" in "".join(lines) and not [r for r in rows if r["name"] == "xxlimited"]:
                    if "xxlimited" in out:
                        c.violation("modules", "%s: extension module not recorded" % label, rep)
                seen = Counter()
                for r in local:
                    key = (r["name"], r["path"])
                    k = seen[key]
                    seen[key] += 1
                    if key not in bytes_:
                        continue
                    data = content.read(base, r["code_hash"]) if r["code_hash"] else None
                    if data not in bytes_[key]:
                        c.violation("content", "%s -c %s: stored content of module %s is %r, executed was %r" % (
                            label, ctx, r["name"], (data or b"")[:80] if data is not None else None, bytes_[key][0][:80]), rep)
                    versions = {expect_version(b, r["path"].endswith(".pyc")) for b in bytes_[key]}
                    if not r["path"].endswith(".pyc") and b"import *" not in bytes_[key][0] and (r["version"] not in versions):
                        c.violation("version", "%s: module %s has version %r, declared %s" % (label, r["name"], r["version"], versions), rep)
                    c.count(modules_checked=1)
            for r in rows:
                if r["ctype"] not in ("module", "script"):
                    c.violation("modules", "%s: module %s has no code block" % (label, r["name"]), rep)
            canon = Canon(Stored(base, trial["id"]), base)
            if ctx in ("main", "bypass"):
                trees[ctx] = canon
            if ctx != "bypass":
                runs.append(trial)
            c.observe(key=(sorted(done.items(), key=repr), ctx), nontrivial=len(done) > 1, n=len(log), module_runs=1, modules_executed=sum(done.values()),
                      failed_imports=len([e for e in log if e[0] == "start"]) - len([e for e in log if e[0] == "end"]),
                      sample={"case": label, "context": ctx, "modules": [m for m, _ in list(done)[:6]]})
        if len(trees) == 2 and not any("REWRITE(" in l for l in lines):
            diffs = diff("calls", trees["main"].calls(99), trees["bypass"].calls(99)) + diff("dependencies", trees["main"].edges(99), trees["bypass"].edges(99))
            for x in diffs[:2]:
                c.violation("bypass", "%s: records that are not modules differ when modules are bypassed: %s" % (label, x), rep)
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ----------------------------------------------------------------------------------------------------- environment, options
VALUES = ["", " ", "1", "a=b", "two\nlines", "caf\xe9 \u4f60", "x" * 5000, "'quoted' \"twice\"", "\\back", "None", "tab\there", "\udcff\udc80raw", "%s %d {0}", "\x01\x7f"]


def expected_platform(cwd):
    res = {"OS_NAME": platform.system(), "OS_RELEASE": platform.release(), "OS_VERSION": platform.version(), "PWD": cwd,
           "ARCH": platform.architecture()[0], "PYTHON_IMPLEMENTATION": platform.python_implementation(), "HOSTNAME": platform.node()}
    for name in os.sysconf_names:
        if "AVPHYS" in name:
            continue
        try:
            res[name] = str(os.sysconf(name))
        except (ValueError, OSError):
            pass
    for name in os.confstr_names:
        res[name] = os.confstr(name)
    return res


def option_case(c, i):
    rng = c.rng("options", i)
    label = "options:%d" % i
    root = os.path.realpath(new_dir("c20"))
    base = root + rng.choice(["", "", "", "/two words", "/q?v=1&x", "/p%20c#h", "/caf\xe9", "/a:b", "/'s"])
    files = {"script.py": "import sys, os, json\nprint(json.dumps([os.getpid(), sys.version.split()[0], sys.getrecursionlimit()]))\n", "in/side/script.py": "import sys, os, json\nprint(json.dumps([os.getpid(), sys.version.split()[0], sys.getrecursionlimit()]))\n"}
    try:
        write_files(base, files)
        script = rng.choice(["script.py", "in/side/script.py", "./script.py", base + "/script.py"])
        want = {"bypass_modules": False, "context": "main", "name": None, "dir": None, "verbose": False, "message": None, "content_engine": None,
                "create_last": False, "meta": False, "script": os.path.realpath(os.path.join(base, script))}
        argv = ["run"]
        pick = lambda p=.35: rng.random() < p  # noqa
        parts = []
        if pick():
            want["depth"] = rng.choice([0, 1, 2, 50, 100000])
            parts.append([rng.choice(["-d", "--depth"]), str(want["depth"])])
        if pick():
            want["context"] = rng.choice(["main", "package", "all"])
            parts.append(["-c", want["context"]])
        if pick():
            want["save_frequency"] = rng.choice([0, 10, 1000])
            parts.append(["-s", str(want["save_frequency"])])
        if pick():
            want["call_storage_frequency"] = rng.choice([0, 3, 10000])
            parts.append(["--call-storage-frequency=%d" % want["call_storage_frequency"]])
        if pick():
            want["name"] = rng.choice(["other", "two words", "n\xe9w", "a/b.py", "'q'"])
            parts.append(["--name", want["name"]])
        if pick():
            want["message"] = rng.choice(["msg", "a 'quoted' one", "new\nline", "\u4f60", ""])
            parts.append(["--message", want["message"]])
        if pick(.25):
            want["verbose"] = True
            parts.append(["-v"])
        if pick(.8):
            want["content_engine"] = rng.choice(["plain", "plain", "dulwich"])
            parts.append(["--content-engine", want["content_engine"]])
        want["dir"] = rng.choice([None, None, "store", base + "/abs"])
        home = os.path.dirname(want["script"])
        if want["dir"]:
            home = os.path.join(base, want["dir"])
            os.makedirs(home)
            parts.append(["--dir", want["dir"]])
        rng.shuffle(parts)
        for p in parts:
            argv += p
        rest = rng.sample(["-d", "9", "--name", "x y", "", "caf\xe9", "--", "-b", "\udcff"], rng.randrange(4))
        argv += [script] + rest
        want["argv"] = [script] + rest
        env = {rng.choice(["NW_A", "nw_b", "NW C", "NW\xe9", "OS_NAME", "USER", "NW_%d" % k]): rng.choice(VALUES) for k in range(rng.randrange(1, 6))}
        res = pool().now(base, *argv, timeout=60, env=env)
        rep = {"argv": argv, "env": env, "files": files}
        if res.timeout:
            c.count(not_comparable=1)
            return
        m = re.search(r"^\[(\d+), \"(.*?)\", (\d+)\]", res.out, re.M)
        if not m:
            c.violation("run", "%s: now %s with %r: %s" % (label, argv, env, (res.out + res.err)[-400:]), rep)
            return
        db = DB(home)
        trial = db.one("select * from trial order by start desc limit 1")
        args = Counter((r["name"], r["value"]) for r in db.rows("select * from argument where trial_id=?", trial["id"]))
        attrs = [(r["name"], r["value"]) for r in db.rows("select * from environment_attr where trial_id=? order by id", trial["id"])]
        db.close()
        for name, value in want.items():
            if name == "dir":
                ok = any((name, repr(v)) in args for v in ([None] if value is None else [value, home]))
            else:
                ok = args[(name, repr(value))] == 1
            if not ok:
                c.violation("arguments", "%s: option %s is %r and the trial says %s" % (label, name, value, [v for n, v in args if n == name]), rep)
            c.count(arguments_checked=1)
        for name in ("depth", "save_frequency", "call_storage_frequency"):
            if name not in want and not [n for n, v in args if n == name and v.isdigit()]:
                c.violation("arguments", "%s: option %s is not recorded" % (label, name), rep)
        many = [n for n, k in Counter(n for n, _ in args.elements()).items() if k > 1]
        if many:
            c.violation("arguments", "%s: options recorded twice: %s" % (label, many), rep)
        name = want["name"] or os.path.basename(script)
        if (trial["script"], trial["path"], trial["command"]) != (name, os.path.dirname(want["script"]), " ".join(argv)):
            if "\udcff" not in "".join(argv):
                c.violation("trial", "%s: the trial has script %r, path %r, command %r; it was %r, %r, %r" % (
                    label, trial["script"], trial["path"], trial["command"], name, os.path.dirname(want["script"]), " ".join(argv)), rep)
        have = set(attrs)
        for k, v in env.items():
            if (k, v) not in have and "\udcff" not in v:
                c.violation("environment", "%s: environment variable %r is %r and the trial says %r" % (label, k, v, [x for n, x in attrs if n == k]), rep)
            elif "\udcff" in v and not [x for n, x in attrs if n == k]:
                c.violation("environment", "%s: environment variable %r with bytes that are not text is not recorded" % (label, k), rep)
        last = dict(attrs)
        facts = expected_platform(base)
        facts.update({"PID": m.group(1), "PYTHON_VERSION": m.group(2)})
        for k, v in facts.items():
            if (k, v) not in have:
                c.violation("environment", "%s: %s is %r and the trial says %r" % (label, k, v, last.get(k)), rep)
            c.count(facts_checked=1)
        inherited = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
        for k in ("PATH", "NOWORKFLOW_VERSION"):
            if k not in last:
                c.violation("environment", "%s: %s is not recorded" % (label, k), rep)
        c.observe(key=(sorted(want), sorted(env)), nontrivial=True, n=len(args) + len(attrs), option_runs=1, variables=len(env),
                  sample={"case": label, "argv": argv[:12], "env": {k: v[:20] for k, v in env.items()}})
        del inherited
    finally:
        shutil.rmtree(root, ignore_errors=True)


def body(c):
    n = 150 if not c.thorough else 4000
    items = [(module_case, i) for i in range(n)] + [(option_case, i) for i in range(n // 2)]
    c.rng("order").shuffle(items)

    def one(item):
        if c.elapsed() > (float(os.environ.get("C20_T", 32)) if not c.thorough else 600):
            c.count(skipped_by_time=1)
        else:
            item[0](c, item[1])
    pool().map(one, items)


if __name__ == "__main__":
    chk = Check("C20", "exercised", "one case = one run; distinct (modules executed, context) and (options, variables)", 40)
    sys.exit(main(chk, body))
