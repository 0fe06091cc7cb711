"""C12: each trial records how the run really went.

Monitor: the trial rows left by real `now run` commands vs the exit status of the same script under plain Python,
over ways of ending x places where it ends x options."""
import ast
import datetime
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from runs import *  # noqa
import content
import corpus

# statements that end the run (or not)
ENDS = {
    "fall": "pass",
    "exit_none": "import sys; sys.exit()",
    "exit_0": "import sys; sys.exit(0)",
    "exit_1": "import sys; sys.exit(1)",
    "exit_255": "import sys; sys.exit(255)",
    "exit_neg": "import sys; sys.exit(-1)",
    "exit_true": "import sys; sys.exit(True)",
    "exit_false": "import sys; sys.exit(False)",
    "exit_str": "import sys; sys.exit('failed')",
    "exit_empty": "import sys; sys.exit('')",
    "exit_tuple": "import sys; sys.exit((1, 2))",
    "exit_list": "import sys; sys.exit([])",
    "exit_obj": "import sys; sys.exit(object)",
    "raise_exit": "raise SystemExit",
    "raise_exit3": "raise SystemExit(3)",
    "raise_exit_args": "raise SystemExit(0, 1)",
    "builtin_exit": "exit()",
    "builtin_quit": "quit(2)",
    "value": "raise ValueError('x')",
    "value_class": "raise ValueError",
    "zero": "1 / 0",
    "name": "undefined_name",
    "key": "{}['k']",
    "attr": "(1).nothing",
    "type": "len(1, 2, 3)",
    "assert_": "assert 1 == 2, 'no'",
    "keyboard": "raise KeyboardInterrupt",
    "generator_exit": "raise GeneratorExit('x')",
    "stop": "raise StopIteration(4)",
    "base": "raise BaseException('b')",
    "custom": "class E(Exception):\n    def __str__(self): raise RuntimeError('bad str')\nraise E('y')",
    "custom_repr": "class E2(BaseException):\n    def __repr__(self): return 'E2!'\nraise E2",
    "bad_repr": "class E3(Exception):\n    def __repr__(self): raise RuntimeError('bad repr')\nraise E3(1)",
    "unicode": "raise ValueError('\\u00e9\\u4e2d \\udcff')",
    "sub_exit": "class X(SystemExit): pass\nraise X(0)",
    "sub_exit1": "class X1(SystemExit): pass\nraise X1('z')",
    "chain": "try:\n    1 / 0\nexcept ZeroDivisionError as e:\n    raise KeyError('c') from e",
    "context": "try:\n    1 / 0\nfinally:\n    {}['x']",
    "group": "raise ExceptionGroup('g', [ValueError(1), TypeError(2)])",
    "caught": "try:\n    1 / 0\nexcept ZeroDivisionError:\n    pass",
    "caught_exit": "try:\n    raise SystemExit(5)\nexcept SystemExit:\n    pass",
    "exit_in_finally": "try:\n    raise ValueError\nfinally:\n    raise SystemExit(0)",
    "import_missing": "import module_that_does_not_exist",
    "import_failing": "import failing_mod",
    "import_exit": "import exiting_mod",
    "import_syntax": "import syntax_mod",
    "recursion": "def rec(n): return rec(n + 1)\nrec(0)",
    "eval_syntax": "eval('1 +')",
    "compile_err": "exec('raise OSError(3)')",
    "chdir": "import os; os.makedirs('sub_dir', exist_ok=True); os.chdir('sub_dir')",
    "chdir_fail": "import os; os.makedirs('sub_dir2', exist_ok=True); os.chdir('sub_dir2'); 1 / 0",
    "argv": "import sys; sys.argv[:] = []",
    "change_path": "import sys; sys.path[:] = sys.path[1:]",
    "self_edit": "open(__file__, 'a').write('\\n# changed\\n')",
    "self_remove": "import os; os.remove(__file__)",
    "no_stdout": "import sys, io; sys.stdout = io.StringIO()",
    "thread_exc": "import threading\nt = threading.Thread(target=lambda: 1 / 0)\nt.start(); t.join()",
    "atexit_": "import atexit; atexit.register(print, 'bye')",
    "del_all": "for k in list(globals()):\n    if not k.startswith('__'): del globals()[k]",
    "warn": "import warnings; warnings.warn('w')",
    "excepthook": "import sys; sys.excepthook = lambda *a: None\nraise ValueError('hooked')",
    "recursionlimit": "import sys; sys.setrecursionlimit(150)",
    "tracefn": "import sys; sys.settrace(None); sys.setprofile(None)",
    "gc_": "import gc; gc.collect(); gc.disable()",
    "openless": "import builtins; builtins.print('x')",
    "env": "import os; os.environ['HOME'] = '/nonexistent'; os.environ['NOW'] = 'x'",
    "main_attr": "import __main__; print(__main__.__name__)",
    "rebind": "open = len = None",
    "cd_remove": "import os; os.mkdir('gone'); os.chdir('gone'); os.rmdir('../gone')",
}
# where it ends
PLACES = {
    "top": "{0}",
    "function": "def f():\n    a = 1\n{1}\n    return a\nf()\nprint('after')",
    "nested": "def f(n):\n    def g(m):\n        if m <= 0:\n{3}\n        else:\n            g(m - 1)\n    g(n)\nf(3)\nprint('after')",
    "loop": "for i in range(3):\n    if i == 1:\n{2}\nprint('after')",
    "while": "i = 0\nwhile True:\n    i += 1\n    if i > 2:\n{2}\n        break",
    "class": "class C:\n    x = 1\n{1}\nprint(C.x)",
    "method": "class C:\n    def m(self):\n        def f():\n{3}\n        return f()\nC().m()",
    "with": "class W:\n    def __enter__(self): return self\n    def __exit__(self, *a): return False\nwith W() as w:\n{1}",
    "swallow": "class W:\n    def __enter__(self): return self\n    def __exit__(self, *a): return True\nwith W() as w:\n{1}\nprint('end')",
    "try": "try:\n{1}\nexcept OSError:\n    print('no')\nelse:\n    print('else')\nfinally:\n    print('finally')",
    "except": "try:\n    int('x')\nexcept ValueError as e:\n{1}",
    "generator": "def g():\n    yield 1\n{1}\n    yield 2\nfor x in g():\n    print(x)",
    "callback": "def f(x):\n{1}\n    return x\nprint(sorted([2, 1], key=f))",
    "comprehension": "def f(x):\n{1}\n    return x\nprint([f(x) for x in range(2)])",
    "decorated": "def d(fn):\n    return fn\n@d\ndef f():\n{1}\nf()",
    "module": "import ending_mod\nprint('after')",
    "property": "class P:\n    @property\n    def p(self):\n        def f():\n{3}\n        return f()\nP().p",
    "del": "class D:\n    def __del__(self): print('del')\nd = D()\n{0}",
}
OPTS = [(), (), ("-d", "1"), ("-d", "2"), ("-c", "package"), ("-c", "all"), ("-v",), ("--name", "other name"), ("--message", "m"), ("-s", "1")]
ARGV = [[], [], ["1"], ["-x", "--name=z", "é", ""], ["a b", "-d", "3"], ["--", "-"]]


def program(end, place):
    stmt = ENDS[end]
    tmpl = PLACES[place]
    ind = [stmt] + ["\n".join("    " * k + l for l in stmt.split("\n")) for k in (1, 2, 3)]
    files = {
        "failing_mod.py": "x = 1\nraise RuntimeError('module')\n",
        "exiting_mod.py": "import sys\nsys.exit(0)\n",
        "syntax_mod.py": "def f(:\n",
    }
    text = "print('start')\nv = 1 + 2\n"
    if place == "module":
        files["ending_mod.py"] = "y = 1\n" + stmt + "\n"
    if place in ("class", "method", "property") and "__file__" in stmt:
        pass
    files["script.py"] = text + tmpl.format(*ind) + "\n"
    return files


def special():
    yield "syntax", {"script.py": "print('a')\ndef f(:\n"}
    yield "indent", {"script.py": "if True:\nprint(1)\n"}
    yield "empty", {"script.py": ""}
    yield "comment", {"script.py": "# nothing"}
    yield "docstring", {"script.py": "'''doc'''\n"}
    yield "future", {"script.py": "'''doc'''\nfrom __future__ import annotations\nx: int = 3\n"}
    yield "return_outside", {"script.py": "return 3\n"}
    yield "nul", {"script.py": "x = 1\0\n"}
    yield "encoding", {"script.py": "# -*- coding: latin-1 -*-\nx = 'abc'\nprint(x)\n"}
    yield "bad_encoding", {"script.py": "# -*- coding: not-a-codec -*-\nx = 1\n"}
    yield "crlf", {"script.py": "x = 1\r\nif x:\r\n    print(x)\r\n"}
    yield "tabs", {"script.py": "if 1:\n\tprint(1)\n"}
    yield "bom", {"script.py": "\ufeffprint('bom')\n"}
    yield "nonl", {"script.py": "print('x')"}
    yield "latin", {"script.py": "# -*- coding: latin-1 -*-\nx = 'caf\u00e9'\nprint(len(x))\n".encode("latin-1")}
    yield "closed", {"script.py": "import sys\nprint(1)\nsys.stdout.close()\nsys.stdout = sys.stderr\n"}
    yield "closed_fail", {"script.py": "import sys\nprint(1)\nsys.stdout.close()\nsys.stdout = sys.stderr\n1/0\n"}
    yield "none_stdout", {"script.py": "import sys\nsys.stdout = None\nsys.stderr = None\nprint(1)\n1/0\n"}
    yield "replaced", {"script.py": "import sys, io\nsys.stdout = io.StringIO()\nprint(1)\nraise KeyError(3)\n"}
    yield "chdir", {"script.py": "import os\nos.makedirs('sub/dir', exist_ok=True)\nos.chdir('sub/dir')\nopen('f.txt', 'w').write('x')\nprint(os.path.basename(os.getcwd()))\n"}
    yield "removed_cwd", {"script.py": "import os\nos.makedirs('gone', exist_ok=True)\nos.chdir('gone')\nos.rmdir(os.getcwd())\n"}
    yield "own_removed", {"script.py": "import os\nos.remove(__file__)\nprint('removed')\n"}
    yield "builtins", {"script.py": "import builtins\nbuiltins.print = lambda *a: None\nbuiltins.open = None\nprint(1)\n"}
    yield "argv", {"script.py": "import sys\nsys.argv[:] = ['changed']\nprint(len(sys.argv))\n"}
    yield "atexit", {"script.py": "import atexit\natexit.register(lambda: print('bye'))\n"}
    yield "path", {"script.py": "import sys\nsys.path[:] = []\nsys.meta_path[:] = []\nprint('x')\n"}
    yield "modules", {"script.py": "import sys\nfor k in ('json', 'ast', 'os.path'):\n    sys.modules.pop(k, None)\nprint('x')\n"}
    yield "reclimit", {"script.py": "import sys\nsys.setrecursionlimit(400)\nprint('x')\n"}
    yield "thread", {"script.py": "import threading\ndef f(): print('t')\nt = threading.Thread(target=f)\nt.start()\nt.join()\n"}
    yield "formfeed", {"script.py": "x = 1\n\x0c\nprint(x)\n"}


def as_bytes(text):
    return text if isinstance(text, bytes) else text.encode()


def judge(c, key, files, opts, argv, engine, rng):
    base = new_dir("p")
    d = new_dir("n")
    try:
        try:
            write_files(base, files)
            plain = plain_python(base, "script.py", *argv, stdin=b"", timeout=20)
        except subprocess.TimeoutExpired:
            c.count(unusable=1)
            return
        other = rng.random() < .15
        cwd = d
        script = "script.py"
        write_files(d, files)
        if other:  # run from another directory
            cwd = os.path.join(d, "elsewhere")
            os.makedirs(cwd)
            script = "../script.py"
        cmd = ["run"] + (["--content-engine", engine] if engine else []) + list(opts) + [script] + argv
        t0 = datetime.datetime.now()
        res = pool().now(cwd, *cmd, stdin="", timeout=60)
        t1 = datetime.datetime.now()
        replay = {"files": files, "cmd": cmd, "engine": engine}
        path = d + "/.noworkflow/db.sqlite"

        def bad(mech, msg):
            c.violation(mech, "%s: %s" % (key, msg), replay)
        if res.timeout:
            c.count(timeouts=1)
            return
        if not os.path.exists(path):
            bad("no-trial", "no provenance was stored: %s" % res.err[-200:])
            return
        db = DB(d)
        trials = db.rows("select * from trial")
        arguments = {r["name"]: r["value"] for r in db.rows("select name, value from argument")}
        block = db.rows("select code_hash from code_block where id=1")
        tags = db.rows("select * from tag")
        db.close()
        c.observe(key=key, n=1, sample={"case": str(key), "plain_rc": plain.rc, "status": trials[0]["status"] if trials else None},
                  **{"ended_" + ("ok" if plain.rc == 0 else "failing"): 1})
        if len(trials) != 1:
            bad("trials", "%d trials recorded" % len(trials))
            return
        t = trials[0]
        want = "finished" if plain.rc == 0 else "unfinished"
        if t["status"] != want:
            bad("status", "plain Python ends with status %s, trial is %s (%s)" % (plain.rc, t["status"], res.err.strip()[-200:]))
            return
        if res.sig or (res.rc != 0):
            bad("command", "`now run` ended with %s/%s: %s" % (res.rc, res.sig, res.err[-300:]))
        if os.path.realpath(t["path"]) != os.path.realpath(d):
            bad("path", "path is %s instead of %s" % (t["path"], d))
        name = dict(zip(opts[::2], opts[1::2])).get("--name", "script.py")
        if t["script"] != name:
            bad("script", "script is %r instead of %r" % (t["script"], name))
        fmt = lambda v: datetime.datetime.fromisoformat(v) if v else None  # noqa
        start, finish = fmt(t["start"]), fmt(t["finish"])
        if not start or not finish or not (t0 <= start <= finish <= t1):
            bad("time", "start %s, finish %s, command ran from %s to %s" % (start, finish, t0, t1))
        if t["command"] != " ".join(cmd):
            bad("command-line", "command is %r instead of %r" % (t["command"], " ".join(cmd)))
        try:
            if ast.literal_eval(arguments["argv"])[1:] != argv:
                bad("argv", "arguments are %s instead of %s" % (arguments["argv"], argv))
        except Exception:
            bad("argv", "arguments are %r instead of %s" % (arguments.get("argv"), argv))
        want_args = {"-d": ("depth", str), "-c": ("context", repr), "-s": ("save_frequency", str), "--name": ("name", repr), "--message": ("message", repr)}
        for k in range(0, len(opts) - 1, 2):
            arg, conv = want_args[opts[k]]
            if arguments.get(arg) != conv(opts[k + 1]):
                bad("argument", "argument %s is %s, given %s" % (arg, arguments.get(arg), opts[k + 1]))
        if not block or content.read(d, block[0]["code_hash"]) != as_bytes(files["script.py"]):
            bad("script-content", "the content of the script that ran is not stored")
        if not tags:
            bad("tag", "the trial has no automatic tag")
        # the trial can be shown and the store still works
        if rng.random() < .12:
            r2 = pool().now(d, "show", "1", timeout=30)
            if r2.rc:
                bad("show", "`now show` fails: %s" % r2.err[-200:])
            r3 = pool().now(d, "run", "--content-engine", engine or "pygit", "script.py", timeout=60) if os.path.exists(d + "/script.py") else None
            db = DB(d)
            left = db.rows("select status from trial where status not in ('finished', 'unfinished')")
            n = db.scalar("select count(*) from trial")
            db.close()
            if left or (r3 is not None and n != 2):
                bad("next-run", "after the next run there are %d trials, statuses %s" % (n, left))
            c.count(next_runs=1)
    finally:
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)


def body(c):
    rng = c.rng("order")
    jobs = [(("special", name), files) for name, files in special()]
    pairs = [(e, p) for e in ENDS for p in PLACES]
    jobs += [((e, "top"), program(e, "top")) for e in ENDS]
    rng.shuffle(pairs)
    n, budget = (170, 60) if not c.thorough else (len(pairs), 780)
    jobs += [((e, p), program(e, p)) for e, p in pairs[:n]]
    if c.thorough:
        jobs += [((e, p, "again"), program(e, p)) for e, p in pairs]

    def go(item):
        k, (key, files) = item
        if c.elapsed() > budget:
            c.count(skipped_by_time=1)
            return
        rng = c.rng("case", k)
        engine = rng.choice(["plain"] * 5 + [None, "sequential_pygit", "dulwich"])
        judge(c, key, files, rng.choice(OPTS), rng.choice(ARGV), engine, rng)
    pool().map(go, list(enumerate(jobs)))


main(Check("C12", "exploration",
           "status, script, content, command, arguments, path and times of the trial agree with how the script ends under plain Python",
           min_eval=30), body)
