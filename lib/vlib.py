"""Shared machinery of the runtime-monitoring checks."""
import atexit
import contextlib
import hashlib
import json
import os
import queue
import random
import shutil
import signal
import sqlite3
import subprocess
import sys
import urllib.parse
import tempfile
import threading
import time
import traceback
from collections import Counter, defaultdict, namedtuple

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8", PYTHONIOENCODING="utf-8",
           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           PYTHONWARNINGS="ignore", PYTHONPATH="/repo/capture")
for _k in ("PYTHONSTARTUP", "PYTHONINSPECT"):
    ENV.pop(_k, None)
NCPU = min(8, os.cpu_count() or 4)


def purge_pyc():
    """Stale bytecode of the code under test must not run. The directories stay: only the files in them go."""
    for root, _, files in os.walk(os.path.join(REPO, "capture")):
        if os.path.basename(root) == "__pycache__":
            for name in files:
                with contextlib.suppress(OSError):
                    os.unlink(os.path.join(root, name))


# -- scratch -----------------------------------------------------------------
_SCRATCH = None


def scratch_root():
    global _SCRATCH
    if _SCRATCH is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _SCRATCH = os.path.realpath(tempfile.mkdtemp(prefix="verifnw-", dir=base))
        pid = os.getpid()

        def _clean(path=_SCRATCH):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(_clean)
    return _SCRATCH


_SC_LOCK = threading.Lock()
_SC_N = [0]


def new_dir(prefix="d"):
    with _SC_LOCK:
        _SC_N[0] += 1
        n = _SC_N[0]
    path = os.path.join(scratch_root(), "%s%06d" % (prefix, n))
    os.makedirs(path)
    return path


@contextlib.contextmanager
def scratch(prefix="d", keep=False):
    path = new_dir(prefix)
    try:
        yield path
    finally:
        if not keep:
            shutil.rmtree(path, ignore_errors=True)


def write_files(base, files):
    for name, data in files.items():
        path = os.path.join(base, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if isinstance(data, str):
            data = data.encode("utf-8")
        with open(path, "wb") as fil:
            fil.write(data)


def read_tree(base, skip=(".noworkflow", "__pycache__")):
    """{relpath: bytes} of all files below base"""
    res = {}
    for root, dirs, files in os.walk(base):
        dirs[:] = [d for d in dirs if d not in skip]
        for name in files:
            path = os.path.join(root, name)
            with open(path, "rb") as fil:
                res[os.path.relpath(path, base)] = fil.read()
    return res


# -- running noworkflow ------------------------------------------------------
Result = namedtuple("Result", "rc sig timeout out err")


class Zygote(object):
    def __init__(self):
        self.proc = None
        self.start()

    def start(self):
        self.proc = subprocess.Popen(
            [PY, "-W", "ignore", os.path.join(VERIF, "lib", "zygote.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            text=True, env=ENV, cwd="/tmp")
        line = self.proc.stdout.readline()
        if line.strip() != "ready":
            err = self.proc.stderr.read()
            raise RuntimeError("zygote failed to start: %r %s" % (line, err[-2000:]))

    def request(self, req):
        try:
            self.proc.stdin.write(json.dumps(req) + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
            if not line:
                raise RuntimeError("zygote died")
        except (OSError, RuntimeError):
            with contextlib.suppress(Exception):
                self.proc.kill()
            self.start()
            raise
        return json.loads(line)

    def close(self):
        with contextlib.suppress(Exception):
            self.proc.stdin.close()
            self.proc.wait(5)
        with contextlib.suppress(Exception):
            self.proc.kill()


class Pool(object):
    """Pool of zygotes; thread safe"""

    def __init__(self, size=NCPU):
        self.size = size
        self.queue = queue.Queue()
        self.all = []
        ths = []
        errors = []

        def make():
            try:
                z = Zygote()
                self.all.append(z)
                self.queue.put(z)
            except Exception as exc:  # noqa
                errors.append(exc)
        for _ in range(size):
            th = threading.Thread(target=make)
            th.start()
            ths.append(th)
        for th in ths:
            th.join()
        if errors:
            raise errors[0]
        atexit.register(self.close)

    def close(self):
        for z in self.all:
            z.close()
        self.all = []

    def now(self, cwd, *argv, **kw):
        """Run `now argv…` in cwd -> Result"""
        io_dir = new_dir("io")
        req = {"cwd": cwd, "argv": list(argv), "out": io_dir + "/out", "err": io_dir + "/err",
               "timeout": kw.pop("timeout", 60), "env": kw.pop("env", None),
               "probe": kw.pop("probe", None), "probe_args": kw.pop("probe_args", None),
               "exec": kw.pop("exec_", None)}
        stdin = kw.pop("stdin", None)
        assert not kw, kw
        if stdin is not None:
            with open(io_dir + "/in", "wb") as fil:
                fil.write(stdin if isinstance(stdin, bytes) else stdin.encode())
            req["stdin"] = io_dir + "/in"
        z = self.queue.get()
        try:
            rep = z.request(req)
        finally:
            self.queue.put(z)
        out, err = "", ""
        with contextlib.suppress(OSError):
            with open(io_dir + "/out", "rb") as fil:
                out = fil.read().decode("utf-8", "replace")
        with contextlib.suppress(OSError):
            with open(io_dir + "/err", "rb") as fil:
                err = fil.read().decode("utf-8", "replace")
        shutil.rmtree(io_dir, ignore_errors=True)
        return Result(rep["rc"], rep["sig"], rep["timeout"], out, err)

    def pyexec(self, cwd, path, args=None, timeout=60, env=None):
        """Exec a python file (library driver) in a forked child"""
        return self.now(cwd, exec_=path, probe_args=args, timeout=timeout, env=env)

    def map(self, func, items):
        """Parallel map preserving order; exceptions propagate"""
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(self.size) as ex:
            return list(ex.map(func, items))


_POOL = None


def pool(size=NCPU):
    global _POOL
    if _POOL is None:
        _POOL = Pool(size)
    return _POOL


def cli(cwd, *argv, **kw):
    """The real command line in a fresh interpreter"""
    timeout = kw.pop("timeout", 90)
    env = dict(ENV, **kw.pop("env", {}))
    stdin = kw.pop("stdin", None)
    proc = subprocess.Popen([PY, "-W", "ignore", "-m", "noworkflow"] + list(argv), cwd=cwd, env=env,
                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                            start_new_session=True)
    timed = False
    try:
        out, err = proc.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        timed = True
        with contextlib.suppress(OSError):
            os.killpg(proc.pid, signal.SIGKILL)
        out, err = proc.communicate()
    with contextlib.suppress(OSError):
        os.killpg(proc.pid, signal.SIGKILL)
    rc = proc.returncode
    return Result(rc if rc >= 0 else None, -rc if rc < 0 else None, timed,
                  out.decode("utf-8", "replace"), err.decode("utf-8", "replace"))


def plain_python(cwd, script, *args, **kw):
    """Oracle: the same script under the plain interpreter"""
    env = dict(ENV, **kw.pop("env", {}))
    env.pop("PYTHONPATH")
    proc = subprocess.run([PY, "-W", "ignore", script] + list(args), cwd=cwd, env=env,
                          input=kw.pop("stdin", b""), capture_output=True, timeout=kw.pop("timeout", 60))
    rc = proc.returncode
    return Result(rc if rc >= 0 else None, -rc if rc < 0 else None, False,
                  proc.stdout.decode("utf-8", "replace"), proc.stderr.decode("utf-8", "replace"))


# -- reading the provenance database -----------------------------------------
class DB(object):
    """Raw read-only sqlite access (independent of noworkflow's own models)"""

    def __init__(self, base):
        path = os.path.join(base, ".noworkflow", "db.sqlite")
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        self.con = sqlite3.connect("file:%s?mode=ro" % urllib.parse.quote(path), uri=True)
        self.con.row_factory = sqlite3.Row

    def rows(self, sql, *args):
        return [dict(r) for r in self.con.execute(sql, args)]

    def one(self, sql, *args):
        res = self.rows(sql, *args)
        return res[0] if res else None

    def scalar(self, sql, *args):
        row = self.con.execute(sql, args).fetchone()
        return row[0] if row else None

    def tables(self):
        return [r[0] for r in self.con.execute("select name from sqlite_master where type='table'")]

    def last_trial(self):
        return self.scalar("select id from trial order by rowid desc limit 1")

    def trials(self):
        return self.rows("select * from trial order by rowid")

    def close(self):
        self.con.close()


def git_blob_sha(data):
    return hashlib.sha1(b"blob %d\0" % len(data) + data).hexdigest()


def sha1(data):
    return hashlib.sha1(data).hexdigest()


# -- verdicts ------------------------------------------------------------------
class Check(object):
    """Collects observations of one property and produces verdict + evidence"""

    def __init__(self, prop, level, rule, min_eval=1):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.min_eval = min_eval
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for arg in sys.argv[1:]:
            if arg in ("quick", "thorough"):
                self.tier = arg
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = Counter()
        self.violations = []
        self.findings_hit = {}
        self.inconclusive = []
        self.assumptions = []
        self.lock = threading.Lock()
        self.known = [f for f in load_findings() if f["property"] == prop]
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")
        purge_pyc()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, salt))))

    def elapsed(self):
        return time.time() - self.t0

    def observe(self, key=None, n=1, nontrivial=True, sample=None, **counters):
        with self.lock:
            self.evaluations += n
            if key is not None and nontrivial:
                self.distinct.add(hashlib.sha1(repr(key).encode("utf-8", "replace")).hexdigest()[:16])
            for k, v in counters.items():
                self.counters[k] += v
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)

    def count(self, **counters):
        with self.lock:
            for k, v in counters.items():
                self.counters[k] += v

    def violation(self, mechanism, message, replay=None):
        """mechanism: stable name of what failed (known findings are keyed by it)"""
        with self.lock:
            for f in self.known:
                if f["mechanism"] == mechanism:
                    self.findings_hit.setdefault(mechanism, message)
                    return
            self.violations.append({"mechanism": mechanism, "message": message, "replay": replay})
            if len(self.violations) <= 5:
                print("[%s] violation (%s): %s" % (self.prop, mechanism, message[:500]), file=sys.stderr)

    def problem(self, message):
        """Something kept the monitor from deciding a case"""
        with self.lock:
            self.inconclusive.append(message)
            if len(self.inconclusive) <= 5:
                print("[%s] undecided: %s" % (self.prop, message[:500]), file=sys.stderr)

    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule,
                "samples": self.samples[:12] or ["none"],
                "counters": dict(sorted(self.counters.items())),
                "undecided_cases": len(self.inconclusive),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fil:
            json.dump(ev, fil, indent=1, default=str)
        for mech, msg in self.findings_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, mech))
        if self.violations:
            os.makedirs(self.replay_dir, exist_ok=True)
            path = os.path.join(self.replay_dir, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(path, "w") as fil:
                json.dump(self.violations[:20], fil, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %d violations; first: [%s] %s" % (
                len(self.violations), self.violations[0]["mechanism"],
                self.violations[0]["message"][:400]))
            code = 1
        elif self.evaluations < self.min_eval:
            print("INCONCLUSIVE property=%s only %d observations (need %d)" % (
                self.prop, self.evaluations, self.min_eval))
            for msg in self.inconclusive[:3]:
                print("  ", msg[:500])
            code = 2
        else:
            print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
                self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), time.time() - self.t0))
            code = 0
        sys.stdout.flush()
        if _POOL:
            _POOL.close()
        return code


def load_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fil:
        return json.load(fil)["findings"]


def main(check, body):
    """Run body(check); an unexpected harness error is 'no answer' (exit 3)"""
    try:
        body(check)
    except Exception:
        traceback.print_exc()
        if not check.violations:
            print("ERROR property=%s harness failure" % check.prop)
            if _POOL:
                _POOL.close()
            sys.exit(3)
    sys.exit(check.finish())
