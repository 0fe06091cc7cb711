"""Probe: counts the persistence steps of a run (in all its processes) and kills it or
makes the step fail at the chosen one. PROBE: log, mode (count, kill, error, full, timer), at, after_ms"""
import os
import signal
import sys
import time

_at = PROBE.get("at", -1)  # noqa: F821
_mode = PROBE["mode"]  # noqa: F821
_write, _lseek, _getpid = os.write, os.lseek, os.getpid
_fd = os.open(PROBE["log"], os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o644)  # noqa: F821
_END = os.SEEK_END
_busy = [False]
_REC = 40


def _step(name, kind):
    if _busy[0]:
        return
    _busy[0] = True
    try:
        _write(_fd, (name[:_REC - 1].ljust(_REC - 1) + "\n").encode("ascii", "replace")[:_REC])
        k = _lseek(_fd, 0, _END) // _REC
    finally:
        _busy[0] = False
    if _mode == "kill" and k == _at:
        os.killpg(0, signal.SIGKILL)
        time.sleep(60)
    if (_mode == "error" and k == _at) or (_mode == "full" and k >= _at):
        if kind == "sql":
            import sqlite3
            from sqlalchemy.exc import OperationalError
            raise OperationalError(name, {}, sqlite3.OperationalError("database or disk is full"))
        raise OSError(28, "No space left on device")


from sqlalchemy import event  # noqa: E402
from sqlalchemy.engine import Engine  # noqa: E402


@event.listens_for(Engine, "before_cursor_execute")
def _execute(conn, cursor, statement, parameters, context, executemany):
    verb = statement.lstrip().split(None, 3)
    if verb[0].upper() not in ("SELECT", "PRAGMA"):
        _step("sql " + " ".join(verb[:3]).replace("\n", " "), "sql")


@event.listens_for(Engine, "commit")
def _commit(conn):
    _step("sql commit", "sql")


def _wrap(cls, name):
    old = cls.__dict__[name]
    static = isinstance(old, staticmethod)
    call = old.__func__ if static else old

    def method(*args, **kwargs):
        _step("content %s %s" % (name, cls.__name__), "content")
        res = call(*args, **kwargs)
        if _mode == "kill":
            _step("content-after %s" % name, "content")
        return res
    setattr(cls, name, staticmethod(method) if static else method)


import importlib  # noqa: E402
for _mod in ("plain_engine", "gitbase", "pygit_engine", "dulwich_engine", "puregit_engine"):
    try:
        _m = importlib.import_module("noworkflow.now.persistence.content." + _mod)
    except ImportError:
        continue
    for _cls in list(vars(_m).values()):
        if isinstance(_cls, type) and _cls.__module__ == _m.__name__:
            for _name in ("do_put", "commit_content", "create_initial_commit", "new_commit", "connect"):
                if _name in _cls.__dict__:
                    _wrap(_cls, _name)

_NOW = os.sep + ".noworkflow" + os.sep


def _hook(name, args):
    if _busy[0]:
        return
    if name == "open":
        path, mode, flags = args
        if isinstance(path, (str, bytes)) and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            path = os.fsdecode(path)
            if _NOW in path:
                _step("open " + path.rsplit(_NOW, 1)[1][:30], "os")
    elif name in ("os.rename", "os.remove", "os.mkdir", "os.link"):
        path = os.fsdecode(args[0]) if not isinstance(args[0], int) else ""
        if ".noworkflow" in path:
            _step(name + " " + path.rsplit(".noworkflow", 1)[1][:26], "os")
    elif name == "subprocess.Popen":
        _step("subprocess " + str(args[1])[:28], "os")


sys.addaudithook(_hook)
if _mode == "timer":
    if os.fork() == 0:
        time.sleep(PROBE["after_ms"] / 1000.0)  # noqa: F821
        os.killpg(0, signal.SIGKILL)
