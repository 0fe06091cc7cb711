"""Fork server that runs noWorkflow command lines.

Started with /opt/venv/bin/python; imports noworkflow once and, for every JSON
request read from stdin, forks a child which executes the *real* command line
(`noworkflow.now.cmd.main`) in the requested directory with redirected fds.
Only interpreter start-up is amortised; each case runs in its own process.

Request:  {"cwd":…, "argv":[…], "out":path, "err":path, "stdin":path|null,
           "timeout":s, "env":{…}, "probe":path|null, "probe_args":{…},
           "exec": path|null}
  probe: python file exec'd in the child before main() (monitor / fault
         injection).  It sees PROBE (args) and may define `after()` which runs
         when main() is left (also on exceptions).
  exec:  instead of main(), exec this python file (used to drive library code).
Reply:    {"rc":int|null, "sig":int|null, "timeout":bool}
"""
import atexit
import json
import os
import signal
import sys
import time
import traceback


def preload():
    import noworkflow.now.cmd  # noqa
    from noworkflow.now.cmd import cmd_run, cmd_restore, cmd_diff  # noqa
    try:
        from IPython.terminal import embed  # noqa  (what debugger_builtins imports)
    except Exception:
        pass
    from sqlalchemy.orm import configure_mappers
    import noworkflow.now.persistence.models  # noqa
    configure_mappers()


class _Run(Exception):
    pass


def child(req):
    os.setsid()
    os.chdir(req["cwd"])
    fd_in = os.open(req.get("stdin") or "/dev/null", os.O_RDONLY)
    fd_out = os.open(req["out"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    fd_err = os.open(req["err"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd_in, 0)
    os.dup2(fd_out, 1)
    os.dup2(fd_err, 2)
    for fd in (fd_in, fd_out, fd_err):
        if fd > 2:
            os.close(fd)
    for k, v in (req.get("env") or {}).items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    import types
    mod = types.ModuleType("__main__")
    mod.__dict__["__builtins__"] = __builtins__
    old_main = sys.modules["__main__"]
    sys.modules["__main__"] = mod
    sys._verif_keep = old_main
    sys.argv = ["now"] + list(req["argv"])
    sys.path[0] = "/opt/venv/bin"
    after = None
    if req.get("probe"):
        ns = {"PROBE": req.get("probe_args") or {}, "__name__": "verif_probe"}
        with open(req["probe"]) as fil:
            src = fil.read()
        exec(compile(src, req["probe"], "exec"), ns)
        after = ns.get("after")
    try:
        if req.get("exec"):
            ns = {"ARGS": req.get("probe_args") or {}, "__name__": "verif_exec"}
            with open(req["exec"]) as fil:
                src = fil.read()
            exec(compile(src, req["exec"], "exec"), ns)
        else:
            from noworkflow.now.cmd import main
            main()
    finally:
        if after:
            after()


def main():
    sys.path.insert(1, "/repo/capture")
    preload()
    proto_out = os.fdopen(os.dup(1), "w")
    proto_in = os.fdopen(os.dup(0), "r")
    proto_out.write("ready\n")
    proto_out.flush()
    while True:
        line = proto_in.readline()
        if not line:
            return
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            proto_in.close()
            proto_out.close()
            child(req)
            return
        deadline = time.monotonic() + req.get("timeout", 60)
        status, timed = None, False
        delay = 0.001
        while True:
            got, st = os.waitpid(pid, os.WNOHANG)
            if got:
                status = st
                break
            if time.monotonic() > deadline:
                timed = True
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                _, status = os.waitpid(pid, 0)
                break
            time.sleep(delay)
            delay = min(delay * 1.5, 0.02)
        try:  # leftovers of the session (e.g. engine worker processes)
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        rep = {"timeout": timed,
               "rc": os.WEXITSTATUS(status) if os.WIFEXITED(status) else None,
               "sig": os.WTERMSIG(status) if os.WIFSIGNALED(status) else None}
        proto_out.write(json.dumps(rep) + "\n")
        proto_out.flush()


if __name__ == "__main__":
    main()
