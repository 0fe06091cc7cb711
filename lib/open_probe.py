"""Runs a script in plain Python and logs every file it opens: an observer of the
same I/O that does not use noWorkflow. ARGS: script, log"""
import builtins
import codecs
import hashlib
import io
import json
import os
import sys
import weakref

SCRIPT = os.path.abspath(ARGS["script"])  # noqa: F821
LOG = ARGS["log"]  # noqa: F821
real_open, real_io, real_codecs, real_os = builtins.open, io.open, codecs.open, os.open
real_read, real_close, real_isfile, real_abspath = os.read, os.close, os.path.isfile, os.path.abspath
O_RDONLY = os.O_RDONLY
log = []
busy = [False]
frames = {}
keep = []


def read(path):
    if not real_isfile(path):
        return None
    try:
        fd = real_os(path, O_RDONLY)
    except OSError:
        return None
    data = b""
    try:
        while True:
            part = real_read(fd, 1 << 20)
            if not part:
                break
            data += part
    finally:
        real_close(fd)
    return data.decode("latin-1")


def in_script(frame):
    return frame is not None and frame.f_code.co_filename == SCRIPT


def activation(frame):
    """innermost frame that is an activation of captured code or called directly by it"""
    while frame is not None:
        if in_script(frame) or in_script(frame.f_back):
            return frame
        frame = frame.f_back
    return None


def opener(frame):
    while frame is not None and not in_script(frame):
        frame = frame.f_back
    return frame


pending = []


def wrap(old, kind):
    def open(*args, **kwargs):
        if busy[0]:
            return old(*args, **kwargs)
        name = args[0] if args else kwargs.get("file", kwargs.get("filename", kwargs.get("path")))
        frame = sys._getframe(1)
        act = activation(frame)
        script = opener(frame)
        if isinstance(name, int) or act is None or script is None:
            return old(*args, **kwargs)
        path = real_abspath(os.fsdecode(name))
        mode = args[1] if len(args) > 1 else kwargs.get("mode", "r")
        if id(script) not in frames:
            frames[id(script)] = len(frames)
            keep.append(script)
        rec = {"kind": kind, "name": os.fsdecode(name), "mode": mode if isinstance(mode, str) else "flags", "before": read(path), "function": script.f_code.co_name,
               "frame": frames[id(script)], "ok": False, "after": None, "done": False,
               "buffering": args[2] if len(args) > 2 else kwargs.get("buffering", "default")}
        log.append(rec)
        busy[0] = True
        try:
            res = old(*args, **kwargs)
        finally:
            busy[0] = False
        rec["ok"] = True
        try:
            ref = weakref.ref(res)
        except TypeError:
            ref = None
        pending.append([rec, act, path, ref, res if ref is None else None])
        return res
    return open


def closed(ref, fd):
    if ref is not None:
        obj = ref()
        return obj is None or obj.closed
    try:
        os.fstat(fd)
    except OSError:
        return True
    return False


def outer(frame):
    frame = frame.f_back
    return activation(frame) if frame is not None else None


def profile(frame, event, arg):
    if event != "return" or not pending or busy[0]:
        return
    for item in list(pending):
        rec, act, path, ref, fd = item
        if act is not frame:
            continue
        up = outer(frame)
        if not closed(ref, fd) and up is not None:
            item[1] = up
            continue
        pending.remove(item)
        rec["after"] = read(path)
        rec["done"] = True


builtins.open = wrap(real_open, "open")
io.open = wrap(real_io, "io.open")
codecs.open = wrap(real_codecs, "codecs.open")
os.open = wrap(real_os, "os.open")
fd = real_os(SCRIPT, O_RDONLY)
source = b""
while True:
    part = real_read(fd, 1 << 20)
    if not part:
        break
    source += part
real_close(fd)
status = 0
import types  # noqa: E402
main = types.ModuleType("__main__")
main.__file__ = SCRIPT
sys.modules["__main__"] = main
sys.argv = [SCRIPT]
sys.path[0] = os.path.dirname(SCRIPT)
code = compile(source, SCRIPT, "exec")
sys.setprofile(profile)
try:
    exec(code, main.__dict__)
except BaseException as exc:  # noqa
    status = repr(exc)
sys.setprofile(None)
busy[0] = True
with real_open(LOG, "w") as fil:
    json.dump({"log": log, "status": status}, fil)
