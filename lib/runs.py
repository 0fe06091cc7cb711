"""Helpers shared by the checks that run generated scripts under noWorkflow."""
import random
import re

import gen
from vlib import *  # noqa

NOW_TAIL = re.compile(r"\[now\] .*", re.S)
ADDR = re.compile(r"0x[0-9a-fA-F]{6,}")

ENGINES_FAST = ["plain", None, "pygit", "puregit", "dulwich", "gitdb"]


def strip_addr(text):
    return ADDR.sub("0x", text)


def split_tail(out):
    """stdout of `now run` -> (script output, end description or None)"""
    m = None
    for m in re.finditer(r"^\[now\] |(?<=[^\n])\[now\] ", out, re.M):
        pass
    if m is None:
        return out, None
    return out[:m.start()], out[m.start() + 6:]


def plain_end(res):
    """(stderr without final traceback, exception line or None)"""
    err = res.err
    if res.rc == 0:
        return err, None
    idx = err.rfind("Traceback (most recent call last):")
    if idx < 0:
        m = re.search(r"^\w*Error: .*", err, re.M)
        if m and err.lstrip().startswith("File "):  # SyntaxError of the script itself
            return "", strip_addr(m.group(0))
        return err, "exit"
    # chained tracebacks: cut at the first one of the final chain
    first = err.find("Traceback (most recent call last):")
    tail = err[first:].rstrip("\n")
    return err[:first], last_exc_line(tail)


def last_exc_line(text):
    """Last unindented `Name: message…` of a traceback"""
    lines = [l for l in text.split("\n")]
    for i in range(len(lines) - 1, -1, -1):
        if lines[i].startswith("    ") or lines[i].startswith("  File"):
            res = "\n".join(lines[i + 1:])
            return strip_addr(res.strip())
    return strip_addr(text.strip())


def usable(files, stdin, args=(), timeout=4):
    """Run under plain Python in a fresh dir; None when too slow"""
    base = new_dir("p")
    write_files(base, files)
    try:
        res = plain_python(base, "script.py", *args, stdin=stdin.encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(base, ignore_errors=True)
        return None, None
    tree = read_tree(base)
    shutil.rmtree(base, ignore_errors=True)
    return res, tree


def run_now(base, files, stdin="", args=(), opts=(), engine="plain", script="script.py", timeout=60, **kw):
    write_files(base, files)
    argv = ["run"]
    if engine:
        argv += ["--content-engine", engine]
    return pool().now(base, *(argv + list(opts) + [script] + list(args)), stdin=stdin, timeout=timeout, **kw)
