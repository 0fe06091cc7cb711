"""C14: exported Prolog facts state exactly what is stored.

`now export` of real trials is read by an independent reader of Prolog text (ISO quoted atoms,
numbers; anything else is a syntax error) and compared with the raw rows."""
import datetime
import os
import re
import shutil
import sqlite3
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import projects

# fact: (table, [(column, kind)]); the documented order. a: quoted atom, q: atom or nil, n: number,
# m: number or nil, t: timestamp, b: boolean, f: access identifier
FACTS = {
    "trial": ("trial", "id:a script:a start:t finish:t command:a status:a modules_inherited_from_trial_id:q parent_id:q main_id:m"),
    "tag": ("tag", "trial_id:a name:a type:a timestamp:t"),
    "argument": ("argument", "trial_id:a name:a value:a"),
    "module": ("module", "trial_id:a id:n name:a version:q path:a code_block_id:q transformed:b fullpath:q"),
    "environment": ("environment_attr", "trial_id:a name:a value:a"),
    "code_component": ("code_component", "trial_id:a id:n name:a type:a mode:a first_char_line:n first_char_column:n last_char_line:n last_char_column:n container_id:m"),
    "code_block": ("code_block", "trial_id:a id:n code_hash:q docstring:q"),
    "activation": ("activation", "trial_id:a id:n name:a start_checkpoint:n code_block_id:m"),
    "evaluation": ("evaluation", "trial_id:a id:n checkpoint:m code_component_id:n activation_id:m repr:a member_container_id:m"),
    "dependency": ("dependency", "trial_id:a dependent_activation_id:m dependent_id:n dependency_activation_id:m dependency_id:n type:a reference:b collection_activation_id:m collection_id:m key:q"),
    "access": ("file_access", "trial_id:a id:f name:a mode:a content_hash_before:q content_hash_after:q checkpoint:n activation_id:m"),
    "member": ("member", "trial_id:a collection_activation_id:m collection_id:n member_activation_id:m member_id:n key:a checkpoint:n type:a"),
}
NUM = re.compile(r"-?\d+(\.\d+)?([eE][-+]?\d+)?")
ATOM = re.compile(r"[a-z][A-Za-z0-9_]*")
ESC = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "0": "\0", "\\": "\\", "'": "'", '"': '"', "`": "`"}


class Syntax(Exception):
    pass


def quoted(text, i):
    """text[i] is the opening quote"""
    out = []
    i += 1
    while True:
        if i >= len(text):
            raise Syntax("quoted atom does not end")
        ch = text[i]
        if ch == "'":
            if text[i + 1:i + 2] == "'":
                out.append("'")
                i += 2
                continue
            return "".join(out), i + 1
        if ch == "\\":
            nxt = text[i + 1:i + 2]
            m = re.compile(r"\\(x[0-9a-fA-F]+|[0-7]+)\\").match(text, i)
            if m:
                code = m.group(1)
                out.append(chr(int(code[1:], 16) if code[0] == "x" else int(code, 8)))
                i = m.end()
            elif nxt in ESC and nxt:
                out.append(ESC[nxt])
                i += 2
            else:
                raise Syntax("unknown escape \\%s" % nxt)
            continue
        if ch in "\n\r\0":
            raise Syntax("control character in quoted atom")
        out.append(ch)
        i += 1


def fact(line):
    """name(arg, …). -> (name, [(kind, value)])"""
    m = ATOM.match(line)
    if not m or line[m.end():m.end() + 1] != "(":
        raise Syntax("not a fact")
    name, i, args = m.group(), m.end() + 1, []
    while True:
        while line[i:i + 1] == " ":
            i += 1
        if line[i:i + 1] == "'":
            val, i = quoted(line, i)
            args.append(("q", val))
        else:
            m = NUM.match(line, i)
            if m:
                args.append(("n", float(m.group()) if m.group(1) or m.group(2) else int(m.group())))
            else:
                m = ATOM.match(line, i)
                if not m:
                    raise Syntax("argument %d is not ground: %r" % (len(args) + 1, line[i:i + 30]))
                args.append(("a", m.group()))
            i = m.end()
        while line[i:i + 1] == " ":
            i += 1
        if line[i:i + 1] == ",":
            i += 1
        elif line[i:] == ").":
            return name, args
        else:
            raise Syntax("unexpected %r" % line[i:i + 20])


def unquoted(value):
    """String values are written without their outer quotes"""
    value = value if isinstance(value, str) else repr(value)
    m = re.fullmatch(r"""[A-Za-z]?(['"])(.*)\1""", value, re.S)
    return m.group(2) if m else value


def stamp(value):
    if value is None:
        return -1
    return (datetime.datetime.strptime(value, "%Y-%m-%d %H:%M:%S.%f") - datetime.datetime(1970, 1, 1)).total_seconds()


def expected(row, kind, value, hide):
    if kind == "t":
        return ("a", "nil") if hide else ("n", stamp(value))
    if kind == "b":
        return ("n", 1 if value else 0)
    if kind == "f":
        return ("a", "f%s" % value)
    if value is None:
        return ("a", "nil")
    if kind in ("n", "m"):
        return ("n", value)
    return ("q", unquoted(value))


def check_export(c, key, base, trial, text, hide):
    db = DB(base)

    def bad(mech, msg):
        c.violation(mech, "%s: %s" % (key, msg[:600]), {"key": str(key), "message": msg[:2000]})
    got = {n: Counter() for n in FACTS}
    dynamic = Counter()
    for line in text.split("\n"):
        if not line.strip() or line.startswith("%") or line.startswith("[now]"):
            continue
        if line.startswith(":-"):
            m = re.match(r"^:- dynamic\(([a-z_]+)/(\d+)\)\.$", line)
            if not m:
                bad("directive", line)
            else:
                dynamic[m.group(1), int(m.group(2))] += 1
            continue
        try:
            name, args = fact(line)
        except Syntax as exc:
            bad("syntax", "%s in %r" % (exc, line[:300]))
            continue
        if name not in FACTS:
            bad("unknown", line[:200])
            continue
        got[name][tuple(args)] += 1
    for name, (table, spec) in FACTS.items():
        cols = [s.split(":") for s in spec.split()]
        if dynamic[name, len(cols)] != 1:
            bad("dynamic", "%s/%d declared %d times" % (name, len(cols), dynamic[name, len(cols)]))
        want = Counter()
        owner = trial
        if name == "module":  # with the option -b a trial has the modules of another one
            owner = db.scalar("select coalesce(modules_inherited_from_trial_id, id) from trial where id=?", trial)
        for row in db.rows("select * from %s where %s=?" % (table, "id" if table == "trial" else "trial_id"), owner):
            want[tuple(expected(row, k, row[col], hide) for col, k in cols)] += 1
        if got[name] != want:
            miss, more = list((want - got[name]).elements()), list((got[name] - want).elements())
            bad("facts-" + name, "%d facts for %d rows; missing %s, not stored %s" % (sum(got[name].values()), sum(want.values()), miss[:2], more[:2]))
        c.observe(key=(name, sorted(map(repr, want))[:40]), n=sum(want.values()), facts=sum(want.values()), nontrivial=bool(want),
                  sample={"fact": name, "rows": sum(want.values()), "trial": str(key)} if want and len(c.samples) < 8 else None)
    db.close()


NAMES = ["x'abc", "b'", "'quoted'", 'a"b', "'", '"', "\\", "\\'", "a\\nb", "a\nb", "a\r\nb", "tab\t", "''", "nil", "", "Upper", "_", "\u00e9\u4f60\U0001f600", "\x00", "\x1b[", "1", "-1", "a.b", "%", "/* x */", "end.\nfact(1).", "b'x", "u\"", "x' y"]


def scenario(c, k):
    rng = c.rng("scenario", k)
    base = new_dir("p") + "/proj"
    try:
        projects.build(rng, base, 3, first=k)
        con = sqlite3.connect(base + "/.noworkflow/db.sqlite")
        if k % 2:
            # stored texts with any characters
            for table, col in (("file_access", "name"), ("evaluation", "repr"), ("member", "key"), ("argument", "value"), ("environment_attr", "value"),
                               ("code_block", "docstring"), ("code_component", "name"), ("module", "path"), ("module", "version"), ("tag", "name"), ("trial", "command"), ("trial", "script"), ("dependency", "key")):
                for (rowid,) in con.execute("select rowid from %s" % table).fetchall():
                    if rng.random() < .3:
                        con.execute("update %s set %s=? where rowid=?" % (table, col), (rng.choice(NAMES) if rng.random() < .7 else "".join(rng.choice("ab'\"\\\n\r\t\x00 .,()%\u00e9") for _ in range(rng.randrange(12))), rowid))
            con.commit()
        con.close()
        ids = projects.trials(base)
        for tid in ids:
            for opt in rng.sample([[], ["-t"], ["-r"]], 2):
                ref = [tid] if rng.random() < .7 or tid != ids[-1] else []
                res = pool().now(base, "export", *(opt + ref), timeout=60)
                if res.rc or res.timeout or not res.out.strip():
                    c.violation("export-fails", "scenario %d, now export %s: %s" % (k, opt, (res.out + res.err)[-500:]), {"scenario": k})
                    continue
                text = res.out
                if "-r" in opt:
                    i = text.find("%", text.rfind("\nmember("))
                    with open("/repo/capture/noworkflow/resources/rules.pl", encoding="utf-8") as fil:
                        rules = fil.read()
                    if rules.strip() not in text:
                        c.violation("rules", "scenario %d: the rules are not exported" % k)
                    text = text.replace(rules.rstrip("\n"), "")
                check_export(c, (k, tid[:6], opt), base, tid, text, "-t" in opt)
                c.count(exports=1)
    finally:
        shutil.rmtree(os.path.dirname(base), ignore_errors=True)


def body(c):
    n = 16 if not c.thorough else 500
    deadline = c.t0 + (60 if not c.thorough else 780)

    def one(k):
        if time.time() < deadline:
            scenario(c, k)
    pool().map(one, range(n))


if __name__ == "__main__":
    main(Check("C14", "differential", "facts of now export read back and compared with the raw rows; distinct = (fact, rows)", min_eval=500), body)
