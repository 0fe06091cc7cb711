"""Comparison of the rows stored for two trials of the same program"""
import re
from vlib import DB

IGNORE = {"start", "finish", "checkpoint", "start_checkpoint", "finish_checkpoint", "timestamp", "trial_id", "command"}
TABLES = ["code_component", "code_block", "composition", "evaluation", "activation", "dependency", "member", "file_access", "module"]
ADDR = re.compile(r"0x[0-9a-fA-F]{6,}")


def clean(value):
    return ADDR.sub("0x", value) if isinstance(value, str) else value


def dump(path_or_db, trial, tables=TABLES, ignore=IGNORE):
    """{table: sorted list of rows (tuples of (column, value))}"""
    db = path_or_db if isinstance(path_or_db, DB) else DB(path_or_db)
    out = {}
    for tab in tables:
        cols = [c for c in (r["name"] for r in db.rows("pragma table_info(%s)" % tab)) if c not in ignore]
        rows = db.rows("select %s from %s where trial_id=?" % (", ".join('"%s"' % c for c in cols), tab), trial)
        out[tab] = sorted((tuple((c, clean(r[c])) for c in cols) for r in rows), key=repr)
    return out


def differences(a, b):
    """[(table, only in a, only in b, example)]"""
    out = []
    for tab in a:
        if a[tab] == b[tab]:
            continue
        from collections import Counter
        ca, cb = Counter(a[tab]), Counter(b[tab])
        oa, ob = list((ca - cb).elements()), list((cb - ca).elements())
        ex = "only in first: %s; only in second: %s" % (
            dict(oa[0]) if oa else None, dict(ob[0]) if ob else None)
        if oa and ob:
            # the same record with changed columns
            ids = [k for k in ("id", "name") if k in dict(oa[0])]
            for x in oa:
                same = [y for y in ob if all(dict(x)[k] == dict(y)[k] for k in ids)]
                if same:
                    diff = {k: (v, dict(same[0])[k]) for k, v in x if dict(same[0])[k] != v}
                    ex = "record %s: %s" % ({k: dict(x)[k] for k in ids}, diff)
                    break
        out.append((tab, len(oa), len(ob), ex[:500]))
    return out
