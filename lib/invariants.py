"""Invariants of the stored provenance, evaluated over raw rows (independent of noWorkflow's models)"""
import sqlite3

IDS = ["argument", "code_component", "environment_attr", "composition", "evaluation", "module", "dependency",
       "file_access", "member", "activation", "code_block"]
PER_TRIAL = IDS + ["tag"]


def rows(con, sql, *args):
    cur = con.execute(sql, args)
    names = [d[0] for d in cur.description]
    return [dict(zip(names, r)) for r in cur.fetchall()]


def check_db(path, trials=None, timing=True, content=None):
    """-> ([(rule, message)], {rule: number of records examined}); content(digest) -> bool"""
    con = sqlite3.connect("file:%s?mode=ro" % path, uri=True)
    out, seen = [], {}

    def rule(name, ok, message):
        seen[name] = seen.get(name, 0) + 1
        if not ok:
            out.append((name, message() if callable(message) else message))

    res = con.execute("pragma integrity_check").fetchone()[0]
    rule("sqlite-integrity", res == "ok", res)
    all_trials = {t["id"]: t for t in rows(con, "select * from trial")}
    rule("trial-sequence-unique", len({t["sequence_key"] for t in all_trials.values()}) == len(all_trials) or not timing,
         lambda: "sequence keys repeat: %s" % sorted(t["sequence_key"] for t in all_trials.values()))
    for table in PER_TRIAL:
        for r in con.execute("select distinct trial_id from %s" % table):
            rule("record-of-trial", r[0] in all_trials, "%s has records of the missing trial %s" % (table, r[0]))
    for h in rows(con, "select * from head"):
        rule("head-trial", h["trial_id"] is None or h["trial_id"] in all_trials, "head of %s is a missing trial" % h["script"])
    for tid, t in all_trials.items():
        if t["parent_id"]:
            rule("parent-trial", t["parent_id"] in all_trials and t["parent_id"] != tid, "trial %s has the missing parent %s" % (tid, t["parent_id"]))
        if t["modules_inherited_from_trial_id"]:
            rule("inherited-trial", t["modules_inherited_from_trial_id"] in all_trials,
                 "trial %s inherits modules of a missing trial" % tid)
    for tid in (trials or all_trials):
        t = all_trials[tid]
        data = {}
        for table in IDS:
            rs = rows(con, "select * from %s where trial_id=?" % table, tid)
            data[table] = {r["id"]: r for r in rs}
            rule("unique-ids", len(data[table]) == len(rs), "%s has repeated identifiers" % table)
        comp, block, ev, act = data["code_component"], data["code_block"], data["evaluation"], data["activation"]
        dep, mem, fa = data["dependency"], data["member"], data["file_access"]
        backup = t["status"] == "backup"  # backups record the state of files, not an execution
        if t["main_id"] and not (backup and t["main_id"] not in block):
            rule("trial-main", t["main_id"] in block, "main code block %s is missing" % t["main_id"])
        for i, b in block.items():
            rule("block-component", i in comp, "code block %s has no code component" % i)
            if b["code_hash"] and content:
                rule("block-content", content(b["code_hash"]), "code of block %s (%s) is not stored" % (i, b["code_hash"]))
        for i, c in comp.items():
            cont = c["container_id"]
            rule("component-container", cont in (None, -1, 0) or (cont in comp and cont in block and cont != i),
                 "component %s (%s %r) is in the missing container %s" % (i, c["type"], c["name"], cont))
            rule("component-position", c["type"] == "syntax" or (c["first_char_line"], c["first_char_column"]) <= (c["last_char_line"], c["last_char_column"]),
                 "component %s (%r) ends before it starts" % (i, c["name"]))
        for i, m in data["module"].items():
            cb = int(m["code_block_id"]) if m["code_block_id"] not in (None, "") else None
            rule("module-block", cb in (None, -1, 0) or cb in block, "module %s has the missing code block %s" % (m["name"], cb))
        for i, c in data["composition"].items():
            rule("composition-part", c["part_id"] in comp or (c["part_id"] is None and c["extra"]), "composition %s has the missing part %s" % (i, c["part_id"]))
            rule("composition-whole", c["whole_id"] in comp, "composition %s has the missing whole %s" % (i, c["whole_id"]))
        roots = 0
        for i, e in ev.items():
            rule("evaluation-component", e["code_component_id"] in comp,
                 "evaluation %s has the missing code component %s" % (i, e["code_component_id"]))
            a = e["activation_id"]
            if a in (None, 0, -1):
                c = comp.get(e["code_component_id"])
                if i in act:
                    roots += 1
                rule("evaluation-caller", i in act or c is None or c["type"] in ("type", "global") or c["first_char_line"] == -1,
                     lambda: "evaluation %s (%s) has no activation" % (i, c["type"]))
            else:
                rule("evaluation-caller", a in act, "evaluation %s was computed by the missing activation %s" % (i, a))
                rule("evaluation-order", a < i, "evaluation %s was recorded before its activation %s started" % (i, a))
            mc = e["member_container_id"]
            if mc not in (None, -1, 0):
                rule("evaluation-container", mc in ev, "evaluation %s is a member of the missing evaluation %s" % (i, mc))
                if mc in ev:
                    rule("evaluation-container-activation", e["member_container_activation_id"] == ev[mc]["activation_id"],
                         "evaluation %s: container %s is of activation %s, recorded %s" % (
                             i, mc, ev[mc]["activation_id"], e["member_container_activation_id"]))
        if act:
            rule("one-main-activation", roots == 1, "%d activations have no caller" % roots)
        for i, a in act.items():
            rule("activation-evaluation", i in ev, "activation %s (%s) has no evaluation" % (i, a["name"]))
            cb = a["code_block_id"]
            rule("activation-block", cb in (None, -1, 0) or cb in block, "activation %s has the missing code block %s" % (i, cb))
        eps = 1e-9
        for i, a in act.items():
            if i not in ev or not timing:
                continue
            e = ev[i]
            rule("activation-interval", e["checkpoint"] is None or e["checkpoint"] < 0 or a["start_checkpoint"] <= e["checkpoint"] + eps,
                 "activation %s (%s) ends (%s) before it starts (%s)" % (i, a["name"], e["checkpoint"], a["start_checkpoint"]))
            p = act.get(e["activation_id"])
            if p is not None:
                pe = ev.get(p["id"])
                rule("call-starts-in-caller", p["start_checkpoint"] <= a["start_checkpoint"] + eps,
                     "activation %s (%s) starts before its caller %s" % (i, a["name"], p["name"]))
                if t["status"] != "ongoing" and pe and pe["checkpoint"] and e["checkpoint"]:
                    rule("call-ends-in-caller", e["checkpoint"] <= pe["checkpoint"] + eps or lazy(pe),
                         "activation %s (%s) ends after its caller %s" % (i, a["name"], p["name"]))
        for i, d in dep.items():
            for side in ("dependent", "dependency"):
                x, xa = d[side + "_id"], d[side + "_activation_id"]
                rule("dependency-" + side, x in ev, "dependency %s has the missing %s %s" % (i, side, x))
                if x in ev:
                    rule("dependency-%s-activation" % side, ev[x]["activation_id"] == xa,
                         "dependency %s: %s %s is of activation %s, recorded %s" % (i, side, x, ev[x]["activation_id"], xa))
            x, xa = d["collection_id"], d["collection_activation_id"]
            if x not in (None, -1, 0):
                rule("dependency-collection", x in ev and ev[x]["activation_id"] == xa,
                     "dependency %s has the missing collection %s of activation %s" % (i, x, xa))
        for i, m in mem.items():
            for side in ("collection", "member"):
                x, xa = m[side + "_id"], m[side + "_activation_id"]
                rule("member-" + side, x in ev, "member %s has the missing %s %s" % (i, side, x))
                if x in ev:
                    rule("member-%s-activation" % side, ev[x]["activation_id"] == xa,
                         "member %s: %s %s is of activation %s, recorded %s" % (i, side, x, ev[x]["activation_id"], xa))
        for i, f in fa.items():
            a = f["activation_id"]
            rule("access-activation", a in act or (backup and a is None), "file access %s (%s) was made by the missing activation %s" % (i, f["name"], a))
            for k in ("content_hash_before", "content_hash_after"):
                if f[k] and content:
                    rule("access-content", content(f[k]), "%s of file access %s (%s) is not stored" % (k, i, f["name"]))
        for x in rows(con, "select * from tag where trial_id=?", tid):
            rule("tag-name", bool(x["name"]), "tag without name")
    con.close()
    return out, seen


def lazy(e):
    """Calls of generators and coroutines return before their bodies run"""
    return (e["repr"] or "").startswith(("<generator", "<async_generator", "<coroutine", "<contextlib."))


def order_violations(path, trial):
    """Values recorded as derived from values that were computed later"""
    con = sqlite3.connect("file:%s?mode=ro" % path, uri=True)
    res = rows(con, "select d.*, e1.checkpoint as c1, e2.checkpoint as c2, e1.repr as r1, e2.repr as r2, "
                    "k1.type as t1, k2.type as t2, k1.name as n1, k2.name as n2 from dependency d "
                    "join evaluation e1 on e1.trial_id=d.trial_id and e1.id=d.dependent_id "
                    "join evaluation e2 on e2.trial_id=d.trial_id and e2.id=d.dependency_id "
                    "join code_component k1 on k1.trial_id=d.trial_id and k1.id=e1.code_component_id "
                    "join code_component k2 on k2.trial_id=d.trial_id and k2.id=e2.code_component_id "
                    "where d.trial_id=? and e2.checkpoint > e1.checkpoint + 1e-9", trial)
    total = con.execute("select count(*) from dependency where trial_id=?", (trial,)).fetchone()[0]
    con.close()
    # values of generators and coroutines grow while they run; operators implemented by methods are closed by their results
    lazy_ids = {r["dependent_id"] for r in res if lazy({"repr": r["r1"]})}
    return [r for r in res if r["dependent_id"] not in lazy_ids and r["type"] not in ("item", "internal")
            and r["dependent_id"] != r["dependency_activation_id"]], total
