"""C21: depth and context limits bound the capture and nothing else.

Depth: a program is captured without limit and with limits 0..4. The records without limit, cut at the limit, are the
expected records: every activation made by an activation above the limit, and everything evaluated inside activations above it.
Contexts: packages next to, below and outside the directory of the trial, imported in many ways, are captured with every
context: the files whose contents are captured are the ones inside the context, decided by resolving paths, and
what is captured of a file does not depend on the other files that are captured."""
import os
import sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from tracecmp import *  # noqa
import c16

UNCUT = ("global", "nonlocal")


class Canon(object):
    """Records of a trial with names that do not depend on identifiers"""

    def __init__(self, st, here, root=None):
        self.st = st
        self.here = here
        self.root = root
        self.path, self.depth = {}, {}
        kids = {}
        for i in st.acts:
            kids.setdefault(st.evals[i]["activation_id"], []).append(i)
        todo = []
        for i in sorted(kids.get(0, [])) if root is None else [i for i in sorted(st.acts) if st.acts[i]["name"] == root][:1]:
            self.path[i] = ("__main__",)
            self.depth[i] = 0
            todo.append(i)
        while todo:
            i = todo.pop()
            ordinals = Counter()
            for k in sorted(kids.get(i, [])):
                comp = self.comp(st.evals[k])
                name = (st.acts[k]["name"],) + comp
                self.path[k] = self.path[i] + (name + (ordinals[name],),)
                ordinals[name] += 1
                self.depth[k] = self.depth[i] + 1
                todo.append(k)
        self.key = {}
        ordinals = Counter()
        for e in sorted(st.evals):
            ev = st.evals[e]
            if e in self.path:
                self.key[e] = ("call", self.path[e])
            elif ev["activation_id"] in self.path:
                k = (self.path[ev["activation_id"]],) + self.comp(ev)
                self.key[e] = k + (ordinals[k],)
                ordinals[k] += 1

    def comp(self, ev):
        c = self.st.comp_of(ev)
        return (c["type"], c["name"]) + self.st.pos(c) if c else (None,)

    def value(self, e):
        value = norm(self.st.evals[e]["repr"]).replace(self.here, "HERE")
        return value if self.root is None else value.replace("prog.py", "script.py").replace("prog", "__main__")

    def inside(self, e):
        """Depth of the activation that evaluated e, or None"""
        return self.depth.get(self.st.evals[e]["activation_id"])

    def calls(self, limit):
        return Counter(self.path[i] for i in self.path if self.depth[i] <= limit)

    def values(self, limit):
        res = {}
        for e, k in self.key.items():
            if self.depth.get(e, 1) == 0:
                res[k] = self.value(e)
            elif self.inside(e) is not None and self.inside(e) < limit:
                res[k] = self.value(e)
        return res

    def blind(self, limit):
        """Evaluations that depend on others that the limit cuts: what they depend on without those is not determined"""
        res = set()
        for d in self.st.deps:
            a, b = d["dependent_id"], d["dependency_id"]
            if b in self.key and a in self.key and self.inside(b) is not None and self.inside(b) >= limit:
                res.add(self.key[a])
        return res

    def edges(self, limit):
        """Dependencies between evaluations inside the limit that do not start at a call that the limit cuts"""
        res = Counter()
        for d in self.st.deps:
            a, b = d["dependent_id"], d["dependency_id"]
            if a not in self.key or b not in self.key:
                continue
            if not all(self.inside(x) is not None and self.inside(x) < limit for x in (a, b)):
                continue
            if a in self.path and self.depth[a] >= limit:
                continue
            res[(self.key[a], self.key[b], d["type"])] += 1
        return res


def diff(name, want, got):
    miss, extra = [k for k in want if k not in got], [k for k in got if k not in want]
    out = []
    if miss:
        out.append("%s not recorded (%d): %s" % (name, len(miss), repr(miss[0])[-220:]))
    if extra:
        out.append("%s recorded in excess (%d): %s" % (name, len(extra), repr(extra[0])[-220:]))
    if not miss and not extra and isinstance(want, dict) and want != got:
        k = next(k for k in want if want[k] != got[k])
        out.append("%s differ: %s is %s, without limit %s" % (name, repr(k)[-160:], str(got[k])[:80], str(want[k])[:80]))
    return out


def capture(prog, opts, root=None):
    d = new_dir("c21")
    res = run_now(d, prog["files"], prog["stdin"], prog["args"], opts, "plain", timeout=40, env={"PYTHONHASHSEED": "0"})
    try:
        if res.timeout:
            return None, None
        return split_tail(res.out)[0], Canon(Stored(d), d, root)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def depth_case(c, label, prog, limits):
    out, full = capture(prog, ())
    if full is None or len(full.st.evals) > 12000:
        c.count(not_comparable=1)
        return
    for limit in limits:
        lout, cut = capture(prog, ("-d", str(limit)))
        if cut is None or strip_addr(lout) != strip_addr(out):
            c.count(not_comparable=1)
            continue
        diffs = diff("calls", full.calls(limit), cut.calls(10 ** 6))
        diffs += diff("evaluations", full.values(limit), cut.values(10 ** 6))
        blind = full.blind(limit)
        want, got = full.edges(limit), cut.edges(limit)
        diffs += diff("dependencies", want, {k: want[k] if k in want and k[0] in blind else n for k, n in got.items() if k in want or k[0] not in blind})
        orphans = [i for i in cut.st.acts if i not in cut.path]
        if orphans and not [i for i in full.st.acts if i not in full.path]:
            diffs.append("orphans: activations made by no recorded activation: %s" % [cut.st.acts[i]["name"] for i in orphans[:5]])
        for x in diffs[:3]:
            c.violation("depth:" + x.split(" ")[0], "%s with -d %d: %s" % (label, limit, x), replay(label, prog, diffs))
        c.observe(key=(sorted(map(repr, cut.path.values())), limit), nontrivial=len(cut.path) < len(full.path), n=len(cut.key), depth_runs=1,
                  activations=len(cut.path), activations_cut=len(full.path) - len(cut.path), evaluations=len(cut.key),
                  dependencies=sum(full.edges(limit).values()),
                  sample={"case": label, "limit": limit, "activations": len(cut.path), "without limit": len(full.path)})



def module_case(c, label, prog):
    """The same code captured as script and as imported module of the package context"""
    out, main_ = capture(prog, ())
    if main_ is None or len(main_.st.evals) > 12000:
        c.count(not_comparable=1)
        return
    files = dict(prog["files"])
    files["prog.py"] = files.pop("script.py")
    files["script.py"] = "import prog\n"
    before = {"args": prog["args"], "stdin": prog["stdin"], "files": files}
    mout, mod = capture(before, ("-c", "package"), "prog")
    if mod is None or strip_addr(mout).replace("prog", "__main__") != strip_addr(out).replace("prog", "__main__"):
        c.count(not_comparable=1)
        return
    if not mod.path:
        if main_.st.row["status"] == "finished":
            c.violation("module:activation", "%s: importing the code as a module of the package leaves no activation of the module" % label, replay(label, before, []))
        return
    big = 10 ** 6
    diffs = diff("calls", main_.calls(big), mod.calls(big))
    diffs += diff("evaluations", main_.values(big), mod.values(big))
    diffs += diff("dependencies", main_.edges(big), mod.edges(big))
    for x in diffs[:3]:
        c.violation("module:" + x.split(" ")[0], "%s as module of the package: %s" % (label, x), replay(label, before, diffs))
    c.observe(key=("module", sorted(map(repr, mod.path.values()))), nontrivial=len(mod.path) > 2, n=len(mod.key), module_runs=1, evaluations=len(mod.key))


# --------------------------------------------------------------------------------------------------------------- contexts
def project(rng):
    """Files of a tree with a trial directory `proj` and modules around it -> (files, what each module returns)"""
    files = {}
    mods = []  # (import name, relative path)
    dirs = ["proj"] + rng.sample(["proj_ext", "proj.old", "projects", "other", "pro", "proj/vendor", "proj/proj"], 3)
    n = 0
    for d in dirs:
        for kind in rng.sample(["module", "package", "namespace"], rng.choice([1, 1, 2])):
            name = "m%d" % n
            n += 1
            k = rng.randrange(100)
            text = "V = %d\ndef call(f, x):\n    return f(x) + V\ndef own(x):\n    y = [x, V]\n    return y[0] * y[1]\nclass K(object):\n    A = V\n    def m(self):\n        return own(self.A)\n" % k
            if mods and rng.random() < .5:
                other = rng.choice(mods)[0]
                text = "import %s\n%s\nW = %s.own(2)\n" % (other, text, other)
            if kind == "module":
                files["%s/%s.py" % (d, name)] = text
                mods.append((name, "%s/%s.py" % (d, name)))
            elif kind == "package":
                files["%s/%s/__init__.py" % (d, name)] = rng.choice(["", "from . import deep\n", "from .deep import own, call, K\n"])
                files["%s/%s/deep.py" % (d, name)] = text
                mods.append((name + ".deep", "%s/%s/deep.py" % (d, name)))
            else:
                files["%s/%s/deep.py" % (d, name)] = text
                mods.append((name + ".deep", "%s/%s/deep.py" % (d, name)))
    lines = ["import sys", "sys.path += [%s]" % ", ".join("ROOT + %r" % ("/" + d) for d in dirs[1:])]
    lines.insert(1, "ROOT = __file__.rsplit('/', 2)[0]")
    lines += ["import importlib", "def back(x):", "    z = x + 1", "    return z", "out = []"]
    for k, (name, _) in enumerate(rng.sample(mods, len(mods))):
        how = rng.randrange(4)
        if how == 0:
            lines += ["import %s" % name, "a%d = %s.own(%d)" % (k, name, k), "b%d = %s.call(back, %d)" % (k, name, k)]
        elif how == 1:
            lines += ["from %s import own as o%d, call, K" % (name, k), "a%d = o%d(%d)" % (k, k, k), "b%d = call(back, %d)" % (k, k), "c%d = K().m()" % k]
        elif how == 2:
            lines += ["def lazy%d(x):" % k, "    import %s as mod" % name, "    return mod.own(x)", "a%d = lazy%d(%d)" % (k, k, k), "b%d = lazy%d(%d)" % (k, k, 5)]
        else:
            lines += ["a%d = importlib.import_module(%r).own(%d)" % (k, name, k), "b%d = 0" % k]
        lines += ["out += [a%d, b%d]" % (k, k)]
    if rng.random() < .4:
        lines += ["import %s" % rng.choice(["colorsys", "sched", "rlcompleter", "netrc"])]
    lines += ["loaded = sorted((n, getattr(m, '__file__', None) or '') for n, m in list(sys.modules.items()) if (getattr(m, '__file__', None) or '').startswith(ROOT) and n != '__main__')",
              "print(out, [l[0] for l in loaded])"]
    files["proj/script.py"] = "\n".join(lines) + "\n"
    return files, mods


def in_files(st, here):
    """file (relative to the root) -> Counter of (component, representation) evaluated in it"""
    blocks = {i: st.comps[i] for i in st.blocks}
    owner = {}

    def file_of(cid):
        seen = []
        while cid in st.comps and cid not in owner:
            seen.append(cid)
            comp = st.comps[cid]
            if comp["type"] in ("script", "module") or comp["container_id"] in (None, -1, 0):
                owner[cid] = comp["name"] if cid in blocks else None
                break
            cid = comp["container_id"]
        for s in seen:
            owner[s] = owner.get(cid)
        return owner.get(cid)
    res, inner = {}, {}
    for cid, comp in st.comps.items():
        f = file_of(cid)
        if f is not None and cid not in blocks:
            path = os.path.relpath(os.path.normpath(os.path.join(here, "proj", f)), here)
            inner[path] = inner.get(path, 0) + 1
    for e, ev in st.evals.items():
        comp = st.comp_of(ev)
        if comp is None or ev["activation_id"] not in st.acts:
            continue
        if e in st.acts and st.acts[ev["activation_id"]]["code_block_id"] is None:
            continue
        f = file_of(comp["id"])
        if f is None:
            continue
        path = os.path.relpath(os.path.normpath(os.path.join(here, "proj", f)), here)
        value = norm(ev["repr"]).replace(here, "HERE")
        if comp["type"] in ("script", "module", "function_def", "class_def", "import") or "from '" in value:
            value = None
        if e in st.acts:  # who calls depends on what is captured
            value = (value, st.acts[e]["name"])
            caller = st.comp_of(st.evals[ev["activation_id"]]) if ev["activation_id"] in st.evals else None
            if comp["type"] != "call" or (caller and caller["type"] == "function_def"):
                continue
        res.setdefault(path, Counter())[(comp["type"], comp["name"]) + st.pos(comp) + (value,)] += 1
    return res, inner


def context_case(c, i):
    rng = c.rng("context", i)
    files, mods = project(rng)
    label = "context:%d" % i
    seen = {}
    usedir = rng.random() < .3
    for ctx in rng.sample(["main", "package", "all"], 3 if rng.random() < .5 else 2):
        here = os.path.realpath(new_dir("c21"))
        try:
            write_files(here, files)
            cwd = here + "/proj" if not usedir else here
            argv = ["run", "--content-engine", "plain", "-c", ctx] + (["--dir", "proj"] if usedir else [])
            plain = plain_python(cwd, "proj/script.py" if usedir else "script.py")
            res = pool().now(cwd, *(argv + ["proj/script.py" if usedir else "script.py"]), timeout=60)
            if res.timeout:
                c.count(not_comparable=1)
                return
            out = split_tail(res.out)[0]
            if out != plain.out:
                c.violation("context:output", "%s -c %s: the script prints %r, under plain Python %r" % (label, ctx, out[-150:], plain.out[-150:]),
                            {"files": files, "context": ctx, "how": "write the files, cd proj, now run -c %s script.py" % ctx})
                continue
            st = Stored(here + "/proj")
            values, inner = in_files(st, here)
            loaded = set()
            for name in eval(out[out.rindex(" ["):] if out.endswith("]\n") else "[]"):  # printed by the script
                ends = ("/" + name.replace(".", "/") + ".py", "/" + name.replace(".", "/") + "/__init__.py")
                loaded |= {p for p in files if p.endswith(ends)}
            inside = {"proj/script.py"}
            for path in loaded:
                if ctx == "all" or (ctx == "package" and path.startswith("proj/")):
                    inside.add(path)
            got = {p for p in inner if not p.startswith("..")}
            want = {p for p in inside if files[p].strip()}
            if got != want:
                c.violation("context:files", "%s -c %s: captured %s, inside the context %s" % (label, ctx, sorted(got - want), sorted(want - got)),
                            {"files": files, "context": ctx, "captured": sorted(got), "expected": sorted(want)})
            outside = [p for p in inner if p.startswith("..")]
            if ctx != "all" and outside:
                c.violation("context:files", "%s -c %s: captured files of other places: %s" % (label, ctx, outside[:3]), {"files": files, "context": ctx})
            flags = {os.path.relpath(r["path"], here): bool(r["transformed"]) for r in module_rows(here) if r["path"].startswith(here)}
            for path in loaded:
                if flags.get(path) is not None and flags[path] != (path in inside):
                    c.violation("context:transformed", "%s -c %s: module %s is marked as %s" % (label, ctx, path, "transformed" if flags[path] else "not transformed"),
                                {"files": files, "context": ctx})
            for path in sorted(set(values) & set(seen)):
                for x in diff("context:values", dict(seen[path][1]), dict(values[path]))[:1]:
                    c.violation("context:values", "%s: %s: with -c %s and -c %s: %s" % (label, path, seen[path][0], ctx, x),
                                {"files": files, "contexts": [seen[path][0], ctx]})
            c.observe(key=(sorted(got), ctx), nontrivial=True, n=sum(sum(v.values()) for v in values.values()), context_runs=1,
                      modules_loaded=len(loaded), files_captured=len(got), files_compared=len(set(values) & set(seen)),
                      sample={"case": label, "context": ctx, "captured": sorted(got), "loaded": sorted(loaded)})
            for path in values:
                seen.setdefault(path, (ctx, values[path]))
        finally:
            shutil.rmtree(here, ignore_errors=True)


def module_rows(here):
    db = DB(here + "/proj")
    try:
        t = db.last_trial()
        return db.rows("select * from module where trial_id=?", t)
    finally:
        db.close()

def body(c):
    n = 40 if not c.thorough else 900
    items = []
    for i, (label, prog) in enumerate(workload(c, n)):
        rng = c.rng("limits", i)
        if i % 2 and "pickle" not in prog["files"]["script.py"]:
            items.append((label, prog))
        items.append((label, prog, rng.sample([0, 1, 1, 2, 2, 3, 4], 2)))
    for i in range(n):
        rng = c.rng("tree", i)
        files, _ = c16.call_tree_program(rng)
        items.append(("tree:%d" % i, {"files": files, "stdin": "", "args": []}, rng.sample([1, 2, 3, 4, 5], 2)))
    for i in range(24 if not c.thorough else 500):
        items.append(i)
    c.rng("order").shuffle(items)

    def one(item):
        if c.elapsed() > (float(os.environ.get("C21_T", 32)) if not c.thorough else 600):
            c.count(skipped_by_time=1)
        elif isinstance(item, int):
            context_case(c, item)
        elif len(item) == 2:
            module_case(c, *item)
        else:
            depth_case(c, *item)
    pool().map(one, items)


if __name__ == "__main__":
    chk = Check("C21", "exercised", "one case = one program and limit, or one project and context; distinct (activations, limit) and (files captured, context)", 30)
    sys.exit(main(chk, body))
