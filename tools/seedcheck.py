"""Confirms planted bugs: seedcheck.py [--fast] [-j N] ID...   (development tool, not used by the checks)

For each /verif/seeded/ID: applies patch.diff to a copy of /repo, which a private mount namespace shows as /repo,
builds, runs the stable tests (unless --fast), the demo with and without the change, and the check of its property."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def sh(cmd, timeout=900, **kw):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as exc:
        return 99, "TIMEOUT " + str(exc.stdout)[-300:]


def inside(repo, verif, cmd, timeout=900):
    """run with repo shown as /repo and verif as /verif"""
    return sh("unshare -m bash -c 'mount --bind %s /repo && mount --bind %s /verif && cd /repo && %s'" % (repo, verif, cmd), timeout)


def one(name, fast, tier):
    seed = os.path.join(SEEDED, name)
    meta = json.load(open(os.path.join(seed, "meta.json")))
    prop = meta["property"]
    out = {"property": prop}
    tmp = tempfile.mkdtemp(prefix="seed_" + name + "_", dir="/tmp")
    try:
        repo, verif, demo = tmp + "/repo", tmp + "/verif", tmp + "/demo"
        sh("cp -a /repo %s && cp -a %s %s && rm -rf %s/seeded" % (repo, VERIF, verif, verif))
        sh("git -C %s checkout -q -- ." % repo)
        os.makedirs(demo)
        for f in os.listdir(seed):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(seed, f), demo)
        os.makedirs(tmp + "/d2")
        rc, txt = inside(repo, verif, "timeout 300 bash %s/demo.sh" % demo)
        out["demo_clean"] = rc
        if rc:
            out["demo_clean_out"] = txt[-400:]
        rc, txt = sh("git -C %s apply %s/patch.diff" % (repo, seed))
        if rc:
            out["apply"] = txt[-300:]
            return out
        rc, txt = inside(repo, verif, "timeout 300 bash %s/demo.sh" % demo)
        out["demo_bug"] = rc
        out["demo_out"] = txt[-160:]
        if not fast:
            rc, txt = inside(repo, verif, "bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1" % tmp)
            base, got = json.load(open("/opt/vp/BASELINE.json")), json.load(open(tmp + "/t.json"))
            stable = set(base["stable"])
            out["tests_missing"] = sorted(stable - set(got.get("passed", [])))[:3]
        check = os.path.join(verif, "checks", prop.lower() + ".py")
        if os.path.exists(check):
            rc, txt = inside(repo, verif, "VERIF_SEED=1 VERIF_TIER=%s timeout 900 python3 /verif/checks/%s.py %s" % (tier, prop.lower(), tier))
            out["check"] = rc
            lines = [l for l in txt.split("\n") if "VIOLATION" in l or "] violation" in l or "INCONCL" in l or "OK prop" in l]
            out["check_out"] = [l[:200] for l in lines[:2]]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ok = out.get("demo_clean") == 0 and out.get("demo_bug") and not out.get("tests_missing")
    out["verdict"] = ("VALID " if ok else "INVALID ") + {0: "missed", 1: "CAUGHT"}.get(out.get("check"), "noanswer")
    return out


def main():
    args = sys.argv[1:]
    fast = "--fast" in args
    tier = "thorough" if "--thorough" in args else "quick"
    jobs = int(args[args.index("-j") + 1]) if "-j" in args else 2
    names = [a for k, a in enumerate(args) if not a.startswith("-") and (not k or args[k - 1] != "-j")]
    names = names or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(jobs) as ex:
        for name, res in zip(names, ex.map(lambda n: one(n, fast, tier), names)):
            if res.get("verdict", "").startswith("VALID"):
                res.pop("demo_out", None)
            print(name, json.dumps(res)[:700], flush=True)


main()
