"""Probe: a clock that jumps at chosen readings, so that a run with -s saves partially at these points"""
import json
import random
import sys
import time

_rng = random.Random(PROBE["seed"])
_real = time.perf_counter
_stats = {"readings": 0, "jumps": 0, "partial": 0, "final": 0}
_now = [1000.0]


def _clock():
    _stats["readings"] += 1
    _now[0] += 1e-6
    if PROBE["mode"] == "p":
        hit = _rng.random() < PROBE["p"]
    else:
        hit = _stats["readings"] in PROBE["at"]
    if hit:
        _stats["jumps"] += 1
        _now[0] += 100.0
    return _now[0]


for _name, _mod in list(sys.modules.items()):
    if _name.startswith("noworkflow") and _mod is not None:
        for _key, _val in list(vars(_mod).items()):
            if _val is _real:
                setattr(_mod, _key, _clock)

try:  # statistics only
    from noworkflow.now.collection.prov_execution.collector import Collector as _C
    _store = _C.store

    def _new_store(self, partial, *args, **kwargs):
        _stats["partial" if partial else "final"] += 1
        return _store(self, partial, *args, **kwargs)
    _C.store = _new_store
except Exception:
    pass


def after():
    with open(PROBE["out"], "w") as fil:
        json.dump(_stats, fil)
