"""Executed in a child: answers queries about the evaluations of stored trials
(ARGS: queries [args], derivations [[trial, id, [ids], options]], reach [[trial, [ids], options, preloaded]])"""
import json
import os
import traceback
from argparse import Namespace

from noworkflow.now.persistence import persistence_config, relational
from noworkflow.now.persistence.models import Trial, Evaluation
from noworkflow.now.persistence.models.base import proxy, proxy_gen
from noworkflow.now.cmd.cmd_evaluation import query_evaluations
from noworkflow.now.models.dependency_querier import DependencyQuerier, QuerierOptions, PreloadedQuerierOptions

persistence_config.connect_existing(os.getcwd())


def attempt(func, *args):
    try:
        return func(*args)
    except Exception:
        return {"error": traceback.format_exc()[-1800:]}


def evaluation(tid, eid):
    return proxy(relational.session.query(Evaluation.m).filter(Evaluation.m.trial_id == tid).filter(Evaluation.m.id == eid).one())


def query(args):
    return [e.id for e in query_evaluations(Namespace(**args))]


def derivation(tid, eid, others):
    one = evaluation(tid, eid)
    group = [evaluation(tid, k) for k in others]
    apart = one.was_derived_from(group, distinguish=True)
    return {"apart": [[e.id, bool(v)] for e, v in apart.items()], "all": bool(one.was_derived_from(group)),
            "single": [[e.id, bool(one.was_derived_from(e)), bool(one.was_derived_from([e]))] for e in group[:2]],
            "twice": bool(one.was_derived_from(group + group))}


PRELOADED = {}


def reach(tid, ids, opts, preloaded):
    if preloaded:
        key = (tid, json.dumps(opts, sort_keys=True))
        if key not in PRELOADED:
            PRELOADED[key] = PreloadedQuerierOptions(Trial(tid), **opts)
        options = PRELOADED[key]
    else:
        options = QuerierOptions(**opts)
    querier = DependencyQuerier(options)
    todo, visited, found = querier.navigate_dependencies([evaluation(tid, k) for k in ids])
    return {"left": len(todo), "visited": sorted([c.evaluation.id, c.checkpoint, bool(c.is_activation)] for c in visited if True) if False else
            [[c.evaluation.id, c.checkpoint, bool(c.is_activation)] for c in visited], "found": len(found)}


def sides(tid, ids):
    out = []
    for k in ids:
        e = evaluation(tid, k)
        out.append({
            "dependencies": sorted(d.id for d in e.dependencies), "dependents": sorted(d.id for d in e.dependents),
            "as_dependent": sorted([d.dependent_id, d.dependency_id, d.type] for d in e.dependencies_as_dependent),
            "as_dependency": sorted([d.dependent_id, d.dependency_id, d.type] for d in e.dependencies_as_dependency),
            "members": sorted([m.collection_id, m.member_id, m.key] for m in e.memberships_as_collection),
            "collections": sorted([m.collection_id, m.member_id, m.key] for m in e.memberships_as_member),
            "container": e.member_container.id if e.member_container is not None else None,
            "component": e.code_component.id, "activation": e.activation.id if e.activation else None,
            "this_activation": e.this_activation.id if e.this_activation else None,
        })
    return out


print("\n@@" + json.dumps({
    "queries": [attempt(query, a) for a in ARGS.get("queries", [])],
    "derivations": [attempt(derivation, *a) for a in ARGS.get("derivations", [])],
    "reach": [attempt(reach, *a) for a in ARGS.get("reach", [])],
    "sides": [attempt(sides, *a) for a in ARGS.get("sides", [])],
}))
