"""C24: every accepted configuration yields a well-formed model."""
import glob
import os

import numpy as np

from . import conform, repo, tables
from .common import SEED, SpecError, read_json, tlc, tlc_ok, write_json
from .conform import run_all


def why(e):
    return f"{type(e).__name__}: {' '.join(str(e).split())[:200]}"


def structure(M, h):
    from .codemodel import CodeModel, evaluate
    cm = CodeModel(M)
    number = {t: k for k, t in enumerate(cm.times)}
    h["vars"] = [{"v": v, "t": number.get(t, -1), "r": r} for v, t, r in cm.keys]
    eqs = [c for c in cm.eqs if not c.bound or c.name.startswith("fixed ")]
    h["eqs"] = [{"c": c.label(), "vars": [i + 1 for i in c.vars]} for c in eqs]
    h["senses"] = [s for _, _, s in cm.objectives]
    x = cm.initial()
    for c in cm.trivial:
        v = evaluate(c, x)
        if not (c.lo is None or v >= c.lo - 1e-9) or not (c.hi is None or v <= c.hi + 1e-9):
            h["false"].append(c.label())
    return eqs, cm


def witness(eqs, n, free):
    """A largest matching of equations with variables that leaves as few non-free variables open as possible
    (0: unmatched), and a cover of all incidences of the same size, which shows that it is largest."""
    from scipy.sparse import csr_matrix
    from scipy.sparse.csgraph import min_weight_full_bipartite_matching
    edges = [(k, i) for k, c in enumerate(eqs) for i in c.vars]
    if not edges:
        return [], [], []
    rows = [k for k, _ in edges] + list(range(len(eqs)))
    cols = [i for _, i in edges] + [n + k for k in range(len(eqs))]
    cost = [100.0 if free[i] else 1.0 for _, i in edges] + [1e6] * len(eqs)
    r, c = min_weight_full_bipartite_matching(csr_matrix((cost, (rows, cols)), shape=(len(eqs), n + len(eqs))))
    mate = {int(a): int(b) for a, b in zip(r, c) if b < n}
    back = {b: a for a, b in mate.items()}
    todo, seen_e, seen_v = [k for k in range(len(eqs)) if k not in mate], set(), set()
    while todo:                                   # alternating paths from the unmatched equations
        k = todo.pop()
        if k in seen_e:
            continue
        seen_e.add(k)
        for i in eqs[k].vars:
            if i not in seen_v:
                seen_v.add(i)
                if i in back:
                    todo.append(back[i])
    return ([mate.get(k, -1) + 1 for k in range(len(eqs))],
            [k + 1 for k in range(len(eqs)) if k not in seen_e and k in mate], [i + 1 for i in sorted(seen_v)])


FREE = {"relative_abatement", "effort_sharing_common_level", "import_export_mitigation_cost_balance", "financial_transfer"}


def observe(job):
    sc, path = job
    h = {"error": "", "reduced": "", "vars": [], "eqs": [], "match": [], "covereqs": [], "covervars": [], "senses": [], "false": []}
    params = repo.params_of(sc)
    try:
        M = repo.build(params)
    except Exception as e:  # noqa: BLE001 - whatever the code does is judged
        h["error"] = why(e)
        write_json(path, h)
        return {}
    eqs, cm = structure(M, h)
    h["match"], h["covereqs"], h["covervars"] = witness(eqs, cm.n, [k[0] in FREE for k in cm.keys])
    try:
        repo.build(params, raw=False)
    except Exception as e:  # noqa: BLE001
        h["reduced"] = why(e)
    write_json(path, h)
    return {"eqs": len(eqs), "vars": cm.n}


def check_well(chk, tier):
    base = tlc("Assembly", scratch=chk.scratch)
    if not base.ok:
        raise SpecError("Assembly: " + base.tail())
    batches = [(0, 96, 0)] if tier == "quick" else [(k * 288, 288, 1) for k in range(10)]
    states, trans, models, equations, variables, samples = base.distinct, base.generated, 0, 0, 0, []
    for first, n, full in batches:
        out = os.path.join(chk.scratch, "well.json")
        tlc_ok("WellGen", env=dict(MV_SEED=SEED + 13 * first, MV_N=n, MV_FROM=first, MV_FULL=full, MV_OUT=out), scratch=chk.scratch)
        cases = read_json(out)
        got = run_all(observe, [(sc, os.path.join(chk.scratch, f"well-{i + 1}.json")) for i, sc in enumerate(cases)])
        vd = os.path.join(chk.scratch, "verdict")
        val = tlc_ok("WellTrace", env=dict(MV_CASES=out, MV_TRACES=chk.scratch, MV_OUT=vd), scratch=chk.scratch)
        for p in sorted(glob.glob(vd + "-*.json")):
            sc = cases[int(p.rsplit("-", 1)[1][:-5]) - 1]
            for q in read_json(p):
                chk.violation(f"{sc['id']}: {q['what']} {str(q['at'])[:120]} expected {str(q['want'])[:120]}, got {str(q['got'])[:160]}",
                              {"scenario": sc, "problem": q},
                              key=(sc["probe"] + ": " + q["got"].split(":")[0]) if sc["probe"] and q["what"] == "not built" else None)
            os.remove(p)
        states, trans, models = states + val.distinct, trans + val.generated, models + len(cases)
        equations += sum(g.get("eqs", 0) for g in got)
        variables += sum(g.get("vars", 0) for g in got)
        samples += [f"{sc['id']}: " + ", ".join(f"{k.split(' - ')[-1]}={v['py']}" for k, v in sorted(sc["set"].items()))[:300] for sc in cases[:3]]
    chk.coverage = {"states": states, "transitions": trans, "traces_validated_against_impl": models,
                    "assembly_states_exhaustive": base.distinct, "models_built": models, "equations_matched": equations,
                    "variables": variables, "samples": samples[:10]}


CHECKS = {"C24": ("model_checking", check_well)}
