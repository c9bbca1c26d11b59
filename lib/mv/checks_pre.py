"""C21: the reduced problem and the restored values."""
import contextlib
import glob
import json
import math
import os
import shutil

from . import conform, fingerprint, repo, session, tables
from .common import SEED, SPEC, SpecError, read_json, tlc, tlc_ok, write_json
from .conform import run_all

UNDEF, FREE = 1e300, 1e301
SMALL = {"any": 14, "trade": 5, "transfer": 5, "economy": 4}


@contextlib.contextmanager
def without_preprocessing():
    cls = repo.load().mimosa.MIMOSA
    saved = cls.__dict__.get("preprocessing")
    try:
        if saved is not None:
            cls.preprocessing = lambda self: None
        with repo.without_preprocessing():
            yield
    finally:
        if saved is not None:
            cls.preprocessing = saved


def params_of(sc, case, regions):
    p = repo.params_of(sc)
    if case["variant"] == "saveall":
        p.setdefault("economics", {}).setdefault("GDP", {})["savings rate"] = 1
    elif case["variant"] == "simulate":
        years = [2020, 2040, 2100]
        base = {"relative_abatement": 0.1, "investments": 0.9, "temperature": 1.2}[case["pin"]]
        where = ["Global"] if case["pin"] == "temperature" else regions
        p["simulation"] = {"simulationmode": True, "deactivated_constraints": [],
                           "constraint_variables": {case["pin"]: {y: {r: base * (1 + k) for r in where} for k, y in enumerate(years)}}}
    return p


def num(x):
    if x is None or isinstance(x, (str, complex)):
        return UNDEF
    x = float(x)
    return x if math.isfinite(x) and abs(x) < UNDEF else UNDEF


def end(x, default):
    return default if x is None or not math.isfinite(x) else float(x)


def residuals(m, names=None):
    """name -> [lower, body, upper, scale] of the active constraints."""
    from pyomo.core.expr.visitor import identify_variables
    from pyomo.environ import Constraint, value
    out = {}
    for c in m.component_data_objects(Constraint, active=True):
        b = num(fingerprint._eval(c.body))
        lo, hi = end(value(c.lower), -FREE), end(value(c.upper), FREE)
        scale = sum(abs(v.value) for v in identify_variables(c.body) if v.value is not None)
        scale += sum(abs(e) for e in (lo, hi) if abs(e) < FREE) + (abs(b) if b != UNDEF else 0)
        out[c.name] = [lo, b, hi, scale]
    return out


def objective(m):
    from pyomo.environ import Objective
    os_ = list(m.component_data_objects(Objective, active=True))
    return [num(fingerprint._eval(o.expr)) for o in os_], ["max" if int(o.sense) == -1 else "min" for o in os_]


def all_vars(m):
    from pyomo.environ import Var
    return {v.name: v for v in m.component_data_objects(Var)}


class Handed(session.Stub):
    """Records the problem as the solver sees it, at the values it leaves."""
    seen = None

    def solve(self, model, *a, **kw):
        res = super().solve(model, *a, **kw)
        Handed.seen = (residuals(model), objective(model))
        return res


def inside(x, lo, hi, u):
    """A value of a variable that respects its bounds."""
    if lo is not None and hi is not None:
        return lo + (0.1 + 0.8 * u) * (hi - lo)
    if lo is not None:
        return lo + 0.1 + u
    if hi is not None:
        return hi - 0.1 - u
    return 0.1 + u


def survivors(m):
    out = {v.name: v for v in session.seen_by_solver(m)}
    return {n: (None if v.lb is None else float(v.lb), None if v.ub is None else float(v.ub)) for n, v in out.items()}


def observe(job):
    sc, case, want, path, scratch = job
    d = os.path.join(scratch, "run-" + os.path.basename(path))
    os.makedirs(d)
    h = {"error": "", "vars": [], "surv": [], "start": [], "obs": []}
    try:
        record(sc, case, want, d, h)
    except Exception as e:  # noqa: BLE001
        from .main import from_code_under_test
        if not from_code_under_test(e):
            raise
        h["error"] = f"{type(e).__name__}: {' '.join(str(e).split())[:200]}"
    shutil.rmtree(d, ignore_errors=True)
    write_json(path, h)
    return {"vars": len(h["vars"]), "surv": len(h["surv"]), "fixed": sum(v["rep"] == "" for v in h["vars"]),
            "merged": sum(v["rep"] not in ("", v["n"]) for v in h["vars"]), "cons": sum(len(o["cons"]) for o in h["obs"])}


def record(sc, case, want, d, h):
    from pyomo.opt import SolverFactory
    regions = list(sc["regions"])
    params = params_of(sc, case, regions)
    with without_preprocessing():
        raw = repo.build(params, raw=False).concrete_model
    rv = all_vars(raw)
    M, probe = repo.build(params, raw=False), repo.build(params, raw=False)
    m = M.concrete_model
    surv = survivors(m)
    # which survivor stands for which variable: by the values they come back with
    SolverFactory.register("ipopt", doc="stub")(Handed)
    groups = []
    for p in (0, 1):
        vals = {n: inside(None, lo, hi, fingerprint._unit(f"probe{p}/{n}")) for n, (lo, hi) in survivors(probe.concrete_model).items()}
        session.solve(probe, {"outcome": "ok", "loads": True, "options": NOOPT, "point": p}, "stub", None, vals)
        back = {}
        for n, x in vals.items():
            back.setdefault(x, n)
        pv = all_vars(probe.concrete_model)
        groups.append({n: (n if n in vals else back.get(pv[n].value, "")) if n in pv else "" for n in rv})
    rep = {n: groups[0][n] if groups[0][n] == groups[1][n] else "" for n in rv}
    names = list(rv)
    used = {v.name for v in session.seen_by_solver(raw)}
    h["vars"] = [{"n": n, "used": n in used, "rep": rep[n], "lo": end(rv[n].lb, -FREE), "hi": end(rv[n].ub, FREE)} for n in names]
    h["surv"] = [{"n": n, "lo": end(lo, -FREE), "hi": end(hi, FREE)} for n, (lo, hi) in surv.items()]
    if case["kind"] == "exe":
        bindir = session.install_fake(d)
        from pyomo.solvers.plugins.solvers.IPOPT import IPOPT
        SolverFactory.register("ipopt", doc="the program")(IPOPT)
    else:
        bindir = None
    here = all_vars(m)
    got = lambda: [num(here[n].value) if n in here else UNDEF for n in names]     # noqa: E731
    h["start"] = got()
    for op in case["ops"]:
        o = {"error": "", "cons": [], "extra": [], "got": [], "given": [], "want": [], "obj": [[], []], "sense": [[], []], "inbounds": True}
        members = {}
        for n in names:
            members.setdefault(rep[n], n)
        if op["at"] == "specified" and want is not None:
            vals = {s: float(want[members[s]]) if s in members else 1.0 for s in surv}
        else:
            vals = {s: inside(None, lo, hi, fingerprint._unit(f"{op['point']}/{s}")) for s, (lo, hi) in surv.items()}
        Handed.seen = None
        g = session.solve(M, dict(op, options=NOOPT), case["kind"], bindir, vals)
        if op["outcome"] in ("ok", "warning") and g["raised"] == "failure":
            o["error"] = g["error"]
        o["got"] = got()
        if op["loads"]:
            pre, (pobj, psense) = Handed.seen or (residuals(m), objective(m))
            # values the raw model gets; variables whose start value is undefined stay so
            for n, x in zip(names, o["got"]):
                rv[n].set_value(None if x == UNDEF else x, skip_validation=True)
            there = residuals(raw)
            robj, rsense = objective(raw)
            o["cons"] = [{"n": n, "raw": c, "pre": pre.get(n, [])} for n, c in there.items()]
            o["extra"] = [{"n": n, "pre": c} for n, c in pre.items() if n not in there]
            o["obj"], o["sense"] = [robj, pobj], [rsense, psense]
            o["given"] = [vals.get(rep[n], UNDEF) for n in names]
            o["want"] = [float(want[n]) for n in names] if want is not None else []
            o["inbounds"] = op["at"] != "specified"
        h["obs"].append(o)


NOOPT = {"halt": "", "maxiter": -1, "output": "", "verbose": False, "neos": ""}


def feasible(job):
    """A state that satisfies the equations of the real model, near the specified one."""
    from .codemodel import CodeModel, project
    sc, states = job
    try:
        with without_preprocessing():
            cm = CodeModel(repo.build(repo.params_of(sc), raw=False))
        P = conform.Points(cm, states)
        x = P.p.copy()
        for t in cm.times:
            q = project(cm, t, x, P.scale)
            if not q.ok:
                return None
            x = q.x
        return {v.name: float(x[i]) for i, v in enumerate(cm.vars)}
    except Exception:  # noqa: BLE001 - other properties are about that
        return None


def check_pre(chk, tier):
    mult, length = (1, 4) if tier == "quick" else (6, 6)
    base = tlc("Preprocess", scratch=chk.scratch) if tier == "quick" else tlc("Preprocess", config=os.path.join(SPEC, "PreprocessDeep.cfg"), scratch=chk.scratch)
    if not base.ok:
        raise SpecError("Preprocess: " + base.tail())
    scs = [s for f, n in SMALL.items() for s in conform.scenarios(f, n * mult, SEED + 77, chk.scratch)]
    batch = [b for b in run_all(conform._build_and_log, scs) if "error" not in b]
    if not batch:
        raise RuntimeError("no model can be built")
    write_json(os.path.join(chk.scratch, "batch.json"), batch)
    write_json(os.path.join(chk.scratch, "tables.json"), tables.regional_tables())
    gen = tlc("ModelGen", env=dict(MV_IN=os.path.join(chk.scratch, "batch.json"), MV_SEED=SEED,
                                   MV_TABLES=os.path.join(chk.scratch, "tables.json"), MV_OUT=chk.scratch), scratch=chk.scratch)
    wants = [None] * len(batch)
    files = [os.path.join(chk.scratch, f"behaviour-{i + 1}.json") for i in range(len(batch))]
    there = [i for i, f in enumerate(files) if os.path.exists(f)]      # the other runs were given up
    for i, w in zip(there, run_all(feasible, [(batch[i]["sc"], read_json(files[i])["states"]) for i in there])):
        wants[i] = w
    pre = os.path.join(chk.scratch, "pre.json")
    tlc_ok("PreGen", env=dict(MV_SEED=SEED, MV_N=len(batch), MV_L=length, MV_OUT=pre), scratch=chk.scratch)
    cases = read_json(pre)
    for c, w in zip(cases, wants):
        for op in c["ops"]:
            if op["at"] == "specified" and w is None:
                op["at"] = "random"
    write_json(pre, cases)
    got = run_all(observe, [(b["sc"], c, w if c["variant"] == "" else None, os.path.join(chk.scratch, f"obs-{i + 1}.json"), chk.scratch)
                            for i, (b, c, w) in enumerate(zip(batch, cases, wants))])
    vd = os.path.join(chk.scratch, "verdict")
    val = tlc_ok("PreTrace", env=dict(MV_CASES=pre, MV_DIR=chk.scratch, MV_OUT=vd), scratch=chk.scratch, heap="12g")
    for p in sorted(glob.glob(vd + "-*.json")):
        v = read_json(p)
        c, sc = cases[v["i"] - 1], batch[v["i"] - 1]["sc"]
        for q in v["problems"]:
            chk.violation(f"{q['what']}: {q['which']}: {str(q['want'])[:160]} / {str(q['got'])[:160]} ({sc['id']} {c['variant']}, {c['kind']}, "
                          f"solve {v['k']}: {c['ops'][v['k'] - 1] if v['k'] else ''})", {"scenario": sc, "case": c, "problem": q})
    chk.coverage = {"states": base.distinct + gen.distinct + val.distinct, "transitions": base.generated + gen.generated + val.generated,
                    "traces_validated_against_impl": len(cases), "solves": sum(len(c["ops"]) for c in cases),
                    "small_problems_enumerated": base.distinct, "constraints_compared": sum(g["cons"] for g in got),
                    "variables": sum(g["vars"] for g in got), "eliminated": sum(g["fixed"] for g in got), "merged": sum(g["merged"] for g in got),
                    "with_specified_state": sum(w is not None for w in wants),
                    "single_region": sum(len(b["sc"]["regions"]) == 1 for b in batch), "through_a_program": sum(c["kind"] == "exe" for c in cases),
                    "samples": [f"{b['sc']['id']} {c['variant']} {[o['outcome'] for o in c['ops']]}" for b, c in zip(batch[:8], cases)]}


CHECKS = {"C21": ("model_checking", check_pre)}
