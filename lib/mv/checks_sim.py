"""C19: simulation mode."""
import csv
import glob
import os
import tempfile

from . import fingerprint, repo
from .checks_exo import time_params
from .common import SEED, read_json, tlc_ok, write_json
from .conform import run_all

MODULES = [{"damage module": "COACCH"},
           {"damage module": "nodamage", "welfare module": "cost_minimising"},
           {"damage module": "COACCH", "emissiontrade module": "emissiontrade", "financialtransfer module": "globaldamagepool"}]


def offered():
    from pyomo.environ import Constraint, Var
    out = []
    for mods in MODULES:
        m = repo.build({"model": dict(mods), "regions": {"MEX": {}, "WEU": {}}, "time": {"end": 2050, "dt": 10}}).concrete_model
        vs = list(m.component_objects(Var))
        cs = [c.name[len("constraint_"):] for c in m.component_objects(Constraint) if c.name.startswith("constraint_")]
        out.append({"modules": mods, "regional": [v.name for v in vs if v.dim() == 2], "global": [v.name for v in vs if v.dim() == 1],
                    "constraints": [c for c in cs if not c.isdigit()]})
    return out


def write_file(case, f, scratch):
    d = tempfile.mkdtemp(dir=scratch)
    head = ["Variable", "Region"] + (["Unit"] if f["unit"] else []) + [str(y) for y in f["years"]]
    for name in ("run", "other.txt" if f["glob"] else "run2"):
        path = os.path.join(d, name if name.endswith("txt") else name + ".csv")
        with open(path, "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(head)
            for v, r, xs in f["rows"]:
                k = 1 if name == "run" else 3
                w.writerow([v, r] + (["unit"] if f["unit"] else []) + [repr(x * k) for x in xs])
    return os.path.join(d, "ru*.csv" if f["glob"] else "run.csv")


def settings(case, scratch):
    paths = {f["name"]: write_file(case, f, scratch) for f in case["files"]}
    key = {"int": int, "str": str, "float": float}
    pins = {}
    for p in case["pins"]:
        if p["from"] == "dict":
            pins[p["v"]] = {key[p["keys"]](y): {r: xs[i] for r, xs in p["data"].items()} for i, y in enumerate(p["years"])}
        else:
            pins[p["v"]] = paths[p["from"]]
    s = {"simulationmode": case["mode"], "constraint_variables": pins, "deactivated_constraints": list(case["off"])}
    return s


def custom(case, m):
    out = {}
    for x in case["custom"]:
        if x["at"] == "":
            out[x["p"]] = {None: x["x"]}
        elif x["at"] == "regions":
            out[x["p"]] = {r: x["x"] for r in case["regions"]}
        else:
            out[x["p"]] = {(t, r): x["x"] for t in m.t for r in case["regions"]}
    return out


def interval(c):
    """The one variable a constraint is about, and the interval it is confined to."""
    from pyomo.core.expr.visitor import identify_variables
    from pyomo.environ import value
    vs = list(identify_variables(c.body, include_fixed=True))
    if len(vs) != 1:
        return None
    v, old = vs[0], vs[0].value
    ys = []
    for x in (0.0, 1.0, 2.0):
        v.set_value(x, skip_validation=True)
        ys.append(float(value(c.body)))
    v.set_value(old, skip_validation=True)
    b, a = ys[0], ys[1] - ys[0]
    if a == 0 or abs(ys[2] - (b + 2 * a)) > 1e-9 * (1 + abs(b)):
        return None
    lo, hi = value(c.lower), value(c.upper)
    ends = [None if e is None else (float(e) - b) / a for e in (lo, hi)]
    if a < 0:
        ends.reverse()
    return v, ends[0], ends[1]


def observe(job):
    from pyomo.environ import Constraint, Param, Var, value
    case, scratch = job
    g = {"built": False, "years": [], "held": {}, "inactive": [], "partly": [], "changed": [], "custom": {}, "error": ""}
    plain = {"model": dict(case["modules"]), "regions": {r: {} for r in case["regions"]}, "time": time_params(case["grid"])}
    base = repo.build(dict(plain)).concrete_model
    full = dict(plain, simulation=settings(case, scratch))
    cm = custom(case, base)
    if cm:
        full["simulation"]["custom_mapping"] = cm
    try:
        m = repo.build(full).concrete_model
    except Exception as e:  # noqa: BLE001
        g["error"] = f"{type(e).__name__}: {' '.join(str(e).split())[:200]}"
        return g
    g["built"] = True
    g["years"] = [float(m.year(t)) for t in m.t]
    ts, rs = list(m.t), list(m.regions)
    theirs = {c.name: c for c in base.component_objects(Constraint)}
    held = {}       # (variable, index) -> [lo, hi]

    def confine(var, lo, hi):
        k = (var.parent_component().name, var.index())
        h = held.setdefault(k, [-1e30, 1e30])
        h[0] = max(h[0], -1e30 if lo is None else lo)
        h[1] = min(h[1], 1e30 if hi is None else hi)

    names = set()
    for c in m.component_objects(Constraint):
        names.add(c.name)
        if c.name in theirs:
            act, before = [d.active for d in c.values()] or [c.active], [d.active for d in theirs[c.name].values()] or [True]
            if not any(act) and any(before):
                g["inactive"].append(c.name[len("constraint_"):] if c.name.startswith("constraint_") else c.name)
            elif act != before:
                g["partly"].append(c.name)
            continue
        for d in c.values():
            if d.active:
                i = interval(d)
                if i is None:
                    g["changed"].append(f"additional constraint {d.name}")
                else:
                    confine(*i)
    g["changed"] += [f"no constraint {n}" for n in theirs if n not in names]
    for v in m.component_objects(Var):
        b = base.component(v.name)
        for i in v:
            if v[i].fixed:
                confine(v[i], float(value(v[i])), float(value(v[i])))
            elif b is not None and i in b and (v[i].lb, v[i].ub) != (b[i].lb, b[i].ub):
                confine(v[i], v[i].lb, v[i].ub)
    for (v, idx), h in held.items():
        t, r = idx if isinstance(idx, tuple) else (idx, "Global")
        row = g["held"].setdefault(v, {}).setdefault(r, [{"lo": -1e30, "hi": 1e30} for _ in ts])
        row[ts.index(t)] = {"lo": h[0], "hi": h[1]}
    for x in case["custom"]:
        p = m.component(x["p"])
        g["custom"][x["p"]] = [float(value(p[i])) for i in p]
    # everything else: the values and constraints the two models share, at the same points
    skip = {x["p"] for x in case["custom"]}
    both = [{k: v for k, v in fingerprint.parameters(q).items() if not k.startswith("param ") or k[6:].split("[")[0] not in skip}
            for q in (m, base)]
    if not case["custom"]:
        for q, d in ((m, both[0]), (base, both[1])):
            for k, v in fingerprint.constraints(q, points=1).items():
                k = k.replace("inactive ", "")
                if not k.startswith("constraint ") or k[11:].split("[")[0] in theirs:
                    d[k] = v
        g["changed"] += fingerprint.differences(*both)[:5]
    else:
        derived = lambda k: k.startswith("param ") and isinstance(both[0][k], float) and k.split("[")[0][6:] not in (
            "T0", "budget", "dk", "sr", "MAC_gamma", "MAC_beta", "baseline_GDP", "baseline_emissions", "init_capitalstock_factor")
        g["changed"] += [x for x in fingerprint.differences(*[{k: v for k, v in d.items() if not derived(k)} for d in both])][:5]
    return g


def check_sim(chk, tier):
    n = 120 if tier == "quick" else 2000
    names, cases = os.path.join(chk.scratch, "names.json"), os.path.join(chk.scratch, "sim.json")
    write_json(names, offered())
    gen = tlc_ok("SimGen", env=dict(MV_SEED=SEED, MV_N=n, MV_OUT=cases, MV_IN=names), scratch=chk.scratch)
    batch = read_json(cases)
    got = run_all(observe, [(c, chk.scratch) for c in batch])
    tr, vd = os.path.join(chk.scratch, "trace.json"), os.path.join(chk.scratch, "verdict")
    write_json(tr, got)
    val = tlc_ok("SimTrace", env=dict(MV_CASES=cases, MV_TRACE=tr, MV_OUT=vd), scratch=chk.scratch)
    for p in sorted(glob.glob(vd + "-*.json")):
        for v in read_json(p):
            c, g = batch[v["i"] - 1], got[v["i"] - 1]
            chk.violation(f"{v['what']} {v['v']} {v['r']} {v['year'] or ''}: {v['got']}, specified {v['want']} {g['error']} "
                          f"({c['grid']}, mode {c['mode']}, off {c['off']})", {"case": c, "problem": v})
    chk.coverage = {"states": gen.distinct + val.distinct, "transitions": gen.generated + val.generated,
                    "traces_validated_against_impl": len(got), "with_mode_off": sum(not c["mode"] for c in batch),
                    "held_values": sum(len(x) for g in got for d in g["held"].values() for x in d.values()),
                    "constraints_switched_off": sum(len(g["inactive"]) for g in got),
                    "samples": [f"{[(p['v'], p['from']) for p in c['pins']]} off {c['off']}"[:200] for c in batch[:8]]}


CHECKS = {"C19": ("model_checking", check_sim)}
