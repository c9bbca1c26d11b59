"""Carries out the histories of Session.tla with the real code and records the results."""
import copy
import csv
import hashlib
import itertools
import json
import multiprocessing
import os
import re
import shutil
import stat
import sys
import tempfile
from concurrent.futures import ProcessPoolExecutor

from . import fingerprint, repo, tables
from .common import CORES

SHIPPED = {"S1": "inputdata/data/data_IMAGE_SSP.csv", "S2": "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv"}
REGIONS26 = ("CAN USA MEX RCAM BRA RSAM NAF WAF EAF SAF WEU CEU TUR UKR STAN RUS ME INDIA KOR CHN SEAS INDO JAP OCE "
             "RSAS RSAF").split()
SOURCES = {"GDP": ("GDP|PPP", "currency_unit"), "population": ("Population", "population_unit"),
           "emissions": ("Emissions|CO2", "emissionsrate_unit")}
KEYS = ["damage module", "emissiontrade module", "financialtransfer module", "welfare module", "objective module"]


# ---------------------------------------------------------------- files and settings

def write_owned(path, name, version):
    """An input file of the user's own: the same keys as the shipped files, other values.
    The second version of file A has another layout, that of file B the same size."""
    years = [2010] + ([2015] if version == 2 and name == "A" else []) + list(range(2020, 2101, 10))
    text = (lambda x: round(x, 6)) if name == "A" else (lambda x: f"{x:018.6f}")
    factor = {"A": 1.0, "B": 2.5}[name] * (1.0 if version == 1 else 1.4)
    with open(path, "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(["Model", "Scenario", "Region", "Variable", "Unit"] + years)
        for s, ssp in enumerate(("SSP1", "SSP2")):
            for made, f in (("IMAGE", factor), ("OTHER", 1.2 * factor)):
                for i, r in enumerate(REGIONS26):
                    for v, unit, x in (("GDP|PPP", "billion US$2005/yr", 3000), ("Emissions|CO2", "Mt CO2/yr", 1100),
                                       ("Population", "million", 90), ("GDP|PPP twin", "trillion US$2005/yr", 2.1),
                                       ("Emissions|CO2 twin", "Gt CO2/yr", 0.7), ("Population twin", "billion", 0.06)):
                        w.writerow([made, f"{ssp}-Ref-SPA0-V17", r, v, unit] + [
                            text(x * f * (1 + 0.07 * i + 0.2 * s) * (1 + (0.4 + 0.1 * (i % 5)) * (y - 2010) / 90)) for y in years])


def write_file(d, f, version):
    if f in "AB":
        write_owned(os.path.join(d, f + ".csv"), f, version)
    elif f == "M":
        write_tables(d, version)
    else:
        write_result(d, version)


OWNED = ("A", "B", "M", "T")


def write_tables(d, version):
    for name, k in (("M1", 1.3), ("M2", 0.8)):
        k *= 1 if version == 1 else 1.25
        src = tables.rows(tables.FILES["MAC"][0])
        cols = list(src[0])
        with open(os.path.join(d, name + ".csv"), "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(cols)
            for r in src:
                w.writerow([r[c] * k if isinstance(r[c], float) else r[c] for c in cols])


def write_result(d, version):
    with open(os.path.join(d, "sim.csv"), "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(["Variable", "Region", "Unit"] + list(range(2020, 2101, 10)))
        for i, r in enumerate(REGIONS26):
            w.writerow(["relative_abatement", r, ""] + [(0.1 * k + 0.01 * i) / version for k in range(9)])


def settings(cfg, d):
    if cfg["sc"]:
        params = repo.params_of(cfg["sc"][0])
    else:
        over = [{}, {"MAC": {"kappa_rel_abatement_0.75_2050": 0.7}}, {"economics": {"init_capital_factor": 2.2}}][cfg["over"]]
        params = {"regions": {r: (copy.deepcopy(over) if i == 0 else {}) for i, r in enumerate(cfg["regions"])},
                  "time": dict(cfg["grid"]), "emissions": {"carbonbudget": cfg["budget"]},
                  "model": dict(zip(KEYS, cfg["modules"]))}
        if cfg["sim"]:
            table = {y: {r: 0.05 * k + 0.01 * i for i, r in enumerate(cfg["regions"])} for k, y in enumerate(range(2020, 2101, 10))}
            params["simulation"] = {"simulationmode": True, "deactivated_constraints": ["carbon_budget"], "constraint_variables": {
                "relative_abatement": table if cfg["sim"] == 1 else os.path.join(d, "sim.csv")}}
        if cfg["regtable"]:
            params["regional_parameter_files"] = {
                c: {"filename": os.path.join(d, cfg["regtable"] + ".csv") if c == "MAC" else f[0], "regionstype": f[1]}
                for c, f in tables.FILES.items()}
    params["SSP"] = cfg["ssp"]
    params["input"] = {"variables": {
        v: {"variable": name + (" twin" if cfg["twin"][v] else ""), "unit": unit,
            "scenario": "{SSP}-Ref-SPA0-V17", "model": cfg["made"][v],
            "file": SHIPPED.get(cfg["files"][v]) or os.path.join(d, cfg["files"][v] + ".csv")}
        for v, (name, unit) in SOURCES.items()}}
    return params


def broken(params, kind):
    params = copy.deepcopy(params)
    if kind == "unknown key":
        params["emissions"] = dict(params.get("emissions", {}), nonsense=1)
    elif kind == "missing region":
        params["regions"]["XYZ"] = {}
    elif kind == "missing scenario":
        params["input"]["variables"]["population"]["scenario"] = "no such scenario"
    elif kind == "bad number":
        params["time"]["dt"] = "soon"
    else:
        params["input"]["variables"]["GDP"]["file"] = "/nowhere/data.csv"
    return params


# ---------------------------------------------------------------- what a model is

def states(m):
    """Values and fixing of all variables."""
    from pyomo.environ import Var
    return {f"state {v.name}[{fingerprint._idx(i)}]": (None if v[i].value is None else float(v[i].value), bool(v[i].fixed))
            for v in m.component_objects(Var) for i in v}


def print_of(m, full):
    d = fingerprint.fingerprint(m, 1)
    if full:
        d.update(states(m))
    return d


def digest(d):
    return hashlib.md5(repr(sorted(d.items(), key=lambda x: x[0])).encode()).hexdigest()


def fresh(job):
    """In a process of its own: the model of one configuration."""
    cfg, versions = job
    d = tempfile.mkdtemp(prefix="mvfresh")
    try:
        for f in OWNED:
            write_file(d, f, versions[f] or 1)
        m = repo.build(settings(cfg, d), raw=False).concrete_model
        return [print_of(m, False), states(m)]
    except Exception as e:  # noqa: BLE001
        return [f"{type(e).__name__}: {' '.join(str(e).split())[:300]}", None]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def references(cfgs):
    """(configuration, versions of the files) -> what a fresh process makes of it."""
    jobs = []
    for i, c in enumerate(cfgs):
        uses = {"A": "A" in c["files"].values(), "B": "B" in c["files"].values(),
                "M": not c["sc"] and c["regtable"] != "", "T": not c["sc"] and c["sim"] == 2}
        for vs in itertools.product(*[(1, 2) if uses[f] else (0,) for f in OWNED]):
            jobs.append((i + 1, dict(zip(OWNED, vs))))
    with ProcessPoolExecutor(CORES, mp_context=multiprocessing.get_context("spawn"), max_tasks_per_child=1) as pool:
        got = list(pool.map(fresh, [(cfgs[i - 1], v) for i, v in jobs]))
    out = []
    for (i, v), (static, st) in zip(jobs, got):
        full = None if st is None else dict(static, **st)
        out.append({"ref": dict(v, c=i), "error": static if st is None else "",
                    "static": static, "full": full, "dstatic": digest(static) if st is not None else "", "dfull": digest(full) if full else ""})
    return out


REFS = []


def matching(m, full):
    d = print_of(m, full)
    h, kind = digest(d), "full" if full else "static"
    hits = [r["ref"] for r in REFS if r["d" + kind] == h]
    if not hits:        # not bit by bit: up to rounding
        hits = [r["ref"] for r in REFS if r[kind] and len(r[kind]) == len(d) and not fingerprint.differences(r[kind], d)]
    return hits


def difference(m, ref, full):
    d, kind = print_of(m, full), "full" if full else "static"
    for r in REFS:
        if r["ref"]["c"] == ref and isinstance(r[kind], dict):
            return fingerprint.differences(r[kind], d)[:3]
    return []


# ---------------------------------------------------------------- solvers that are none

def seen_by_solver(m):
    """The variables a solver is handed: those not fixed, in active constraints and objectives."""
    from pyomo.core.expr.visitor import identify_variables
    from pyomo.environ import Constraint, Objective
    out = {}
    for c in m.component_data_objects(Constraint, active=True):
        for v in identify_variables(c.body, include_fixed=False):
            out[id(v)] = v
    for o in m.component_data_objects(Objective, active=True):
        for v in identify_variables(o.expr, include_fixed=False):
            out[id(v)] = v
    return list(out.values())


def point(p, name):
    return 0.1 + fingerprint._unit(f"{p}/{name}")


LOG = []


class Stub:
    """Stands for a solver: records how it is called, leaves a point and an outcome."""
    plan = None

    def __init__(self, *a, **kw):
        self.options = dict(kw.get("options") or {})

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def available(self, *a, **kw):
        return True

    def solve(self, model, *args, **kw):
        from pyomo.core.staleflag import StaleFlagManager
        from pyomo.opt import SolverResults, SolverStatus, TerminationCondition
        LOG.append({"model": model, "options": dict(self.options, **dict(kw.get("options") or {})), "tee": bool(kw.get("tee", False)),
                    "neos": isinstance(self, NeosStub), "email": os.environ.get("NEOS_EMAIL", "")})
        plan = Stub.plan
        if plan["outcome"] == "crash":
            raise RuntimeError("the solver crashed")
        if plan["loads"]:
            StaleFlagManager.mark_all_as_stale()
            for v in seen_by_solver(model):
                v.set_value(plan["value"](v), skip_validation=True)
            StaleFlagManager.mark_all_as_stale(delayed=True)
        res = SolverResults()
        res.solver.status = getattr(SolverStatus, plan["outcome"])
        res.solver.termination_condition = {
            "ok": TerminationCondition.optimal, "warning": TerminationCondition.infeasible, "error": TerminationCondition.internalSolverError,
            "aborted": TerminationCondition.userInterrupt, "unknown": TerminationCondition.unknown}[plan["outcome"]]
        return res


class NeosStub(Stub):
    pass


def install_stubs():
    from pyomo.opt import SolverFactory, SolverManagerFactory
    SolverFactory.register("ipopt", doc="stub")(Stub)
    SolverManagerFactory.register("neos", doc="stub")(NeosStub)


FAKE = r'''#!PYTHON -SE
import hashlib, json, os, sys
if "-v" in sys.argv:
    print("Ipopt 3.14.0 (Linux), ASL(20200101)")
    sys.exit(0)
here = os.path.dirname(os.path.abspath(__file__))
plan = json.load(open(os.path.join(here, "plan.json")))
json.dump(sys.argv[1:], open(os.path.join(here, "argv.json"), "w"))
print("fake solver says hello")
if plan["outcome"] == "crash":
    sys.exit(3)
stub = sys.argv[1]
base = stub[:-3] if stub.endswith(".nl") else stub
head = open(base + ".nl").read().split("\n")[1].split()
n, m = int(head[0]), int(head[1])
try:
    names = [x for x in open(base + ".col").read().split("\n") if x]
except IOError:
    names = ["x%d" % i for i in range(n)]
def unit(text):
    h = hashlib.md5(text.encode()).digest()
    return int.from_bytes(h[:7], "big") / 2.0 ** 56
xs = [plan["values"][k] if k in plan["values"] else 0.1 + unit("%s/%s" % (plan["point"], k)) for k in names[:n]]
code = {"ok": 0, "warning": plan.get("code", 200), "error": 500}[plan["outcome"]]
with open(base + ".sol", "w") as f:
    f.write("fake\n\nOptions\n3\n1\n1\n0\n%d\n%d\n%d\n%d\n" % (m, m, n, n))
    for _ in range(m):
        f.write("0\n")
    for x in xs:
        f.write("%r\n" % x)
    f.write("objno 0 %d\n" % code)
'''


def install_fake(d):
    """A program called ipopt on the path, used through Pyomo's own interface."""
    b = os.path.join(d, "bin")
    os.makedirs(b)
    path = os.path.join(b, "ipopt")
    with open(path, "w") as fh:
        fh.write(FAKE.replace("PYTHON", sys.executable))
    os.chmod(path, os.stat(path).st_mode | stat.S_IXUSR | stat.S_IRGRP | stat.S_IROTH)
    os.environ["PATH"] = b + ":" + os.environ["PATH"]
    os.environ["TMPDIR"] = d
    tempfile.tempdir = d
    from pyomo.common import Executable
    Executable("ipopt").rehash()
    return b


def options_of(o):
    kw = {"verbose": o["verbose"]}
    if o["halt"]:
        kw["halt_on_ampl_error"] = o["halt"]
    if o["maxiter"] >= 0:
        kw["ipopt_maxiter"] = o["maxiter"]
    if o["output"]:
        kw["ipopt_output_file"] = o["output"]
    if o["neos"]:
        kw["use_neos"] = True
        if o["neos"] != "-":
            kw["neos_email"] = o["neos"]
    return kw


def raised_by(e):
    if e is None:
        return "no"
    from mimosa.common import utils
    w = utils.MimosaSolverWarning
    is_w = isinstance(e, w) or any(a is w or isinstance(a, w) or (isinstance(a, type) and issubclass(a, w)) for a in e.args)
    return "warning" if is_w else "failure"


def status_of(M):
    s = M.status
    return "none" if s is None else str(getattr(s, "value", s))


def solve(M, op, kind, bindir, values=None):
    """Solve a model with a solver that does as planned; what could be seen of it."""
    g = {"raised": "", "status": "", "calls": 0, "options": [], "tee": False, "neos": False, "email": "", "own": True, "consistent": [], "error": ""}
    del LOG[:]
    err, out = None, None
    os.environ["NEOS_EMAIL"] = "someone@else"
    if kind == "exe":
        with open(os.path.join(bindir, "plan.json"), "w") as fh:
            json.dump({"outcome": op["outcome"], "point": op["point"], "values": values or {}}, fh)
        argv = os.path.join(bindir, "argv.json")
        if os.path.exists(argv):
            os.remove(argv)
    else:
        Stub.plan = {"outcome": op["outcome"], "loads": op["loads"],
                     "value": lambda v: (values or {}).get(v.name, point(op["point"], v.name))}
    try:
        with repo.quiet() as out:
            M.solve(**options_of(op["options"]))
    except Exception as e:  # noqa: BLE001
        err = e
        g["error"] = f"{type(e).__name__}: {' '.join(str(e).split())[:200]}"
    g["raised"], g["status"] = raised_by(err), status_of(M)
    if kind == "exe":
        if os.path.exists(argv):
            with open(argv) as fh:
                args = json.load(fh)
            g["calls"] = 1
            g["options"] = [a.split("=", 1) for a in args if "=" in a]
            g["tee"] = op["options"]["verbose"]     # printed by Pyomo below the level of sys.stdout
    else:
        g["calls"] = len(LOG)
        if LOG:
            g.update({k: LOG[-1][k] for k in ("tee", "neos", "email")})
            g["options"] = [[k, str(v)] for k, v in LOG[-1]["options"].items()]
            g["own"] = LOG[-1]["model"] is M.concrete_model
    return g


# ---------------------------------------------------------------- saving

def listing(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            st = os.stat(p)
            out[os.path.relpath(p, d)] = (st.st_mtime_ns, st.st_size, st.st_ino)
    return out


def factors(unit):
    unit = unit.replace(" ** ", "**").replace(" * ", "*").replace(" / ", "/").strip()
    if unit in ("", "dimensionless"):
        return []
    out = {}
    for sign, part in re.findall(r"([*/ ]?)([^*/ ]+(?:\*\*-?\d+)?)", unit):
        name, _, power = part.partition("**")
        if name != "1":
            out[name] = out.get(name, 0) + (int(power) if power else 1) * (-1 if sign == "/" else 1)
    return [[k, v] for k, v in sorted(out.items()) if v]


def save(M, op, d):
    from pyomo.environ import value
    g = {"created": [], "tag": "", "same": True, "rows": [], "header": [], "years": [], "error": ""}
    m = M.concrete_model
    before, values = listing(d), states(m)
    prints = print_of(m, False)
    kw = {}
    if op["hash"]:
        kw["hash_suffix"] = True
    if op["folder"] != "output":
        kw["folder"] = op["folder"]
    try:
        with repo.quiet():
            M.save(op["name"], **kw)
    except Exception as e:  # noqa: BLE001
        g["error"] = f"{type(e).__name__}: {' '.join(str(e).split())[:200]}"
        return g, None
    after = listing(d)
    g["created"] = sorted(p for p in after if before.get(p) != after[p])
    g["same"] = not fingerprint.differences(values, states(m)) and not fingerprint.differences(prints, print_of(m, False))
    csvs = [p for p in g["created"] if p.endswith(".csv")]
    path = csvs[0] if len(csvs) == 1 else None
    if path is None:
        return g, None
    if op["hash"]:
        name = os.path.basename(path)[:-4]
        g["tag"] = name[len(op["name"]) + 1:] if name.startswith(op["name"] + "_") else "?"
    ts = list(m.t)
    g["years"] = [float(m.year(t)) for t in ts]
    with open(os.path.join(d, path), newline="") as fh:
        rd = list(csv.reader(fh))
    head = rd[0]
    at = {h: i for i, h in enumerate(head)}
    cols = [i for i, h in enumerate(head) if re.fullmatch(r"[\d.e+]+", h)]
    g["header"] = [head[i] for i in cols]
    for row in rd[1:]:
        v, r = row[at["Variable"]], row[at["Region"]]
        comp = m.component(v)
        try:
            vals = [float(value(comp[t] if r == "Global" else comp[t, r])) for t in ts]
        except Exception:  # noqa: BLE001
            vals = []
        g["rows"].append({"v": v, "r": r, "unit": factors(row[at["Unit"]]), "cells": [row[i] or "NaN" for i in cols], "values": vals})
    return g, os.path.join(d, path + ".params.json")


# ---------------------------------------------------------------- histories

def run_history(job):
    cfgs, history, scratch = job
    d = tempfile.mkdtemp(dir=scratch)
    inputs, cwd = os.path.join(d, "inputs"), os.path.join(d, "cwd")
    os.makedirs(inputs)
    os.makedirs(cwd)
    disk = {f: 1 for f in OWNED}
    for f in disk:
        write_file(inputs, f, 1)
    repo.load()
    os.chdir(cwd)
    bindir = None
    if history["kind"] == "exe":
        bindir = install_fake(d)
    else:
        install_stubs()
    given, models, files, refs_of, results, prints = {}, [], {}, [], [], []
    for op in history["ops"]:
        g = {}
        if op["op"] in ("build", "reload"):
            g = {"built": False, "refs": [], "error": "", "diff": []}
            models.append(None)
            c = op["c"] if op["op"] == "build" else refs_of[op["m"] - 1]
            refs_of.append(c)
            try:
                if op["op"] == "build":
                    params = given.setdefault(c, settings(cfgs[c - 1], inputs))
                else:
                    with open(files[op["m"]]) as fh:
                        params = json.load(fh)
                models[-1] = repo.build(params, raw=False)
                g["built"], g["status"] = True, status_of(models[-1])
                g["refs"] = matching(models[-1].concrete_model, True)
                prints.append((models[-1], print_of(models[-1].concrete_model, False)))
                if not any(r["c"] == c for r in g["refs"]):
                    g["diff"] = difference(models[-1].concrete_model, c, True)
            except Exception as e:  # noqa: BLE001
                g["error"] = f"{type(e).__name__}: {' '.join(str(e).split())[:200]}"
        elif op["op"] == "bad":
            try:
                repo.build(broken(settings(cfgs[op["c"] - 1], inputs), op["kind"]), raw=False)
                g = {"built": True}
            except Exception:  # noqa: BLE001
                g = {"built": False}
        elif op["op"] == "rewrite":
            disk[op["f"]] = 3 - disk[op["f"]]
            write_file(inputs, op["f"], disk[op["f"]])
        elif op["op"] == "edit" and op["c"] in given:
            from .checks_config import scribble
            scribble(given.pop(op["c"]))
        elif models and op.get("m") and models[op["m"] - 1] is not None:
            M = models[op["m"] - 1]
            if op["op"] == "query":
                store = getattr(M, "data_store", None)
                for y in (2020, 2033.3, 2050):
                    for v in SOURCES:
                        if store is not None and hasattr(store, "interp_data"):
                            store.interp_data(y, list(M.concrete_model.regions)[0], v)
            elif op["op"] == "solve":
                g = solve(M, op, history["kind"], bindir)
            elif op["op"] == "save":
                g, path = save(M, op, cwd)
                if path and os.path.exists(path):
                    with open(path) as fh:
                        files[op["m"]] = os.path.join(d, f"kept{len(results)}.json")
                        with open(files[op["m"]], "w") as out:
                            out.write(fh.read())
        elif op["op"] in ("solve", "save"):     # of a model that could not be built
            g = {"raised": RAISED, "status": "none", "calls": 1, "options": [], "error": "no model", "neos": False, "tee": False, "email": "",
                 "own": True, "consistent": [], "created": [], "tag": "", "same": True, "rows": [], "header": [], "years": []}
        results.append(g)
    was = {id(M): d for M, d in prints}
    kept = [M is None or id(M) not in was or not fingerprint.differences(was[id(M)], print_of(M.concrete_model, False)) for M in models]
    shutil.rmtree(d, ignore_errors=True)
    return {"results": results, "kept": kept}


RAISED = "nothing to solve"


def run_histories(cfgs, histories, scratch):
    """Each history in a process of its own, which has done nothing before but import."""
    global REFS
    REFS = references(cfgs)
    bad = [r for r in REFS if r["error"]]
    repo.load()
    with ProcessPoolExecutor(CORES, mp_context=multiprocessing.get_context("fork")) as pool:
        got = list(pool.map(run_one, [(cfgs, h, scratch) for h in histories], chunksize=1))
    return got, bad


def run_one(job):
    """A child of the worker, so that the worker stays as it was."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = run_history(job)
            except Exception as e:  # noqa: BLE001
                import traceback
                out = {"failed": traceback.format_exc()[-1500:], "error": f"{type(e).__name__}: {e}"[:300]}
            with os.fdopen(w, "w") as fh:
                json.dump(out, fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as fh:
        text = fh.read()
    os.waitpid(pid, 0)
    return json.loads(text) if text else {"failed": "the process ended", "error": "the process ended"}
