"""C05 and C23: exogenous paths and time grids."""
import csv
import glob
import os
import random
import tempfile

from . import repo
from .common import REPO, SEED, read_json, tlc_ok, write_json
from .conform import run_all

SHIPPED = ["inputdata/data/data_IMAGE_SSP.csv", "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv"]
PARAM = {"population": "population", "GDP": "baseline_GDP", "emissions": "baseline_emissions"}


def shipped_tables():
    out = {}
    for name in SHIPPED:
        with open(os.path.join(REPO, "mimosa", name), encoding="utf-8-sig", newline="") as fh:
            rd = list(csv.reader(fh))
        head = [h.strip().lower() for h in rd[0]]
        years = [h for h in head if h.isdigit()]
        rows = []
        for r in rd[1:]:
            d = dict(zip(head, r))
            row = {k: d[k] for k in ("model", "scenario", "region", "variable", "unit")}
            row["values"] = [float(d[y]) for y in years]
            rows.append(row)
        out[name] = {"years": [int(y) for y in years], "rows": rows}
    return out


def write_table(path, table):
    with open(path, "w", encoding="utf8", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(table["header"].split(",") + [str(y) for y in table["years"]])
        for r in table["rows"]:
            w.writerow([r["model"], r["scenario"], r["region"], r["variable"], r["unit"]] + [repr(float(x)) for x in r["values"]])


def time_params(grid):
    return {"start": grid["start"], "end": grid["end"], "dt": grid["dtm"] / 1000}


def observe(job):
    case, scratch = job
    g = {"built": False, "years": [], "paths": {}, "queries": [], "error": ""}
    params = {"time": time_params(case["grid"]), "SSP": case["ssp"], "regions": {r: {} for r in case["regions"]},
              "model": {"damage module": "nodamage"}}
    if not case["byreference"]:          # else the default sources, which refer to the SSP
        files = {}
        if case["own"]:
            fh = tempfile.NamedTemporaryFile("w", suffix=".csv", dir=scratch, delete=False)
            fh.close()
            write_table(fh.name, case["own"][0])
            files["own"] = fh.name
        params["input"] = {"variables": {
            v: dict(s, file=files.get(s["file"], s["file"])) for v, s in case["sources"].items()}}
    try:
        M = repo.build(params)
    except Exception as e:  # noqa: BLE001
        g["error"] = f"{type(e).__name__}: {' '.join(str(e).split())[:200]}"
        return g
    m = M.concrete_model
    from pyomo.environ import value
    ts = list(m.t)
    g["built"] = True
    g["years"] = [float(m.year(t)) for t in ts]
    g["paths"] = {v: {r: [float(value(getattr(m, p)[t, r])) for t in ts] for r in case["regions"]} for v, p in PARAM.items()}
    rnd = random.Random(f"{case['grid']}{case['regions']}")
    store = getattr(M, "data_store", None)
    if store is not None and hasattr(store, "interp_data"):
        for _ in range(30):
            v, r, i = rnd.choice(list(PARAM)), rnd.choice(case["regions"]), rnd.randrange(len(ts))
            g["queries"].append({"v": v, "r": r, "i": i + 1, "value": float(store.interp_data(g["years"][i], r, v))})
    return g


def check_paths(chk, tier):
    n = 60 if tier == "quick" else 1200
    tables, cases = os.path.join(chk.scratch, "tables.json"), os.path.join(chk.scratch, "exo.json")
    write_json(tables, shipped_tables())
    gen = tlc_ok("ExoGen", env=dict(MV_SEED=SEED, MV_N=n, MV_OUT=cases, MV_IN=tables), scratch=chk.scratch)
    batch = read_json(cases)
    got = run_all(observe, [(c, chk.scratch) for c in batch])
    tr, vd = os.path.join(chk.scratch, "trace.json"), os.path.join(chk.scratch, "verdict")
    write_json(tr, got)
    val = tlc_ok("ExoTrace", env=dict(MV_CASES=cases, MV_IN=tables, MV_TRACE=tr, MV_OUT=vd), scratch=chk.scratch)
    for p in sorted(glob.glob(vd + "-*.json")):
        for v in read_json(p):
            c = batch[v["i"] - 1]
            src = c["sources"].get(v["v"]) if v["v"] else {k: s["file"] for k, s in c["sources"].items()}
            if v["what"] in ("path", "query"):
                what = f"{v['v']} of {v['r']} in {v['year']:g}: {v['got']:.8g}, specified {v['want']:.8g}"
            else:
                what = f"{v['what']} {got[v['i'] - 1]['error']}"
            chk.violation(f"{what} ({c['grid']}, {c['ssp']}, {len(c['regions'])} regions, {src})", {"case": c, "problem": v})
    chk.coverage = {"states": gen.distinct + val.distinct, "transitions": gen.generated + val.generated,
                    "traces_validated_against_impl": len(got), "values_compared": sum(
                        len(x) for g in got for d in g["paths"].values() for x in d.values()),
                    "with_own_tables": sum(bool(c["own"]) for c in batch), "without_data": sum(not c["ok"] for c in batch),
                    "samples": [str(c["grid"]) + " " + ",".join(c["regions"][:3]) for c in batch[:8]]}


def observe_grid(grid):
    g = {"built": False, "years": [], "periods": [], "sets": [], "first": 0, "step": 0, "error": ""}
    try:
        m = repo.build({"time": time_params(grid), "regions": {"MEX": {}, "WEU": {}}}).concrete_model
    except Exception as e:  # noqa: BLE001
        g["error"] = f"{type(e).__name__}: {' '.join(str(e).split())[:200]}"
        return g
    from pyomo.environ import Param, Var, value
    ts = [int(t) for t in m.t]
    g.update(built=True, years=[float(m.year(t)) for t in ts], periods=ts, first=float(value(m.beginyear)), step=float(value(m.dt)))
    seen = {}
    for comp in list(m.component_objects(Var)) + list(m.component_objects(Param)):
        if comp.is_indexed() and "t" in [s.name for s in comp.index_set().subsets()]:
            at = [s.name for s in comp.index_set().subsets()].index("t")
            keys = {(i[at] if isinstance(i, tuple) else i) for i in comp}
            seen.setdefault(tuple(sorted(int(k) for k in keys)), comp.name)
    g["sets"] = [{"name": n, "at": list(k)} for k, n in seen.items()]
    return g


def check_grid(chk, tier):
    n = 250 if tier == "quick" else 6000
    tables, cases = os.path.join(chk.scratch, "tables.json"), os.path.join(chk.scratch, "grids.json")
    write_json(tables, {})
    gen = tlc_ok("GridGen", env=dict(MV_SEED=SEED, MV_N=n, MV_OUT=cases, MV_IN=tables), scratch=chk.scratch)
    batch = read_json(cases)
    got = run_all(observe_grid, batch)
    tr, vd = os.path.join(chk.scratch, "trace.json"), os.path.join(chk.scratch, "verdict.json")
    write_json(tr, got)
    val = tlc_ok("GridTrace", env=dict(MV_CASES=cases, MV_TRACE=tr, MV_OUT=vd), scratch=chk.scratch)
    for v in read_json(vd):
        g = got[v["i"] - 1]
        chk.violation(f"{batch[v['i'] - 1]}: {v['why']} {g['error']}", {"grid": batch[v["i"] - 1], "years": g["years"], "sets": g["sets"]})
    chk.coverage = {"states": gen.distinct + val.distinct, "transitions": gen.generated + val.generated,
                    "traces_validated_against_impl": len(got), "years": sum(len(g["years"]) for g in got),
                    "horizons_divided_exactly": sum((c["end"] - c["start"]) * 1000 % c["dtm"] == 0 for c in batch),
                    "samples": batch[:10]}


CHECKS = {"C05": ("model_checking", check_paths), "C23": ("model_checking", check_grid)}
