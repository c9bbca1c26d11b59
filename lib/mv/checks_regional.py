"""C07: regional coefficients."""
import csv
import glob
import math
import os
import tempfile

from . import repo, tables
from .common import SEED, read_json, tlc_ok, write_json
from .conform import run_all


def write_csv(scratch, header, rows):
    fh = tempfile.NamedTemporaryFile("w", suffix=".csv", dir=scratch, delete=False, encoding="utf8", newline="")
    with fh:
        w = csv.writer(fh)
        w.writerow(header)
        w.writerows(rows)
    return fh.name


def data_file(scratch, regions):
    """Input data for regions of any name."""
    rows = []
    years = list(range(2010, 2101, 10))
    for i, r in enumerate(regions):
        for var, unit, x in (("Population", "million", 100), ("GDP|PPP", "billion US$2005/yr", 2000), ("Emissions|CO2", "Mt CO2/yr", 900)):
            rows.append(["M", "S", r, var, unit] + [x * (1 + 0.1 * i) * (1 + (y - 2010) / 90) for y in years])
    return write_csv(scratch, ["Model", "Scenario", "Region", "Variable", "Unit"] + [str(y) for y in years], rows)


def model_params(case):
    """Names of the model's regional parameters and the table entries they stand for."""
    out = {"MAC_scaling_factor": ("MAC", case["kappa"]), "init_capitalstock_factor": ("economics", "init_capital_factor")}
    if case["damage"] == "COACCH":
        for g in ("oldest", "older", "young"):
            for k in "abc":
                out[f"mortality_param_{g}_{k}"] = ("mortality", f"{g}_{k}")
        ad, q = "Ad" if case["adapt"] else "NoAd", case["quantile"]
        if case["combined"]:
            out["damage_noslr_b1"] = ("COACCH", f"combined_b1_{ad}-q{q}")
            out["damage_noslr_b2"] = ("COACCH", f"combined_b2_{ad}-q{q}")
        else:
            for name, prefix in (("noslr", "NoSLR"), ("slr", "SLR-" + ad)):
                for k in ("form", "b1", "b2", "b3"):
                    out[f"damage_{name}_{k}"] = ("COACCH", f"{prefix}_{k}")
                out[f"damage_{name}_a"] = ("COACCH", f"{prefix}_a (q={q})")
    return out


def entry(how, cat, name, r, x):
    e = {"how": how, "cat": cat, "name": name, "r": r, "kind": "text", "v": ""}
    if x is None or (isinstance(x, float) and math.isnan(x)):
        e["kind"] = "none"
    elif isinstance(x, str):
        e["v"] = x
    else:
        e["kind"], e["v"] = "num", float(x)
        if math.isnan(e["v"]):
            e["kind"], e["v"] = "none", ""
    return e


def regional_settings(case, r):
    """What the user writes under the name of a region: values, empty categories, or nothing at all."""
    out = {cat: dict(names) for cat, names in ((case["overrides"] or {}).get(r) or {}).items()}
    out.update({cat: None if null else {} for cat, null in ((case["blanks"] or {}).get(r) or {}).items()})
    return out or (None if len(r) % 2 else {})


def observe(job):
    case, scratch = job
    g = {"built": False, "values": [], "error": ""}
    params = {"regionstype": case["type"],
              "regions": {r: regional_settings(case, r) for r in case["regions"]},
              "time": {"end": 2030, "dt": 10},
              "economics": {"MAC": {"regional calibration factor": case["kappa"]},
                            "damages": {"quantile": float(case["quantile"]), "coacch_slr_withadapt": case["adapt"],
                                        "coacch_combined_slr_nonslr_damages": case["combined"]}},
              "model": {"damage module": case["damage"]}}
    if case["tables"]:
        t = case["tables"][0]
        params["regional_parameter_files"] = {
            cat: {"filename": write_csv(scratch, ["region"] + f["columns"], [[r["region"]] + [r[c] for c in f["columns"]] for r in f["rows"]]),
                  "regionstype": f["type"]} for cat, f in t["files"].items()}
        params["regionsmappings"] = [
            {"regionstype1": m["a"], "regionstype2": m["b"], "conversiontable": write_csv(scratch, [m["a"], m["b"]], m["pairs"])}
            for m in t["mappings"]]
        src = {"file": data_file(scratch, case["regions"]), "model": "M", "scenario": "S"}
        params["input"] = {"variables": {"GDP": dict(src, variable="GDP|PPP", unit="currency_unit"),
                                         "population": dict(src, variable="Population", unit="population_unit"),
                                         "emissions": dict(src, variable="Emissions|CO2", unit="emissionsrate_unit")}}
    try:
        M = repo.build(params)
    except Exception as e:  # noqa: BLE001
        g["error"] = f"{type(e).__name__}: {' '.join(str(e).split())[:200]}"
        return g
    g["built"] = True
    store = getattr(M, "regional_param_store", None)
    if store is not None and hasattr(store, "get"):
        for cat, name in case["ask"]:
            got = store.get(cat, name)
            for r in case["regions"]:
                g["values"].append(entry("store", cat, name, r, got[r]))
    m = M.concrete_model
    for pname, (cat, name) in model_params(case).items():
        p = getattr(m, pname, None)
        if p is not None:
            for r in case["regions"]:
                try:
                    x = p[r]
                except (ValueError, KeyError):
                    x = None
                g["values"].append(entry("model " + pname, cat, name, r, x if isinstance(x, (int, float, str, type(None))) else x.value))
    return g


def check_regional(chk, tier):
    n = 120 if tier == "quick" else 2500
    shipped, cases = os.path.join(chk.scratch, "tables.json"), os.path.join(chk.scratch, "reg.json")
    write_json(shipped, tables.regional_tables())
    gen = tlc_ok("RegGen", env=dict(MV_SEED=SEED, MV_N=n, MV_OUT=cases, MV_IN=shipped), scratch=chk.scratch)
    batch = read_json(cases)
    got = run_all(observe, [(c, chk.scratch) for c in batch])
    tr, vd = os.path.join(chk.scratch, "trace.json"), os.path.join(chk.scratch, "verdict")
    write_json(tr, got)
    val = tlc_ok("RegTrace", env=dict(MV_CASES=cases, MV_IN=shipped, MV_TRACE=tr, MV_OUT=vd), scratch=chk.scratch)
    for p in sorted(glob.glob(vd + "-*.json")):
        for v in read_json(p):
            c = batch[v["i"] - 1]
            chk.violation(f"{v['what']} {v['at']}: {v['got']}, specified {v['want']} {got[v['i'] - 1]['error']}",
                          {"case": c, "problem": v})
    chk.coverage = {"states": gen.distinct + val.distinct, "transitions": gen.generated + val.generated,
                    "traces_validated_against_impl": len(got), "values_compared": sum(len(g["values"]) for g in got),
                    "with_own_tables": sum(bool(c["tables"]) for c in batch),
                    "regions with empty categories": sum(1 for c in batch for o in (c["blanks"] or {}).values() if o),
                    "overridden": sum(len(x) for c in batch for o in (c["overrides"] or {}).values() for x in o.values()),
                    "samples": [f"{c['type']} {c['regions'][:4]} {c['overrides']}"[:200] for c in batch[:8]]}


CHECKS = {"C07": ("model_checking", check_regional)}
