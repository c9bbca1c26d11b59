"""C04: quantities mean the same whatever unit they are written in."""
import os

import numpy as np

from . import common, fingerprint, repo
from .common import SEED, read_json, tlc_ok, write_json
from .conform import run_all

OPTIONS = {  # options of each documented unit
    "emissions_unit": ["economics - MAC - LBD_scaling", "emissions - carbonbudget"],
    "emissionsrate_unit": ["emissions - global min level", "emissions - regional min level"],
    "currency_unit/emissionsrate_unit": ["economics - MAC - gamma"],
    "temperature_unit": ["temperature - initial", "temperature - target"],
    "(temperature_unit)/(emissions_unit)": ["temperature - TCRE"]}
DEFAULT_TEXT = {"emissions_unit": "GtCO2", "emissionsrate_unit": "GtCO2/yr",
                "currency_unit/emissionsrate_unit": "trillion USD2005/GtCO2", "temperature_unit": "delta_degC",
                "(temperature_unit)/(emissions_unit)": "delta_degC/GtCO2"}
TYPICAL = {"emissions_unit": 100, "emissionsrate_unit": 10, "currency_unit/emissionsrate_unit": 2.6,
           "temperature_unit": 1, "(temperature_unit)/(emissions_unit)": 6e-4}


def _direct(q):
    repo.load()
    from mimosa.common import quant
    out = []

    def attempt(how, times, fn):
        try:
            with repo.quiet():
                v = float(fn())
            out.append({"how": how, "ok": True, "value": v, "times": times})
        except Exception as e:  # noqa: BLE001
            out.append({"how": how, "ok": False, "value": 0.0, "times": times, "error": type(e).__name__})

    attempt("text", 1, lambda: quant(q["text"], q["target"]))
    attempt("number and unit", 1, lambda: quant(q["number"], q["unit"], q["target"]))
    attempt("array and unit", 3, lambda: quant(np.array([q["number"], 3 * q["number"]]), q["unit"], q["target"])[1])
    attempt("quantity", 1, lambda: quant(q["text"], q["target"], only_magnitude=False).magnitude)
    return out


def _params(path, value):
    params = {"regions": {"MEX": {}}, "time": {"end": 2030}, "model": {"damage module": "nodamage"}}
    repo.set_path(params, path, value)
    return params


def _model(job):
    """The model with the quantity as written, and with its meaning in the default unit."""
    path, q = job
    try:
        a = repo.build(_params(path, q["text"])).concrete_model
        built = True
    except Exception as e:  # noqa: BLE001
        return {"built": False, "error": f"{type(e).__name__}"}
    if not q["ok"]:
        return {"built": built}
    b = repo.build(_params(path, f"{q['want']!r} {DEFAULT_TEXT[q['target']]}")).concrete_model
    diff = fingerprint.differences(fingerprint.parameters(a), fingerprint.parameters(b), 1e-9)
    diff += fingerprint.differences(fingerprint.variables(a), fingerprint.variables(b), 1e-9)
    if 0.01 <= abs(q["want"]) / TYPICAL[q["target"]] <= 100:     # elsewhere rounding errors are blown up
        diff += fingerprint.differences(fingerprint.constraints(a), fingerprint.constraints(b), 1e-5)
    return {"built": True, "diff": diff[:3]}


def check_units(chk, tier):
    n = 40 if tier == "quick" else 600
    f = os.path.join(chk.scratch, "units.json")
    gen = tlc_ok("UnitsGen", env=dict(MV_SEED=SEED, MV_N=n, MV_OUT=f), scratch=chk.scratch)
    batch = read_json(f)
    got = run_all(_direct, batch)
    tr, vd = os.path.join(chk.scratch, "trace.json"), os.path.join(chk.scratch, "verdict.json")
    write_json(tr, got)
    val = tlc_ok("UnitsTrace", env=dict(MV_IN=f, MV_TRACE=tr, MV_OUT=vd), scratch=chk.scratch, workers=1)
    for v in read_json(vd):
        if v["ok"]:
            what = f"{v['text']} in {v['target']} ({v['got']['how']}) gives {v['got'].get('value') if v['got']['ok'] else v['got'].get('error')}, specified {v['want']}"
        else:
            what = f"{v['text']} in {v['target']} ({v['got']['how']}) is accepted as {v['got']['value']}"
        chk.violation(what, v)
    # the same amount in two spellings gives the same model
    jobs = []
    for i, q in enumerate(batch):
        opts = OPTIONS.get(q["target"])
        if opts and q["number"] != 0:      # learning cannot be scaled by zero
            jobs.append((opts[i // len(OPTIONS) % len(opts)], q))
    jobs = jobs[:96 if tier == "quick" else 1200]
    res = run_all(_model, jobs)
    for (path, q), r in zip(jobs, res):
        if r["built"] != q["ok"]:
            chk.violation(f"{path} = {q['text']!r} is {'accepted' if r['built'] else 'rejected (' + r['error'] + ')'}", q)
        elif r.get("diff"):
            chk.violation(f"{path} = {q['text']!r}: not the model of {q['want']} {DEFAULT_TEXT[q['target']]}: {r['diff']}", q)
    chk.coverage = {"states": gen.distinct + val.distinct, "transitions": gen.generated,
                    "traces_validated_against_impl": sum(len(g) for g in got),
                    "quantities": len(batch), "incompatible": sum(not q["ok"] for q in batch),
                    "models_built_in_two_spellings": sum(bool(r.get("diff") is not None) for r in res),
                    "samples": [q["text"] + " -> " + q["target"] for q in batch[:12]]}


CHECKS = {"C04": ("model_checking", check_units)}
