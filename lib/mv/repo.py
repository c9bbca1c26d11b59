"""Access to the code under test: import, configuration, model construction."""
import contextlib
import copy
import io
import logging
import os
import sys
import warnings

from .common import REPO

sys.dont_write_bytecode = True
_loaded = {}


def load():
    """Import the package from the working tree of the repository."""
    if "m" in _loaded:
        return _loaded["m"]
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    with quiet():
        import mimosa
        import mimosa.mimosa
        import mimosa.common.config.parseconfig
    if not os.path.abspath(mimosa.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f"imported {mimosa.__file__} instead of {REPO}")
    _loaded["m"] = mimosa
    return mimosa


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        yield out


TRANSFORMATIONS = [
    ("pyomo.contrib.preprocessing.plugins.var_aggregator", "VariableAggregator"),
    ("pyomo.contrib.preprocessing.plugins.init_vars", "InitMidpoint"),
    ("pyomo.contrib.preprocessing.plugins.detect_fixed_vars", "FixedVarDetector"),
    ("pyomo.contrib.preprocessing.plugins.equality_propagate", "FixedVarPropagator"),
]


@contextlib.contextmanager
def without_preprocessing():
    """The preprocessing transformations of Pyomo do nothing in this context, so that the
    model stays as the equations were written (preprocessing has its own property)."""
    import importlib
    saved = []
    try:
        for mod, cls in TRANSFORMATIONS:
            c = getattr(importlib.import_module(mod), cls)
            saved.append((c, c.__dict__.get("_apply_to")))
            c._apply_to = lambda self, *a, **k: None
        yield
    finally:
        for c, f in saved:
            if f is None:
                del c._apply_to
            else:
                c._apply_to = f


def set_path(params, path, value):
    keys = path.split(" - ")
    d = params
    for k in keys[:-1]:
        d = d.setdefault(k, {})
    d[keys[-1]] = value


def params_of(sc, base=None):
    """The nested parameter dictionary a user would write for a scenario."""
    mimosa = load()
    with quiet():
        params = mimosa.load_params() if base is None else copy.deepcopy(base)
    for path, val in sc["set"].items():
        set_path(params, path, val["py"])
    ov = sc["overrides"] or {}
    params["regions"] = {r: (copy.deepcopy(ov[r]) if r in ov else {}) for r in sc["regions"]}
    return params


def build(params, raw=True):
    mimosa = load()
    with quiet():
        if raw:
            with without_preprocessing():
                return mimosa.MIMOSA(params)
        return mimosa.MIMOSA(params)


def year_of(m, t):
    return float(m.year(t))


def exogenous(m):
    from pyomo.environ import value
    ts, rs = list(m.t), list(m.regions)
    return {key: [{r: float(value(getattr(m, name)[t, r])) for r in rs} for t in ts]
            for key, name in (("pop", "population"), ("gdp", "baseline_GDP"), ("emi", "baseline_emissions"))}


DERIVED = ("TFP", "cumulative_baseline_emissions", "cumulative_global_baseline_emissions", "baseline_carbon_intensity",
           "percapconv_share_init", "percapconv_share_pop", "percapconv_share")


def derived(m):
    """The derived data the model reports, as far as it has them."""
    from pyomo.environ import Param, value
    out = []
    for name in DERIVED:
        p = m.component(name)
        if p is None or p.ctype is not Param:
            continue
        entries = []
        for k in p:
            ks = k if isinstance(k, tuple) else (k,)
            entries.append({"t": next((x for x in ks if not isinstance(x, str)), 0),
                            "r": next((x for x in ks if isinstance(x, str)), ""), "val": float(value(p[k]))})
        out.append({"name": name, "entries": entries})
    return out
