"""C01-C03: what a configuration means (acceptance, overlay on the defaults, references)."""
import copy
import glob
import os
import tempfile

import yaml

from . import repo
from .common import SEED, read_json, tlc_ok, write_json
from .conform import run_all


class Parsed(Exception):
    """Raised once the configuration has been parsed, instead of building the model."""


def decode(x):
    k = x["k"]
    if k == "none":
        return None
    if k == "list":
        return [decode(e) for e in x["v"]]
    if k == "dict":
        return {decode(a): decode(b) for a, b in x["v"]}
    return {"int": int, "float": float, "str": str, "bool": bool}[k](x["v"])


def encode(x):
    if x is None:
        return {"k": "none"}
    if isinstance(x, bool):
        return {"k": "bool", "v": x}
    if isinstance(x, int):
        return {"k": "int", "v": x}
    if isinstance(x, float):
        return {"k": "float", "v": float(x)}
    if isinstance(x, str):
        return {"k": "str", "v": str(x)}
    if isinstance(x, (list, tuple)):
        return {"k": "list", "v": [encode(e) for e in x]}
    if isinstance(x, dict):
        return {"k": "dict", "v": [[encode(a), encode(b)] for a, b in x.items()]}
    return {"k": "other", "v": f"{type(x).__name__} {x!r}"[:200]}


def parse(params):
    """The effective configuration of a model made from params: the construction ends where, with
    the parameters known, the model itself would be made."""
    mimosa = repo.load()
    from pyomo.core.base.PyomoModel import AbstractModel
    obj = mimosa.MIMOSA.__new__(mimosa.MIMOSA)

    def stopping(original):
        def method(*args, **kwargs):
            if "params" in obj.__dict__:
                raise Parsed
            return original(*args, **kwargs)
        return method

    places = [(mimosa.MIMOSA, n) for n in ("get_abstract_model", "create_instance") if n in mimosa.MIMOSA.__dict__]
    places += [(AbstractModel, n) for n in ("__init__", "create_instance") if n in AbstractModel.__dict__]
    saved = [(c, n, c.__dict__[n]) for c, n in places]
    with repo.quiet():
        try:
            for c, n, f in saved:
                setattr(c, n, stopping(f if not isinstance(f, (staticmethod, classmethod)) else getattr(c, n)))
            obj.__init__(params)
        except Parsed:
            pass
        finally:
            for c, n, f in saved:
                setattr(c, n, f)
    return obj.params


def lay(tree, path, value, inplace=False):
    """Set one option as a user writing the nested mapping would."""
    keys = path.split(" - ")
    for k in keys[:-1]:
        if not isinstance(tree, dict):
            return False
        tree = tree.setdefault(k, {})
    if not isinstance(tree, dict):
        return False
    old = tree.get(keys[-1])
    if inplace and type(old) is dict and isinstance(value, dict):
        old.clear()
        old.update(value)
    elif inplace and type(old) is list and isinstance(value, list):
        old[:] = value
    elif old is not None and not inplace:
        return False
    else:
        tree[keys[-1]] = value
    return True


def leaves(tree, paths, prefix=()):
    """path -> value for the options, and the names of everything that is no option."""
    out, extra = {}, []
    for k, v in tree.items():
        here = prefix + (str(k),)
        name = " - ".join(here)
        if name in paths:
            out[name] = encode(v)
        elif isinstance(v, dict):
            o, e = leaves(v, paths, here)
            out.update(o)
            extra += e
        else:
            extra.append(name)
    return out, extra


def scribble(x):
    """What a user may do afterwards to mappings that are theirs: change them at every depth."""
    if type(x) is dict:
        for v in x.values():
            scribble(v)
        x["scribbled"] = 1
    elif type(x) is list:
        for v in x:
            scribble(v)
        x.append("scribbled")


def observe(job):
    case, paths, again = job
    mimosa = repo.load()
    paths = set(paths)
    g = {"user": [], "accepted": False, "tree": {}, "extra": [], "unchanged": True, "again": True,
         "apart": True, "error": ""}
    params = None
    if case["route"] == "edit":
        with repo.quiet():
            params = mimosa.load_params()
    else:
        params = {}
    for e in case["user"]:
        if lay(params, e["path"], decode(e["val"]), case["route"] == "edit"):
            g["user"].append(e)
    before = got = None
    try:
        if case["route"] == "yaml":
            f = tempfile.NamedTemporaryFile("w", suffix=".yaml", encoding="utf8", delete=False)
            try:
                with f:
                    yaml.safe_dump(params, f, allow_unicode=True, sort_keys=False)
                with repo.quiet():
                    params = mimosa.load_params(f.name)
            finally:
                os.unlink(f.name)
        before = encode(copy.deepcopy(params))
        got = parse(params)
        g["accepted"] = True
        g["tree"], g["extra"] = leaves(got, paths)
        if again:
            enc = encode(copy.deepcopy(got))
            try:
                g["again"] = leaves(parse(got), paths) == (g["tree"], g["extra"]) and encode(got) == enc
            except Exception as e:  # noqa: BLE001
                g["again"] = False
                g["error"] = f"parsing the parsed configuration: {type(e).__name__}"
    except Exception as e:  # noqa: BLE001
        g["error"] = f"{type(e).__name__}: {' '.join(str(e).split())[:160]}"
    if before is not None:
        g["unchanged"] = encode(params) == before
    scribble(params)
    if got is not None:
        g["apart"] = leaves(got, paths) == (g["tree"], g["extra"])
        scribble(got)       # no later case may see any of this
    return g


def brief(user):
    return ", ".join(f"{e['path']} = {decode(e['val'])!r}" for e in user)[:400]


def run(chk, tier, kind, n, again, report):
    f = os.path.join(chk.scratch, "cases.json")
    gen = tlc_ok("ConfigGen", env=dict(MV_SEED=SEED, MV_N=n, MV_KIND=kind, MV_OUT=f), scratch=chk.scratch)
    batch = read_json(f)
    got = run_all(observe, [(c, batch["paths"], again(i)) for i, c in enumerate(batch["cases"])])
    tr, vd = os.path.join(chk.scratch, "trace.json"), os.path.join(chk.scratch, "verdict")
    write_json(tr, [{k: v for k, v in g.items() if k != "error"} for g in got])
    val = tlc_ok("ConfigTrace", env=dict(MV_TRACE=tr, MV_OUT=vd), scratch=chk.scratch)
    for p in sorted(glob.glob(vd + "-*.json")):
        for v in read_json(p):
            g = got[v["i"] - 1]
            if v["kind"] not in report:
                continue
            route = batch["cases"][v["i"] - 1]["route"]
            what = f"[{route}] {brief(g['user'])}: {v['kind']}"
            if v["kind"] == "value":
                what += f" of {v['path']}: specified {v['want']}, parsed as {v['got']}"
            elif v["kind"] == "extra":
                what += f" option {v['path']}"
            elif g["error"]:
                what += f" ({g['error']})"
            chk.violation(what, {"record": g, "problem": v})
    return gen, val, batch, got


def coverage(chk, gen, val, batch, got):
    st = [c["st"] for c in batch["cases"]]
    chk.coverage = {"states": gen.distinct + val.distinct, "transitions": gen.generated + val.generated,
                    "traces_validated_against_impl": len(got), "acceptable": st.count("ok"),
                    "to_be_rejected": st.count("bad"), "unspecified": st.count("any"),
                    "options": len(batch["paths"]),
                    "samples": [brief(c["user"]) for c in batch["cases"][::max(1, len(got) // 12)]]}


def check_schema(chk, tier):
    """Every kind of value of every option, one option or one group at a time, and mixtures."""
    r = run(chk, tier, "C01", 60 if tier == "quick" else 3000, lambda i: False, ("accepted", "rejected", "value"))
    coverage(chk, *r)


def check_overlay(chk, tier):
    r = run(chk, tier, "C02", 250 if tier == "quick" else 6000, lambda i: True,
            ("accepted", "rejected", "value", "extra", "not stable", "input modified", "linked"))
    coverage(chk, *r)


def check_references(chk, tier):
    r = run(chk, tier, "C03", 300 if tier == "quick" else 6000, lambda i: i % 4 == 0,
            ("rejected", "value", "not stable", "input modified"))
    coverage(chk, *r)


CHECKS = {"C01": ("model_checking", check_schema), "C02": ("model_checking", check_overlay),
          "C03": ("model_checking", check_references)}
