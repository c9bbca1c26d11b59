"""The input tables of the repository as raw data for the specification."""
import csv
import os

from .common import REPO

DATA = os.path.join(REPO, "mimosa")


def cell(x):
    """Numeric cells become reals, everything else stays text."""
    x = x.strip() if isinstance(x, str) else x
    try:
        return float(x)
    except (TypeError, ValueError):
        return x or ""


def rows(path):
    with open(os.path.join(DATA, path), encoding="utf-8-sig", newline="") as fh:
        return [{k: cell(v) for k, v in r.items()} for r in csv.DictReader(fh)]


FILES = {"economics": ("inputdata/regionalparams/economics.csv", "IMAGE26"),
         "MAC": ("inputdata/regionalparams/mac.csv", "IMAGE26"),
         "COACCH": ("inputdata/regionalparams/COACCH.csv", "COACCH"),
         "mortality": ("inputdata/regionalparams/mortality.csv", "IMAGE26")}
MAPPINGS = [("IMAGE26", "COACCH", "inputdata/regions/IMAGE26_COACCH.csv"),
            ("IMAGE26", "ADRICE2010", "inputdata/regions/IMAGE26_ADRICE2010.csv"),
            ("IMAGE26", "ADRICE2012", "inputdata/regions/IMAGE26_ADRICE2012.csv")]


def regional_tables():
    files = {}
    for cat, (path, kind) in FILES.items():
        files[cat] = {"type": kind, "rows": rows(path)}
    mappings = []
    for a, b, path in MAPPINGS:
        with open(os.path.join(DATA, path), encoding="utf-8-sig", newline="") as fh:
            pairs = [[r[a].strip(), r[b].strip()] for r in csv.DictReader(fh)]
        mappings.append({"a": a, "b": b, "pairs": pairs})
    return {"files": files, "mappings": mappings}
