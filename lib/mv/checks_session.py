"""C06, C20, C22: histories of building, solving and saving."""
import glob
import os

from . import session
from .common import SEED, read_json, tlc_ok, write_json

#          histories, configurations, operations, all pairs, quick and thorough
SIZES = {"build": [(24, 10, 10, 1), (160, 22, 16, 1)],
         "solve": [(40, 6, 10, 0), (400, 12, 14, 0)],
         "save": [(32, 8, 10, 0), (240, 16, 14, 0)]}


def run(chk, tier, focus):
    n, k, length, pairs = SIZES[focus][tier != "quick"]
    cases = os.path.join(chk.scratch, "session.json")
    gen = tlc_ok("SessionGen", env=dict(MV_SEED=SEED, MV_N=n, MV_K=k, MV_L=length, MV_PAIRS=pairs, MV_FOCUS=focus, MV_OUT=cases),
                 scratch=chk.scratch)
    data = read_json(cases)
    got, bad = session.run_histories(data["cfgs"], data["histories"], chk.scratch)
    for b in bad:
        chk.violation(f"configuration {b['ref']} is not built in a fresh process: {b['error']}", {"cfg": data["cfgs"][b["ref"]["c"] - 1]})
    failed = [(i, g) for i, g in enumerate(got) if "failed" in g]
    for i, g in failed:
        raise RuntimeError(f"history {i + 1}: {g['failed']}")
    tr, vd = os.path.join(chk.scratch, "trace.json"), os.path.join(chk.scratch, "verdict")
    write_json(tr, got)
    val = tlc_ok("SessionTrace", env=dict(MV_CASES=cases, MV_TRACE=tr, MV_OUT=vd, MV_FOCUS=focus), scratch=chk.scratch)
    for p in sorted(glob.glob(vd + "-*.json")):
        v = read_json(p)
        h, g = data["histories"][v["i"] - 1], got[v["i"] - 1]
        for q in v["problems"]:
            op = h["ops"][q["k"] - 1] if q["k"] <= len(h["ops"]) else "the end"
            res = g["results"][q["k"] - 1] if q["k"] <= len(h["ops"]) else {}
            chk.violation(f"{q['what']}: specified {str(q['want'])[:150]}, observed {str(q['got'])[:150]} "
                          f"{res.get('error', '')} {res.get('diff', '')} (history {v['i']} {h['kind']}, operation {q['k']}: {op})",
                          {"history": h, "configurations": data["cfgs"], "problem": q})
    ops = [o for h in data["histories"] for o in h["ops"]]
    count = lambda what: sum(o["op"] == what for o in ops)      # noqa: E731
    chk.coverage = {"states": gen.distinct + val.distinct, "transitions": gen.generated + val.generated,
                    "traces_validated_against_impl": len(got), "configurations": k, "references_in_fresh_processes": len(session.REFS),
                    "operations": {w: count(w) for w in ("build", "bad", "rewrite", "edit", "query", "solve", "save", "reload")},
                    "through_a_solver_program": sum(h["kind"] == "exe" for h in data["histories"]),
                    "series_compared": sum(len(r.get("rows", [])) for g in got for r in g["results"]),
                    "samples": [" ".join(o["op"] for o in h["ops"]) for h in data["histories"][:6]]}


CHECKS = {"C06": ("model_checking", lambda chk, tier: run(chk, tier, "build")),
          "C20": ("model_checking", lambda chk, tier: run(chk, tier, "solve")),
          "C22": ("model_checking", lambda chk, tier: run(chk, tier, "save"))}
