"""Conformance of the real model with the specification (modules Mimosa, Limits, ModelGen, ModelTrace).

1. TLC chooses configurations (Scenarios) and the real model is built for each of them.
2. TLC generates a behaviour of the specification for each (ModelGen).
3. Every state of the behaviour, and disturbed copies of it, are projected onto the equations
   of the real model, period by period: what comes out are steps the real model allows.
4. TLC validates these steps (ModelTrace) and names the broken equations.  A behaviour of the
   specification that the real model does not allow shows as a projection that has to move.
5. Slacks of all limits, evaluated by TLC and by the real model at disturbed points, have to be
   the same functions; where they are not, a pair of points on either side of the limit is
   constructed to decide whether the set of allowed states really differs.
"""
import multiprocessing
import os
import random
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

from . import common, repo, tables          # common first: it limits numpy to one thread
import numpy as np
from .common import CORES, SEED, read_json, tlc_ok, write_json

NOISE = (0.02, 0.15)
SIGNATURES = 3
MOVED = 1e-6


# ---------------------------------------------------------------- scenarios and models

def scenarios(family, n, seed=None, scratch=None):
    out = os.path.join(scratch, f"sc-{family}.json")
    tlc_ok("GenScenarios", env=dict(MV_SEED=SEED if seed is None else seed, MV_N=n, MV_FAMILY=family, MV_OUT=out),
           scratch=scratch, workers=1)
    return read_json(out)


def _pool():
    repo.load()
    return ProcessPoolExecutor(CORES, mp_context=multiprocessing.get_context("fork"))


def run_all(fn, items):
    with _pool() as pool:
        return list(pool.map(fn, items))


def _build_and_log(sc):
    try:
        M = repo.build(repo.params_of(sc))
        return {"sc": sc, "X": repo.exogenous(M.concrete_model), "P": repo.derived(M.concrete_model)}
    except Exception as e:  # noqa: BLE001 - whatever the code does is reported
        return {"sc": sc, "error": f"{type(e).__name__}: {str(e)[:200]}",
                "trace": traceback.format_exc()[-1500:]}


# ---------------------------------------------------------------- points

class Points:
    """Correspondence between specification states and vectors of the real model."""

    def __init__(self, cm, states):
        self.cm, self.states = cm, states
        self.T = len(states)
        self.missing = []
        x = cm.initial()
        known = np.zeros(cm.n, bool)
        for t, s in enumerate(states):
            for v, val in s.items():
                if isinstance(val, dict):
                    for r, y in val.items():
                        i = cm.index.get((v, cm.times[t], r))
                        if i is None:
                            self.missing.append((v, t, r))
                        else:
                            x[i], known[i] = y, True
                else:
                    i = cm.index.get((v, cm.times[t], ""))
                    if i is None:
                        self.missing.append((v, t, ""))
                    else:
                        x[i], known[i] = val, True
        self.p, self.known = x, known
        typical = {}
        for i, (v, t, r) in enumerate(cm.keys):
            typical[v] = max(typical.get(v, 0.0), abs(x[i]))
        self.scale = np.array([max(abs(x[i]), 0.05 * typical[cm.keys[i][0]], 1e-6) if known[i]
                               else max(1.0, abs(x[i])) for i in range(cm.n)])

    def state(self, x, t):
        """The specification state at vector x, period t."""
        out = {}
        for v, val in self.states[t].items():
            if isinstance(val, dict):
                out[v] = {}
                for r, y in val.items():
                    i = self.cm.index.get((v, self.cm.times[t], r))
                    out[v][r] = float(x[i]) if i is not None else y
            else:
                i = self.cm.index.get((v, self.cm.times[t], ""))
                out[v] = float(x[i]) if i is not None else val
        return out

    def noisy(self, rng, amp):
        x = self.p.copy()
        for i, (v, t, r) in enumerate(self.cm.keys):
            if not self.known[i]:
                continue
            if v == "relative_abatement" and t == self.cm.times[0]:
                continue
            d = amp * self.scale[i] * rng.uniform(-1, 1)
            if v == "relative_abatement":
                d = amp * abs(x[i]) * rng.uniform(-1, 1)
            x[i] += d
        return x


def _project_all(job):
    """Worker: rebuild the model, project, and collect what TLC has to judge."""
    from .codemodel import CodeModel, evaluate, project
    sc, states, tracefile = job
    res = {"id": sc["id"], "problems": [], "steps": [], "signatures": None, "projections": 0}
    try:
        M = repo.build(repo.params_of(sc))
        cm = CodeModel(M)
    except Exception as e:  # noqa: BLE001
        res["problems"].append({"kind": "build", "vars": [], "what": f"{type(e).__name__}: {str(e)[:200]}"})
        write_json(tracefile, [])
        return res
    P = Points(cm, states)
    for v in sorted({m[0] for m in P.missing}):
        res["problems"].append({"kind": "missing", "vars": [v], "what": f"the model has no variable {v} for every period and region"})
    if len(cm.times) != len(states):
        res["problems"].append({"kind": "periods", "vars": [], "what": f"{len(cm.times)} periods instead of {len(states)}"})
        write_json(tracefile, [])
        return res
    for c in cm.trivial:
        v = evaluate(c, P.p)
        if (c.lo is not None and v < c.lo - 1e-9) or (c.hi is not None and v > c.hi + 1e-9):
            res["problems"].append({"kind": "infeasible", "vars": [], "what": f"{c.label()} is false whatever the state"})
    steps = []

    def prev(x, t):
        return P.state(x, t - 1) if t > 0 else []

    rng = random.Random(f"{SEED}/{sc['id']}")
    for t in range(P.T):
        q = project(cm, cm.times[t], P.p, P.scale)
        res["projections"] += 1
        u = cm.block_vars[cm.times[t]]
        names = lambda c: sorted({cm.keys[i][0] for i in c.vars})
        if not q.ok:
            res["problems"].append({"kind": "rejected", "t": t, "vars": sorted({n for c, _ in q.worst[:2] for n in names(c)}),
                                    "cons": [c.label() for c, _ in q.worst[:3]],
                                    "sets": [names(c) for c, _ in q.worst[:2]],
                                    "what": f"period {t}: no state near the specified one satisfies the equations of the model"
                                            f" ({', '.join(c.label() for c, _ in q.worst[:3])})"})
        else:
            steps.append({"t": t, "prev": prev(P.p, t), "state": P.state(q.x, t), "kind": "exact"})
            k = np.array([P.known[i] for i in u])
            d = np.abs(q.x[u] - P.p[u]) / P.scale[u] * k
            worst = float(d.max()) if len(d) else 0.0
            if worst > MOVED:
                viol = []
                for c in cm.by_block.get(cm.times[t], []):
                    if all(P.known[i] for i in c.vars):
                        v = evaluate(c, P.p)
                        mag = sum(abs(P.p[i]) for i in c.vars) + 1e-6
                        if not abs(v - c.lo) <= 1e-8 * mag:
                            viol.append(c)
                res["problems"].append({"kind": "moved", "t": t, "vars": sorted({n for c in viol[:4] for n in names(c)}),
                                        "cons": [c.label() for c in viol[:4]], "sets": [names(c) for c in viol[:4]],
                                        "what": f"period {t}: the model does not allow the specified state (violates "
                                                f"{', '.join(c.label() for c in viol[:4]) or 'its equations'})"})
        for amp in NOISE:
            q = None
            for attempt in range(3):
                x0 = P.noisy(rng, amp / 4 ** attempt)
                # everything outside the period stays as specified
                y = P.p.copy()
                y[u] = x0[u]
                q = project(cm, cm.times[t], y, P.scale)
                res["projections"] += 1
                if q.ok:
                    break
            if q.ok:
                steps.append({"t": t, "prev": prev(P.p, t), "state": P.state(q.x, t), "kind": "noisy"})
            else:
                res["failed"] = res.get("failed", 0) + 1
    # slack signatures
    noisy = [P.noisy(rng, 0.1) for _ in range(SIGNATURES)]
    nsteps = len(steps)
    for x in noisy:
        for t in range(P.T):
            steps.append({"t": t, "prev": prev(x, t), "state": P.state(x, t), "equations": False, "kind": "signature"})
    sig = []
    for (c, sign, bound) in cm.ineqs:
        if not all(P.known[i] for i in c.vars):
            sig.append(None)
            continue
        sig.append([sign * (evaluate(c, x) - bound) for x in noisy])
    res["signatures"] = [(cm.times.index(c.block), c.label(), sorted({cm.keys[i][0] for i in c.vars}), sig[k])
                         for k, (c, _, _) in enumerate(cm.ineqs)]
    # objective
    from .codemodel import Con
    res["objectives"] = [(sense, [evaluate(Con("objective", (), used, fn, None, None, None), x) for x in [P.p] + noisy])
                         for used, fn, sense in cm.objectives]
    last = cm.index.get(("NPV", cm.times[-1], ""))
    res["npv"] = [float(x[last]) if last is not None else float("nan") for x in [P.p] + noisy]
    res["nsteps"] = nsteps
    res["kinds"] = [s["kind"] for s in steps]
    for s in steps:
        del s["kind"]
    write_json(tracefile, steps)
    return res


# ---------------------------------------------------------------- limits: confirmation

def _unit(v):
    v = np.asarray(v, float)
    n = np.linalg.norm(v)
    if n == 0:
        return v
    return v / n if np.all(np.isfinite(v)) else None


def match_limits(code, spec):
    """code: list of (t, label, vars, values or None); spec: list of (t, name, r, values).
    Returns the indices without a partner."""
    free_code = []
    by_t = {}
    for k, (t, name, r, vals) in enumerate(spec):
        by_t.setdefault(t, []).append((k, _unit(vals)))
    hit = set()
    for j, (t, label, vs, vals) in enumerate(code):
        u = None if vals is None else _unit(vals)
        ok = False
        for k, w in by_t.get(t, []):
            if u is not None and w is not None and np.max(np.abs(u - w)) < 1e-8:
                hit.add(k)
                ok = True
        if not ok:
            free_code.append(j)
    return free_code, [k for k in range(len(spec)) if k not in hit]


def _choose(ts):
    """First, middle and last of the periods concerned."""
    ts = sorted(set(ts))
    return sorted({ts[0], ts[len(ts) // 2], ts[-1]})


def _limit_points(job):
    """Worker, stage 1: points p + h e_j of the periods concerned, for TLC to take gradients."""
    from .codemodel import CodeModel
    sc, states, tracefile, periods = job
    M = repo.build(repo.params_of(sc))
    cm = CodeModel(M)
    P = Points(cm, states)
    steps, layout = [], []
    for t in periods:
        base = len(steps)
        prev = P.state(P.p, t - 1) if t > 0 else []
        steps.append({"t": t, "prev": prev, "state": P.state(P.p, t), "equations": False})
        vs = [i for i in cm.block_vars[cm.times[t]] if P.known[i]]
        hs = []
        for i in vs:
            h = 1e-4 * P.scale[i]
            x = P.p.copy()
            x[i] += h
            hs.append(h)
            steps.append({"t": t, "prev": prev, "state": P.state(x, t), "equations": False})
        layout.append((t, base, vs, hs))
    write_json(tracefile, steps)
    return layout


def _limit_witnesses(job):
    """Worker, stage 2: for every candidate a point on either side of it, on the equations."""
    from .codemodel import CodeModel, evaluate, project, value_and_gradient
    sc, states, tracefile, cands = job
    M = repo.build(repo.params_of(sc))
    cm = CodeModel(M)
    P = Points(cm, states)
    steps, out = [], []
    beta = sc["set"].get("economics - MAC - beta", {"py": 3})["py"]
    signed = float(beta).is_integer()
    started = time.time()
    for cand in cands:
        t = cand["t"]
        prev = P.state(P.p, t - 1) if t > 0 else []
        base = project(cm, cm.times[t], P.p, P.scale)
        ref = base.x if base.ok else P.p
        if cand["side"] == "spec":
            L0 = cand["value"]
            grad = dict(zip(cand["grad_vars"], cand["grad"]))
            mag = cand["mag"]
        else:
            c, sign, bound = cm.ineqs[cand["k"]]
            v, g = value_and_gradient(c, P.p)
            mag = sum(abs(d) * P.scale[i] for i, d in zip(c.vars, g)) + abs(bound) * 1e-3
        def violated(x):
            bad = []
            for k, (cc, sg, bd) in enumerate(cm.ineqs):
                if cm.times.index(cc.block) != t:
                    continue
                v = sg * (evaluate(cc, x) - bd)
                m = 1e-9 * (abs(bd) + sum(abs(x[i]) for i in cc.vars) / max(1, len(cc.vars)) + 1e-3)
                if not v >= -m:
                    bad.append(k)
            return bad

        pairs = []
        # first with the history as it is, then with the whole trajectory free to move
        for blocks, frac in [(cm.times[t], f) for f in (1e-4, 1e-3, 0.01, 0.1)] + \
                            [(cm.times[:t + 1], f) for f in (1e-3, 0.01, 0.05)]:
            if pairs and (blocks != cm.times[t] or len(pairs) == 3):
                break
            if time.time() - started > 100:
                break
            pts = []
            for target in (+1, -1):
                goal = target * frac * mag
                if cand["side"] == "spec":
                    def extra(x, goal=goal):
                        return L0 + sum(d * (x[i] - P.p[i]) for i, d in grad.items()) - goal, grad
                else:
                    def extra(x, goal=goal):
                        v, g = value_and_gradient(c, x)
                        return sign * (v - bound) - goal, {i: sign * d for i, d in zip(c.vars, g)}
                q = project(cm, blocks, ref, P.scale, extra=[extra], iters=60, signed=signed)
                if not q.ok:
                    break
                pts.append(q.x)
            if len(pts) == 2:
                pairs.append({"viol": [violated(x) for x in pts]})
                for x in pts:
                    steps.append({"t": t, "prev": P.state(x, t - 1) if t > 0 else [],
                                  "state": P.state(x, t), "equations": False})
        # not reachable: what holds at the reference point
        steps.append({"t": t, "prev": prev, "state": P.state(ref, t), "equations": False})
        # a bound on a variable by itself, whatever the equations say
        direct = None
        if cand["side"] == "spec" and cand["name"].startswith("bound_"):
            x = P.p.copy()
            for i, d in grad.items():
                if d:
                    x[i] -= (L0 + 0.1 * mag) / d
            direct = bool(set(violated(x)) - set(violated(P.p)))
        out.append({"pairs": pairs, "refbad": violated(ref), "direct": direct})
    write_json(tracefile, steps)
    return out


# ---------------------------------------------------------------- the whole pipeline

class Outcome:
    def __init__(self):
        self.scenarios = self.built = self.states = self.transitions = self.steps = 0
        self.projections = self.limits = self.confirmed = 0
        self.issues = []      # dict(kind, names, what, scenario, ...)
        self.samples = []
        self.spec_invariant_states = 0
        self.families = {}
        self.distinct = set()
        self.derived = 0
        self.given_up = 0


def spec_trace(batch, scratch, name="ModelTrace"):
    return tlc_ok(name, env=dict(MV_IN=os.path.join(scratch, "batch.json"),
                                 MV_TABLES=os.path.join(scratch, "tables.json"), MV_TRACES=scratch),
                  scratch=scratch)


def run(family, n, scratch, seed=None, limits=True, outcome=None):
    out = outcome or Outcome()
    scs = scenarios(family, n, seed, scratch)
    out.scenarios += len(scs)
    built = run_all(_build_and_log, scs)
    for b in built:
        if "error" in b:
            out.issues.append({"kind": "build", "names": [], "scenario": b["sc"],
                               "what": f"{b['sc']['id']}: the model cannot be built: {b['error']}"})
    batch = [b for b in built if "error" not in b]
    out.built += len(batch)
    if not batch:
        return out
    write_json(os.path.join(scratch, "batch.json"), batch)
    write_json(os.path.join(scratch, "tables.json"), tables.regional_tables())
    for f in os.listdir(scratch):
        if f.startswith(("behaviour-", "trace-", "verdict-", "derived-")):
            os.remove(os.path.join(scratch, f))
    gen = common.tlc("ModelGen", env=dict(MV_IN=os.path.join(scratch, "batch.json"), MV_SEED=SEED,
                                          MV_TABLES=os.path.join(scratch, "tables.json"), MV_OUT=scratch),
                     scratch=scratch)
    if not gen.ok:
        # the exogenous data come from the code: a model whose data make no sense cannot be specified
        out.issues.append({"kind": "nobehaviour", "names": [], "scenario": [b["sc"]["id"] for b in batch],
                           "what": "the specification has no behaviour for the data of the model: "
                                   + (", ".join(gen.violated) or gen.tail()[-300:])})
        return out
    out.states += gen.distinct
    out.transitions += gen.generated
    # runs the specification gave up, as no economy is left, are left out
    files = [os.path.join(scratch, f"behaviour-{i + 1}.json") for i in range(len(batch))]
    drawn = len(batch)
    batch, beh = (list(x) for x in zip(*[(b, read_json(f)["states"]) for b, f in zip(batch, files)
                                         if os.path.exists(f)])) if any(map(os.path.exists, files)) else ([], [])
    out.given_up += drawn - len(batch)
    if len(batch) < drawn:
        write_json(os.path.join(scratch, "batch.json"), batch)
        if len(batch) < 0.6 * drawn:
            out.issues.append({"kind": "nobehaviour", "names": [], "scenario": [],
                               "what": f"the specification has no behaviour for the data of {drawn - len(batch)} of {drawn} models"})
        if not batch:
            return out
    jobs = [(b["sc"], beh[i], os.path.join(scratch, f"trace-{i + 1}.json")) for i, b in enumerate(batch)]
    res = run_all(_project_all, jobs)
    tr = spec_trace(batch, scratch)
    out.states += tr.distinct
    cands = []
    for i, (b, r) in enumerate(zip(batch, res)):
        sc = b["sc"]
        verdict = read_json(os.path.join(scratch, f"verdict-{i + 1}.json"))
        out.projections += r["projections"]
        out.distinct.add(tuple(sorted((k, str(v["v"])) for k, v in sc["set"].items())))
        broken_at = {}
        for j, v in enumerate(verdict[:r.get("nsteps", 0)]):
            out.steps += 1
            for miss in v["broken"]:
                broken_at.setdefault(miss["v"], []).append((v["t"], miss, r["kinds"][j]))
        for name, lst in broken_at.items():
            t, miss, kind = lst[0]
            out.issues.append({"kind": "equation", "names": [name], "scenario": sc,
                               "what": f"{sc['id']}: period {t}: the model allows {name}"
                                       f"{'[' + miss['r'] + ']' if miss['r'] else ''} = {miss['got']!r}, specified is {miss['want']!r}"
                                       f" ({len(lst)} steps)"})
        wrong = {}
        for miss in read_json(os.path.join(scratch, f"derived-{i + 1}.json")):
            wrong.setdefault(miss["v"], []).append(miss)
        out.derived += sum(len(p["entries"]) for p in b["P"])
        for name, lst in wrong.items():
            m = lst[0]
            out.issues.append({"kind": "derived", "names": [name], "scenario": sc,
                               "what": f"{sc['id']}: period {m['t']}: {name}{'[' + m['r'] + ']' if m['r'] else ''} is "
                                       f"{m['got']!r}, specified is {m['want']!r} ({len(lst)} values)"})
        broken_ts = {t for lst in broken_at.values() for t, _, _ in lst}
        for pr in r["problems"]:
            if pr["kind"] in ("moved",) and pr["t"] in broken_ts:
                continue      # explained by a broken equation
            out.issues.append({"kind": pr["kind"], "names": pr["vars"], "sets": pr.get("sets", []), "scenario": sc,
                               "what": f"{sc['id']}: {pr['what']}"})
        # objective
        if r.get("npv"):
            want = b_objective(sc)
            objs = r.get("objectives", [])
            if len(objs) != 1:
                out.issues.append({"kind": "objective", "names": ["objective"], "scenario": sc,
                                   "what": f"{sc['id']}: {len(objs)} objectives"})
            else:
                sense, vals = objs[0]
                if sense != want or not np.allclose(vals, r["npv"], rtol=1e-9, atol=1e-12):
                    out.issues.append({"kind": "objective", "names": ["objective"], "scenario": sc,
                                       "what": f"{sc['id']}: objective {sense} {vals[:2]} instead of {want} {r['npv'][:2]}"})
        # limits
        if r["signatures"] is None or not limits:
            continue
        spec = {}
        T = len(beh[i])
        sig = verdict[r["nsteps"]:]
        for k in range(SIGNATURES):
            for t in range(T):
                for s in sig[k * T + t]["slacks"]:
                    spec.setdefault((t, s["name"], s["r"]), []).append(s["slack"])
        speclist = [(t, nme, rr, vals) for (t, nme, rr), vals in spec.items()]
        out.limits += len(speclist)
        fc, fs = match_limits(r["signatures"], speclist)
        if fc or fs:
            if os.environ.get("MV_DEBUG"):
                for j in fc[:8]: print("code", sc["id"], r["signatures"][j])
                for k in fs[:8]: print("spec", sc["id"], speclist[k])
            cands.append((i, [r["signatures"][j] + (j,) for j in fc], [speclist[k] for k in fs]))
    if cands:
        confirm(batch, beh, cands, scratch, out)
    if len(out.samples) < 10:
        for b in batch[:3]:
            out.samples.append({"id": b["sc"]["id"], "regions": b["sc"]["regions"],
                                "options": {k: v["py"] for k, v in b["sc"]["set"].items()}})
    out.families[family] = out.families.get(family, 0) + len(batch)
    return out


def b_objective(sc):
    v = sc["set"].get("model - objective module", {"v": "utility"})["v"]
    return "maximize" if v == "utility" else "minimize"


def confirm(batch, beh, cands, scratch, out):
    """Decide which unmatched limits are real differences."""
    chosen = []
    for i, code, spec in cands:
        groups = {}
        for c in code:
            groups.setdefault(("code", c[1].split("[")[0]), []).append(c)
        for s in spec:
            groups.setdefault(("spec", s[1]), []).append(s)
        picked = []
        for (side, name), lst in groups.items():
            for t in _choose([e[0] for e in lst]):
                e = next(e for e in lst if e[0] == t)
                picked.append((side, name, t, e))
        chosen.append((i, picked[:24], {"code": {c[4] for c in code}, "spec": {(s[0], s[1], s[2]) for s in spec}}))
    chosen = chosen[:10]
    sub = [batch[i] for i, _, _ in chosen]
    write_json(os.path.join(scratch, "batch.json"), sub)
    jobs = [(batch[i]["sc"], beh[i], os.path.join(scratch, f"trace-{k + 1}.json"), sorted({p[2] for p in picked}))
            for k, (i, picked, _) in enumerate(chosen)]
    layouts = run_all(_limit_points, jobs)
    spec_trace(sub, scratch)
    jobs = []
    for k, (i, picked, _) in enumerate(chosen):
        verdict = read_json(os.path.join(scratch, f"verdict-{k + 1}.json"))
        lay = {t: (base, vs, hs) for t, base, vs, hs in layouts[k]}
        cl = []
        for side, name, t, e in picked:
            c = {"side": side, "name": name, "t": t}
            if side == "code":
                c["k"], c["vars"] = e[4], e[2]
            else:
                base, vs, hs = lay[t]
                find = lambda v: next(s["slack"] for s in v["slacks"] if s["name"] == e[1] and s["r"] == e[2])
                L0 = find(verdict[base])
                g = [(find(verdict[base + 1 + a]) - L0) / h for a, h in enumerate(hs)]
                c.update(value=L0, r=e[2], grad_vars=vs, grad=g,
                         mag=sum(abs(d) * h * 1e4 for d, h in zip(g, hs)) + 1e-9)
            cl.append(c)
        jobs.append((batch[i]["sc"], beh[i], os.path.join(scratch, f"trace-{k + 1}.json"), cl))
    wit = run_all(_limit_witnesses, jobs)
    spec_trace(sub, scratch)
    for k, ((i, picked, free), job, ws) in enumerate(zip(chosen, jobs, wit)):
        verdict = read_json(os.path.join(scratch, f"verdict-{k + 1}.json"))
        sc = batch[i]["sc"]
        pos = 0
        for c, w in zip(job[3], ws):
            slack = lambda k: {(s["name"], s["r"]): s["slack"] for s in verdict[k]["slacks"]}
            pairs = []
            for pr in w["pairs"]:
                pairs.append((pr["viol"], [slack(pos), slack(pos + 1)]))
                pos += 2
            ref = slack(pos)
            pos += 1
            out.confirmed += 1
            bad = lambda s: {n for n, v in s.items() if v < -1e-9}
            if os.environ.get("MV_DEBUG"):
                print(sc["id"], c["side"], c["name"], c["t"], c.get("value"), c.get("mag"),
                      [(v, [s.get((c["name"], c.get("r"))) for s in k]) for v, k in pairs])
            if c["side"] == "spec":
                me = (c["name"], c["r"])
                label = f"limit {c['name']}{'[' + c['r'] + ']' if c['r'] else ''} in period {c['t']}"
                for viol, slk in pairs:
                    # a clean witness: only this limit tells the two points apart
                    if slk[0][me] > 0 > slk[1][me] and not [a for a in viol[1] if a not in viol[0]]:
                        out.issues.append({"kind": "limit", "names": [c["name"]], "scenario": sc,
                                           "what": f"{sc['id']}: {label} is not enforced (slack {slk[1][me]:.4g} allowed)"})
                        break
                else:
                    if w["direct"] is False:
                        out.issues.append({"kind": "limit", "names": [c["name"]], "scenario": sc,
                                           "what": f"{sc['id']}: {label}: nothing keeps the variable within it"})
                if not pairs and ref[me] < -1e-6 * (1 + abs(ref[me])) \
                        and not [a for a in w["refbad"] if a in free["code"]]:
                    out.issues.append({"kind": "limit", "names": [c["name"]], "scenario": sc,
                                       "what": f"{sc['id']}: {label} is not enforced (slack {ref[me]:.4g})"})
            else:
                label = f"{c['name']} in period {c['t']}"
                differs = False
                for viol, slk in pairs:
                    if c["k"] in viol[1] and c["k"] not in viol[0] and not bad(slk[1]) - bad(slk[0]):
                        differs = True
                if not pairs and c["k"] in w["refbad"] \
                        and not [n for n in bad(ref) if (c["t"],) + n in free["spec"]]:
                    differs = True
                if differs:
                    out.issues.append({"kind": "extralimit", "names": c["vars"], "con": c["name"], "scenario": sc,
                                       "what": f"{sc['id']}: {label} forbids a state that no specified limit forbids"})
