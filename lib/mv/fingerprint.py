"""What a built model is, independently of how it was built: parameters, variables, and the
values of all constraints and objectives at fixed pseudo-random points."""
import hashlib
import math

from . import repo


def _unit(text):
    h = hashlib.md5(text.encode()).digest()
    return int.from_bytes(h[:7], "big") / 2.0 ** 56


def _num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return str(x)


def _idx(i):
    if isinstance(i, tuple):
        return ",".join(_idx(j) for j in i)
    return "" if i is None else str(i)


def parameters(m):
    from pyomo.environ import Param, Set, value
    out = {}
    for p in m.component_objects(Param):
        for i in p:
            try:
                v = p[i]
                out[f"param {p.name}[{_idx(i)}]"] = _num(value(v)) if not isinstance(v, (bool, str)) else repr(v)
            except Exception as e:  # noqa: BLE001
                out[f"param {p.name}[{_idx(i)}]"] = type(e).__name__
    for s in m.component_objects(Set):
        if s.dimen == 1:
            out[f"set {s.name}"] = ",".join(_idx(i) for i in s)
    out["years"] = ",".join(repr(float(m.year(t))) for t in m.t)
    return out


def variables(m):
    from pyomo.environ import Var, value
    out = {}
    for v in m.component_objects(Var):
        for i in v:
            d = v[i]
            lo, hi = d.lb, d.ub
            out[f"var {v.name}[{_idx(i)}]"] = (None if lo is None else float(lo), None if hi is None else float(hi))
    return out


def constraints(m, points=2, active=None):
    """active: None for all constraints, True/False for those (in)active."""
    from pyomo.environ import Constraint, Objective, Var, value
    out = {}
    saved = [(d, d.value, d.fixed) for v in m.component_objects(Var) for d in v.values()]
    try:
        for k in range(points):
            for v in m.component_objects(Var):
                for i in v:
                    v[i].set_value(0.1 + _unit(f"{k}/{v.name}/{_idx(i)}"), skip_validation=True)
            for c in m.component_objects(Constraint):
                for i in c:
                    d = c[i]
                    if active is not None and d.active != active:
                        continue
                    out[f"{'' if d.active else 'inactive '}constraint {c.name}[{_idx(i)}] at {k}"] = tuple(
                        _eval(x) for x in (d.lower, d.body, d.upper))
            for o in m.component_objects(Objective):
                for i in o:
                    out[f"objective {o.name} {o.sense} at {k}"] = _eval(o[i].expr)
    finally:
        for d, val, fixed in saved:
            d.set_value(val, skip_validation=True)
    return out


def _eval(x):
    from pyomo.environ import value
    if x is None:
        return None
    try:
        v = value(x)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__
    if isinstance(v, complex):
        return "complex"
    return float(v)


def fingerprint(m, points=2):
    out = {}
    out.update(parameters(m))
    out.update(variables(m))
    out.update(constraints(m, points))
    return out


def same(a, b, rtol=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= rtol * (abs(a) + abs(b)) + 1e-12
    return a == b


def differences(a, b, rtol=1e-9, ignore=()):
    out = []
    for k in sorted(set(a) | set(b)):
        if k.startswith(tuple(ignore)) if ignore else False:
            continue
        if k not in a or k not in b:
            out.append(f"{k} only in {'first' if k in a else 'second'}")
        elif not same(a[k], b[k], rtol):
            out.append(f"{k}: {a[k]} / {b[k]}")
    return out
