"""The real model as mathematics: its variables, equations and inequalities, evaluated
independently of how the source expresses them.

Nothing in here knows what the equations should be.  A model is a set of functions of the
variable vector; the only operations are evaluating them and projecting a point onto the set
where the equalities of one period hold.
"""
import math

import numpy as np

from . import repo

STEP = 1e-30


class Unsupported(Exception):
    pass


FUNCS = {"exp": "np.exp", "log": "np.log", "atan": "np.arctan", "sqrt": "np.sqrt", "tanh": "np.tanh",
         "sin": "np.sin", "cos": "np.cos", "tan": "np.tan", "log10": "np.log10", "sinh": "np.sinh",
         "cosh": "np.cosh", "asin": "np.arcsin", "acos": "np.arccos"}


class Compiler:
    """Pyomo expressions to Python functions of a list of arrays (one per variable used)."""

    def __init__(self, index_of):
        self.index_of = index_of

    def code(self, e):
        from pyomo.core.expr import numeric_expr as ne
        from pyomo.environ import value
        if type(e) in (int, float, np.float64, np.int64, bool):
            return repr(float(e))
        if not e.is_expression_type():
            if e.is_fixed() and not e.is_variable_type():
                return repr(float(value(e)))
            if e.is_variable_type():
                i = self.index_of[id(e)]
                k = self.used.setdefault(i, len(self.used))
                return f"x[{k}]"
            return repr(float(value(e)))
        if not e.is_potentially_variable():
            return repr(float(value(e)))
        args = [self.code(a) for a in e.args]
        if isinstance(e, ne.NegationExpression):
            return f"(-{args[0]})"
        if isinstance(e, ne.DivisionExpression):
            return f"({args[0]}/{args[1]})"
        if isinstance(e, ne.PowExpression):
            return f"({args[0]}**{args[1]})"
        if isinstance(e, ne.ProductExpression):          # includes monomials
            return f"({args[0]}*{args[1]})"
        if isinstance(e, ne.SumExpressionBase):          # includes linear expressions
            return "(" + "+".join(args) + ")" if args else "0.0"
        if isinstance(e, ne.UnaryFunctionExpression) and e.getname() in FUNCS:
            return f"{FUNCS[e.getname()]}({args[0]})"
        if hasattr(e, "expr") and len(args) == 1:        # named expressions
            return args[0]
        raise Unsupported(type(e).__name__)

    def compile(self, e):
        self.used = {}
        try:
            src = self.code(e)
            fn = eval("lambda x: " + src, {"np": np})
            return list(self.used), fn
        except (Unsupported, RecursionError, MemoryError, SyntaxError):
            return self.fallback(e)

    def fallback(self, e):
        from pyomo.core.expr.visitor import identify_variables
        from pyomo.core.expr.calculus.derivatives import differentiate, Modes
        from pyomo.environ import value
        vs = list(identify_variables(e, include_fixed=True))

        def fn(x):
            old = [v.value for v in vs]
            for v, a in zip(vs, x):
                v.set_value(float(np.real(np.atleast_1d(a)[0])), skip_validation=True)
            try:
                f = value(e)
                g = differentiate(e, wrt_list=vs, mode=Modes.reverse_numeric)
            finally:
                for v, o in zip(vs, old):
                    v.set_value(o, skip_validation=True)
            return np.array([f] + [f + 1j * STEP * d for d in g])
        return [self.index_of[id(v)] for v in vs], fn


class Con:
    """lo <= body(x) <= hi"""
    __slots__ = ("name", "index", "vars", "fn", "lo", "hi", "block", "bound")

    def __init__(self, name, index, vars_, fn, lo, hi, block, bound=False):
        self.name, self.index, self.vars, self.fn = name, index, vars_, fn
        self.lo, self.hi, self.block, self.bound = lo, hi, block, bound

    @property
    def equality(self):
        return self.lo is not None and self.hi is not None and abs(self.lo - self.hi) <= 1e-12 * (1 + abs(self.lo))

    def label(self):
        return f"{self.name}{list(self.index) if self.index else ''}"


class CodeModel:
    def __init__(self, M):
        from pyomo.environ import Var, Constraint, Objective, value
        self.M = M
        m = self.m = M.concrete_model
        self.times = list(m.t)
        self.regions = list(m.regions)
        self.vars, self.keys, self.time = [], [], []
        index_of = {}
        for comp in m.component_objects(Var, descend_into=True):
            for idx in comp:
                d = comp[idx]
                i = len(self.vars)
                index_of[id(d)] = i
                self.vars.append(d)
                tup = idx if isinstance(idx, tuple) else (() if idx is None else (idx,))
                t = tup[0] if tup and tup[0] in self.times and not isinstance(tup[0], str) else None
                r = next((a for a in tup if isinstance(a, str) and a in self.regions), "")
                self.keys.append((comp.local_name, t, r))
                self.time.append(t)
        self.index = {k: i for i, k in enumerate(self.keys)}
        self.n = len(self.vars)
        comp = Compiler(index_of)
        self.cons, self.trivial = [], []
        for c in m.component_data_objects(Constraint, active=True, descend_into=True):
            lo = None if c.lower is None else float(value(c.lower))
            hi = None if c.upper is None else float(value(c.upper))
            used, fn = comp.compile(c.body)
            par = c.parent_component()
            idx = c.index()
            idx = idx if isinstance(idx, tuple) else (() if idx is None else (idx,))
            con = Con(par.local_name, idx, used, fn, lo, hi, self.block_of(used))
            (self.cons if used else self.trivial).append(con)
        for i, d in enumerate(self.vars):
            if d.fixed:
                v = float(value(d))
                self.cons.append(Con("fixed " + d.name, (), [i], _first, v, v, self.block_of([i]), True))
                continue
            lb, ub = d.bounds
            if lb is not None:
                self.cons.append(Con("lower bound of " + d.name, (), [i], _first, float(lb), None,
                                     self.block_of([i]), True))
            if ub is not None:
                self.cons.append(Con("upper bound of " + d.name, (), [i], _first, None, float(ub),
                                     self.block_of([i]), True))
        self.eqs = [c for c in self.cons if c.equality]
        self.ineqs = []          # (con, sign, bound): sign * (body - bound) >= 0
        for c in self.cons:
            if not c.equality:
                if c.lo is not None and math.isfinite(c.lo):
                    self.ineqs.append((c, 1.0, c.lo))
                if c.hi is not None and math.isfinite(c.hi):
                    self.ineqs.append((c, -1.0, c.hi))
        self.by_block = {}
        for c in self.eqs:
            self.by_block.setdefault(c.block, []).append(c)
        objs = list(m.component_data_objects(Objective, active=True, descend_into=True))
        self.objectives = []
        for o in objs:
            used, fn = comp.compile(o.expr)
            self.objectives.append((used, fn, "maximize" if o.sense == -1 else "minimize"))
        self.block_vars = {t: [i for i in range(self.n) if (self.time[i] if self.time[i] is not None else self.times[0]) == t]
                           for t in self.times}

    def block_of(self, used):
        ts = [self.time[i] for i in used if self.time[i] is not None]
        return max(ts) if ts else self.times[0]

    def initial(self):
        return np.array([float(d.value) if d.value is not None else 0.0 for d in self.vars])


def _first(x):
    return x[0]


def evaluate(con, x):
    """Value of the body, or nan."""
    with np.errstate(all="ignore"):
        try:
            v = con.fn([np.array([x[i] + 0j]) for i in con.vars])
            v = complex(np.atleast_1d(v)[0])
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            return float("nan")
    return v.real if abs(v.imag) <= 1e-200 + 1e-9 * abs(v.real) else float("nan")


def value_and_gradient(con, x):
    n = len(con.vars)
    xs = []
    for k, i in enumerate(con.vars):
        a = np.full(n + 1, x[i] + 0j)
        a[k + 1] += 1j * STEP
        xs.append(a)
    with np.errstate(all="ignore"):
        try:
            v = np.asarray(con.fn(xs))
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            return float("nan"), np.full(n, float("nan"))
    if v.ndim == 0:
        v = np.full(n + 1, complex(v))
    if abs(v[0].imag) > 1e-200 + 1e-9 * abs(v[0].real):
        return float("nan"), np.full(n, float("nan"))
    return v[0].real, (v[1:].imag / STEP)


class Projection:
    def __init__(self, x, ok, residual, worst):
        self.x, self.ok, self.residual, self.worst = x, ok, residual, worst


def project(cm, t, x0, scale, extra=(), iters=40, tol=1e-12, signed=False):
    """Nearest point (in scaled distance) to x0 in the variables of period t (or of several
    periods) where all equalities of these periods hold; everything else stays at x0.
    extra: further equalities, as functions returning value and sparse gradient {var: d}.
    signed: abatement may be negative (its powers are whole numbers)."""
    periods = t if isinstance(t, (list, tuple)) else [t]
    unknown = [i for u in periods for i in cm.block_vars[u]]
    col = {i: k for k, i in enumerate(unknown)}
    eqs = [c for u in periods for c in cm.by_block.get(u, [])]
    x = x0.copy()
    sc = scale[unknown]
    nonneg = [] if signed else [i for i in unknown if cm.keys[i][0] == "relative_abatement"]   # powers of it
    m = len(eqs) + len(extra)

    def system(x):
        F = np.zeros(m)
        rows, cols, vals = [], [], []
        for a, c in enumerate(eqs):
            v, g = value_and_gradient(c, x)
            F[a] = v - c.lo
            for i, d in zip(c.vars, g):
                if i in col:
                    rows.append(a)
                    cols.append(col[i])
                    vals.append(d)
        for b, e in enumerate(extra):
            v, g = e(x)
            F[len(eqs) + b] = v
            for i, d in g.items():
                if i in col:
                    rows.append(len(eqs) + b)
                    cols.append(col[i])
                    vals.append(d)
        vals = np.array(vals) * sc[cols] if vals else np.zeros(0)
        norm = np.zeros(m)
        np.add.at(norm, rows, np.abs(vals)) if len(vals) else None
        bad = not np.all(np.isfinite(F)) or not np.all(np.isfinite(vals))
        norm[~(norm > 1e-14)] = 1.0
        if len(vals):
            vals = vals / norm[rows]
        return F / norm, (rows, cols, vals), bad

    def direction(F, J):
        rows, cols, vals = J
        if len(unknown) <= 350:
            D = np.zeros((m, len(unknown)))
            np.add.at(D, (rows, cols), vals)
            return np.linalg.lstsq(D, -F, rcond=1e-13)[0]
        from scipy.sparse import csc_matrix, identity
        from scipy.sparse.linalg import splu
        D = csc_matrix((vals, (rows, cols)), shape=(m, len(unknown)))
        A = (D @ D.T + 1e-13 * identity(m)).tocsc()
        lu = splu(A)
        y = lu.solve(-F)
        y += lu.solve(-F - A @ y)
        return D.T @ y

    F, J, bad = system(x)
    if bad:
        return Projection(x, False, float("inf"), _worst(eqs, F))
    best = np.max(np.abs(F)) if len(F) else 0.0
    stall = 0
    for _ in range(iters):
        if best < tol:
            break
        try:
            dy = direction(F, J)
        except (np.linalg.LinAlgError, RuntimeError):
            break
        if not np.all(np.isfinite(dy)):
            break
        step = 1.0
        done = False
        for _ in range(12):
            xn = x.copy()
            xn[unknown] += step * sc * dy
            xn[nonneg] = np.maximum(xn[nonneg], 0.0)
            Fn, Jn, bad = system(xn)
            if not bad:
                rn = np.max(np.abs(Fn))
                if rn < best or step < 0.02 or rn < 1e-9:
                    done = True
                    break
            step /= 2
        if not done:
            break
        stall = stall + 1 if rn > 0.5 * best else 0
        x, F, J, best = xn, Fn, Jn, rn
        if stall >= 4 and best < 1e-9 or stall > 15:
            break
    return Projection(x, best < 1e-9, best, _worst(eqs, F))


def _worst(eqs, F):
    if not len(F):
        return []
    a = np.where(np.isfinite(F), np.abs(F), np.inf)
    order = np.argsort(-a[:len(eqs)])[:6]
    return [(eqs[k], float(a[k])) for k in order if a[k] > 1e-9]
