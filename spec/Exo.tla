--------------------------------- MODULE Exo ---------------------------------
(***************************************************************************)
(* The time grid and the exogenous paths.                                    *)
(*                                                                          *)
(* Grid: with the time step as an exact fraction (thousandths of a year).     *)
(* Paths: the data of the region, continued after the last data year with a    *)
(* growth that falls linearly to zero in 2150, in steps of ten years, and in     *)
(* between the cubic spline through these points (not-a-knot at both ends).      *)
(***************************************************************************)
EXTENDS Units

(* start, end: years; dtm: step in thousandths of a year *)
Periods(start, end, dtm) ==
    LET h == (end - start) * 1000 IN IF h <= 0 THEN 1 ELSE ((h + dtm - 1) \div dtm) + 1
YearAt(start, dtm, i) == start + (i * dtm) / 1000        \* i = 0, 1, ...
Years(start, end, dtm) == [ i \in 1 .. Periods(start, end, dtm) |-> YearAt(start, dtm, i - 1) ]

----------------------------------------------------------------------------
(* The spline through (xs[i], ys[i]): slopes at the points by elimination on   *)
(* the tridiagonal system of continuous second derivatives.                     *)
Slopes(xs, ys) ==
    LET n == Len(xs)
        h(i) == xs[i + 1] - xs[i]
        s(i) == (ys[i + 1] - ys[i]) / h(i)
        d0 == xs[3] - xs[1]
        d1 == xs[n] - xs[n - 2]
        sub(i) == IF i = n THEN d1 ELSE h(i)
        diag(i) == CASE i = 1 -> h(2) [] i = n -> h(n - 2) [] OTHER -> 2 * (h(i - 1) + h(i))
        sup(i) == IF i = 1 THEN d0 ELSE h(i - 1)
        rhs(i) ==
            CASE i = 1 -> ((h(1) + 2 * d0) * h(2) * s(1) + h(1) * h(1) * s(2)) / d0
              [] i = n -> (h(n - 1) * h(n - 1) * s(n - 2) + (2 * d1 + h(n - 1)) * h(n - 2) * s(n - 1)) / d1
              [] OTHER -> 3 * (h(i) * s(i - 1) + h(i - 1) * s(i))
        down == Fold(LAMBDA acc, i :
                       IF i = 1 THEN << [b |-> ToReal(diag(1)), r |-> ToReal(rhs(1))] >>
                       ELSE LET w == sub(i) / acc[i - 1].b
                            IN  Append(acc, [b |-> diag(i) - w * sup(i - 1), r |-> rhs(i) - w * acc[i - 1].r]),
                     << >>, [ i \in 1 .. n |-> i ])
        up == Fold(LAMBDA acc, k :          \* from the last point to the first
                     LET i == n + 1 - k
                     IN  IF k = 1 THEN << down[n].r / down[n].b >>
                         ELSE << (down[i].r - sup(i) * acc[1]) / down[i].b >> \o acc,
                   << >>, [ k \in 1 .. n |-> k ])
    IN  up

SplineAt(xs, ys, ms, x) ==
    LET n == Len(xs)
        i == CHOOSE j \in 1 .. n - 1 : (j = 1 \/ xs[j] <= x) /\ (j = n - 1 \/ x < xs[j + 1])
        h == xs[i + 1] - xs[i]
        t == (x - xs[i]) / h
        u == 1 - t
    IN  u * u * (1 + 2 * t) * ys[i] + t * t * (3 - 2 * t) * ys[i + 1]
        + h * t * u * (u * ms[i] - t * ms[i + 1])

----------------------------------------------------------------------------
(* Data points continued beyond the last data year *)
LastExtra == 2410
ExtraYears == [ i \in 1 .. (LastExtra - 2100) \div 10 |-> 2100 + 10 * i ]
Extended(years, values) ==
    LET n == Len(years)
        rate == (values[n] - values[n - 1]) / (years[n] - years[n - 1])
        growth(y) == IF y >= 2150 THEN ToReal(0) ELSE (rate * (2150 - y)) / 50
    IN  [ x |-> years \o ExtraYears,
          y |-> Fold(LAMBDA acc, e :
                       LET k == Len(acc)
                           before == IF k = n THEN years[n] ELSE e - 10
                       IN  Append(acc, acc[k] + growth(before) * (e - before)),
                     values, ExtraYears) ]

----------------------------------------------------------------------------
(* A table: [years, rows: sequence of [model, scenario, region, variable, unit, values (, expr)]] *)

KnownUnits ==      \* the units of the shipped data
    [ u \in {"Mt CO2/yr", "billion US$2005/yr", "million"} |->
        CASE u = "Mt CO2/yr" -> << fac("MtCO2", 1), fac("yr", -1) >>
          [] u = "billion US$2005/yr" -> << fac("billion", 1), fac("USD2005", 1), fac("yr", -1) >>
          [] OTHER -> << fac("million", 1) >> ]
ExprOf(row) == IF "expr" \in DOMAIN row THEN row.expr ELSE KnownUnits[row.unit]

Matches(table, src, region) ==
    { i \in 1 .. Len(table.rows) :
        /\ table.rows[i].region = region /\ table.rows[i].variable = src.variable
        /\ table.rows[i].scenario = src.scenario /\ table.rows[i].model = src.model }
HasData(table, src, region) == Matches(table, src, region) # {}

(* the curve of a region: points and slopes; src names variable, scenario, model, unit *)
Curve(table, src, region) ==
    LET row == table.rows[CHOOSE i \in Matches(table, src, region) : TRUE]
        target == TargetNamed(src.unit)
        vals == Force([ i \in 1 .. Len(row.values) |-> Convert(row.values[i], ExprOf(row), target) ])
        ext == Force(Extended(table.years, vals))
    IN  [x |-> ext.x, y |-> ext.y, m |-> Slopes(ext.x, ext.y)]
At(curve, year) == SplineAt(curve.x, curve.y, curve.m, year)

(* Rounding of the ill-conditioned last knots is far below this *)
Close(a, b, scale) == Abs(a - b) <= R("2e-6") * (Abs(b) + scale)
=============================================================================
