------------------------------- MODULE SimMode -------------------------------
(***************************************************************************)
(* Simulation mode: variables held at given data, limits switched off.       *)
(*                                                                          *)
(* State: which constraints are active, and for every variable, region and    *)
(* period the interval it is confined to by simulation mode.  The single step  *)
(* `Apply` reads the settings of the configuration.                            *)
(*                                                                          *)
(* Data: years and values per region ("Global" for variables without regions).  *)
(* They are continued every five years up to 2150 with the last growth falling   *)
(* to zero in 2150, and joined by the cubic spline (not-a-knot), whose end        *)
(* pieces also hold outside the data.                                             *)
(***************************************************************************)
EXTENDS Exo

Tolerance == R("1e-3")

SimExtra(last) == [ i \in 1 .. (IF last >= 2146 THEN 0 ELSE (2150 - last) \div 5) |-> last + 5 * i ]
SimExtended(years, values) ==
    LET n == Len(years)
        extra == SimExtra(years[n])
        rate == (values[n] - values[n - 1]) / (years[n] - years[n - 1])
    IN  [ x |-> years \o extra,
          y |-> Fold(LAMBDA acc, e :
                       LET before == e - 5
                       IN  Append(acc, acc[Len(acc)] + ((rate * (2150 - before)) / 50) * 5),
                     values, extra) ]
SimCurve(years, values) ==
    LET e == Force(SimExtended(years, values)) IN [x |-> e.x, y |-> e.y, m |-> Slopes(e.x, e.y)]

(* A setting s: [mode, pins: sequence of [v, regional, data], off: names];  data: [years, region -> values].     *)
Pinned(s) == IF s.mode THEN { s.pins[i].v : i \in 1 .. Len(s.pins) } ELSE {}
Off(s) == IF s.mode THEN Elements(s.off) ELSE {}
PinOf(s, v) == s.pins[CHOOSE i \in 1 .. Len(s.pins) : s.pins[i].v = v]
=============================================================================
