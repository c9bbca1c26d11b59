------------------------------ MODULE GridTrace ------------------------------
(* Judges the grids of real models.  A record: [built, years (year of every      *)
(* period), periods (the indices of the time set), sets: the distinct sets of      *)
(* periods over which some variable or time series is defined, with a name each,   *)
(* first, step: what the model says its first year and step are].                  *)
EXTENDS Exo
Grids == Force(ReadJson(Env("MV_CASES", "grids.json")))
Trace == Force(ReadJson(Env("MV_TRACE", "trace.json")))
Out == Env("MV_OUT", "verdict.json")

Why(i) ==
    LET g == Grids[i]
        r == Trace[i]
        ys == Force(Years(g.start, g.end, g.dtm))
        n == Len(ys)
    IN  CASE ~r.built -> "not built"
          [] Len(r.years) # n -> "has " \o NumText(Len(r.years)) \o " years instead of " \o NumText(n)
          [] \E j \in 1 .. n : Abs(r.years[j] - ys[j]) > R("1e-7") -> "years differ"
          [] r.periods # [ j \in 1 .. n |-> j - 1 ] -> "periods are not 0, 1, 2, ..."
          [] \E k \in 1 .. Len(r.sets) : r.sets[k].at # r.periods ->
               "not all years of " \o r.sets[CHOOSE k \in 1 .. Len(r.sets) : r.sets[k].at # r.periods].name
          [] Abs(r.first - g.start) > R("1e-9") -> "first year"
          [] Abs(r.step - g.dtm / 1000) > R("1e-9") -> "step"
          [] OTHER -> "ok"

Verdict == Fold(LAMBDA acc, i : IF Why(i) = "ok" THEN acc ELSE Append(acc, [i |-> i, why |-> Why(i)]),
                << >>, [ i \in 1 .. Len(Grids) |-> i ])
VARIABLE vDone
Init == vDone = FALSE
Next == ~vDone /\ vDone' = TRUE /\ WriteJson(Out, Verdict)
Spec == Init /\ [][Next]_vDone
=============================================================================
