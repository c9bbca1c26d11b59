------------------------------- MODULE SimTrace -------------------------------
(* Judges what real models made of the settings of simulation mode.  A record:    *)
(*  [built, years, held: v -> region -> sequence of [lo, hi] (in every period),     *)
(*   inactive: names, partly: names switched off for some indices only,              *)
(*   changed: other constraints, bounds or parameters that differ from the same        *)
(*   model without simulation mode, custom: p -> values found].                        *)
EXTENDS SimMode
Batch == Force(ReadJson(Env("MV_CASES", "sim.json")))
Trace == Force(ReadJson(Env("MV_TRACE", "trace.json")))
Out == Env("MV_OUT", "verdict")

Problem(i, what, v, r, year, want, got) ==
    << [i |-> i, what |-> what, v |-> v, r |-> r, year |-> year, want |-> want, got |-> got] >>

(* numerical slack: extrapolated ends of splines magnify rounding *)
Slack(k, x) == LET size == MaxOf([ j \in 1 .. Len(k.y) |-> Abs(k.y[j]) ]) IN R("1e-7") * (1 + Max2(size, Abs(x)))
HeldRight(k, year, h) ==
    LET x == At(k, year)
        e == Slack(k, x)
    IN  /\ h.lo <= x + e /\ h.hi >= x - e
        /\ h.lo >= x - Tolerance - e /\ h.hi <= x + Tolerance + e

Judge(i) ==
    LET s == Batch[i]
        g == Trace[i]
        ys == Force(Years(s.grid.start, s.grid.end, s.grid.dtm))
        held == DOMAIN g.held
        extra == held \ Pinned(s)
        free == Pinned(s) \ held
        wrongOff == (Elements(g.inactive) \ Off(s)) \union (Off(s) \ Elements(g.inactive))
    IN  IF ~g.built THEN Problem(i, "not built", "", "", 0, "", "")
        ELSE IF Len(g.years) # Len(ys) THEN Problem(i, "years", "", "", 0, "", "")
        ELSE (IF extra = {} THEN << >> ELSE Problem(i, "held without being listed", CHOOSE v \in extra : TRUE, "", 0, "", ""))
          \o (IF free = {} THEN << >> ELSE Problem(i, "not held", CHOOSE v \in free : TRUE, "", 0, "", ""))
          \o (IF wrongOff = {} THEN << >>
              ELSE LET n == CHOOSE n \in wrongOff : TRUE
                   IN  Problem(i, IF n \in Off(s) THEN "not switched off" ELSE "switched off", n, "", 0, "", ""))
          \o (IF g.partly = << >> THEN << >> ELSE Problem(i, "switched off in part", g.partly[1], "", 0, "", ""))
          \o (IF g.changed = << >> THEN << >> ELSE Problem(i, "changed", g.changed[1], "", 0, "", ""))
          \o Fold(LAMBDA acc, v :
                LET p == PinOf(s, v)
                    rs == IF p.regional THEN s.regions ELSE << "Global" >>
                IN  acc \o Fold(LAMBDA a2, r :
                      LET k == Force(SimCurve(p.years, p.data[r]))
                          have == v \in held /\ r \in DOMAIN g.held[v]
                          wrong == IF have THEN { j \in 1 .. Len(ys) : ~HeldRight(k, ys[j], g.held[v][r][j]) } ELSE {}
                      IN  a2 \o (CASE ~have /\ v \in held -> Problem(i, "region not held", v, r, 0, "", "")
                                   [] wrong # {} -> LET j == CHOOSE x \in wrong : \A y \in wrong : x <= y
                                                    IN  Problem(i, "held", v, r, ys[j], At(k, ys[j]), g.held[v][r][j])
                                   [] OTHER -> << >>),
                      << >>, rs),
                << >>, IF s.mode THEN [ j \in 1 .. Len(s.pins) |-> s.pins[j].v ] ELSE << >>)
          \o Fold(LAMBDA acc, x :
                LET bad == { j \in 1 .. Len(g.custom[x.p]) : Abs(g.custom[x.p][j] - x.x) > R("1e-12") }
                IN  acc \o (IF bad = {} THEN << >> ELSE Problem(i, "custom value", x.p, "", 0, x.x, g.custom[x.p])),
                << >>, s.custom)

VARIABLES vI, vBad
Init == vI \in 1 .. Len(Trace) /\ vBad = << >>
Next == /\ vBad = << >>
        /\ LET v == Judge(vI) IN
             /\ vBad' = << v >>
             /\ v # << >> => WriteJson(Out \o "-" \o ToString(vI) \o ".json", v)
        /\ UNCHANGED vI
Spec == Init /\ [][Next]_<<vI, vBad>>
=============================================================================
