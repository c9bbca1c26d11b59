------------------------------- MODULE RegTrace -------------------------------
(* Judges the regional values of real models.  A record: [built,                 *)
(*  values: sequence of [how, cat, name, r, kind ("num", "text", "none"), v]].     *)
EXTENDS Regional, SeqFolds, TLC
Cases == Force(ReadJson(Env("MV_CASES", "reg.json")))
Shipped == Force(ReadJson(Env("MV_IN", "tables.json")))
Trace == Force(ReadJson(Env("MV_TRACE", "trace.json")))
Out == Env("MV_OUT", "verdict")

Want(c, g) == RegionalValue(IF c.tables = << >> THEN Shipped ELSE c.tables[1], c.overrides, g.cat, g.name, g.r, c.type)
Right(w, g) ==
    CASE g.kind = "none" -> IsText(w) /\ w = ""
      [] g.kind = "text" -> IsText(w) /\ w = g.v
      [] OTHER -> ~IsText(w) /\ Abs(w - g.v) <= R("1e-9") * (1 + Abs(w))

Judge(i) ==
    LET c == Cases[i]
        g == Trace[i]
    IN  IF ~g.built THEN << [i |-> i, what |-> "not built", got |-> "", want |-> "", at |-> "" ] >>
        ELSE Fold(LAMBDA acc, v :
                    LET w == Want(c, v)
                    IN  IF Right(w, v) THEN acc
                        ELSE Append(acc, [i |-> i, what |-> v.how, at |-> v.cat \o "." \o v.name \o " of " \o v.r,
                                          want |-> w, got |-> IF v.kind = "none" THEN "no value" ELSE v.v]),
                  << >>, g.values)

VARIABLES vI, vBad
Init == vI \in 1 .. Len(Trace) /\ vBad = << >>
Next == /\ vBad = << >>
        /\ LET v == Judge(vI) IN
             /\ vBad' = << v >>
             /\ v # << >> => WriteJson(Out \o "-" \o ToString(vI) \o ".json", v)
        /\ UNCHANGED vI
Spec == Init /\ [][Next]_<<vI, vBad>>
=============================================================================
