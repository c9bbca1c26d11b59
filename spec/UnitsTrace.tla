----------------------------- MODULE UnitsTrace -----------------------------
(* Judges results recorded from the code: for every quantity of the batch a    *)
(* sequence of [how, ok, value], the ways in which it was converted.           *)
EXTENDS Units
Batch == Force(ReadJson(Env("MV_IN", "units.json")))
Got == Force(ReadJson(Env("MV_TRACE", "trace.json")))
Out == Env("MV_OUT", "verdict.json")

Right(q, g) == IF q.ok THEN g.ok /\ Near(g.value, Meaning4(q) * g.times, R("1e-12")) ELSE ~g.ok

Verdict == Fold(LAMBDA acc, i :
    acc \o Fold(LAMBDA a2, g :
        IF Right(Batch[i], g) THEN a2
        ELSE Append(a2, [text |-> Batch[i].text, target |-> Batch[i].target, how |-> g.how, ok |-> Batch[i].ok,
                         got |-> g, want |-> IF Batch[i].ok THEN Meaning4(Batch[i]) ELSE 0]),
        << >>, Got[i]), << >>, [ i \in 1 .. Len(Batch) |-> i ])
VARIABLE vDone
Init == vDone = FALSE
Next == ~vDone /\ vDone' = TRUE /\ WriteJson(Out, Verdict)
Spec == Init /\ [][Next]_vDone
=============================================================================
