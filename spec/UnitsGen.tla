------------------------------ MODULE UnitsGen ------------------------------
(* Draws quantities and writes them down; UnitsTrace judges what the code made *)
(* of them.  Checked here: conversions compose and are inverse to each other.  *)
EXTENDS Units
Seed == EnvInt("MV_SEED", 1)
N == EnvInt("MV_N", 50)
Out == Env("MV_OUT", "units.json")

VARIABLES vI, vDone
Batch == Force([ i \in 1 .. N * Len(Targets) |->
    DrawQuantity(Targets[((i - 1) % Len(Targets)) + 1].text, HashInt(4, << Seed, i, "ok" >>) # 0, << Seed, "q", i >>) ])

Init == vI \in 1 .. Len(Batch) /\ vDone = FALSE
Next == /\ ~vDone /\ vDone' = TRUE /\ UNCHANGED vI
        /\ vI = 1 => WriteJson(Out, [ i \in 1 .. Len(Batch) |->
                       [want |-> IF Batch[i].ok THEN Meaning4(Batch[i]) ELSE 0] @@ Batch[i] ])
Spec == Init /\ [][Next]_<<vI, vDone>>

q == Batch[vI]
RoundTrip == q.ok => LET e == TargetNamed(q.target)
                     IN Near(Convert(Convert(q.number, q.expr, e), e, q.expr), q.number, R("1e-9"))
Composes == q.ok => \A i \in 1 .. Len(Batch) :
               LET p == Batch[i]
               IN (p.ok /\ p.target = q.target) =>
                     Near(Convert(Convert(q.number, q.expr, p.expr), p.expr, TargetNamed(q.target)), Meaning4(q), R("1e-9"))
SomeOfBoth == (\E i \in 1 .. Len(Batch) : Batch[i].ok) /\ (\E i \in 1 .. Len(Batch) : ~Batch[i].ok)
=============================================================================
