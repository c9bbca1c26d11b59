----------------------------- MODULE ConfigTrace -----------------------------
(* Judges what the code made of settings.  A record of the trace:              *)
(*  [user, accepted, tree (path -> value), extra (options unknown here),        *)
(*   unchanged (the caller's settings are as before), again (parsing the         *)
(*   parsed configuration gives the same), apart (editing the caller's settings     *)
(*  afterwards does not reach the parsed ones)]                                      *)
EXTENDS Config
Trace == Force(ReadJson(Env("MV_TRACE", "trace.json")))
Out == Env("MV_OUT", "verdict.json")

Problem(i, kind, path, want, got) == << [i |-> i, kind |-> kind, path |-> path, want |-> want, got |-> got] >>

Judge(i) ==
    LET g == Trace[i]
        m == Force(Meaning0(g.user))
    IN  (IF g.unchanged THEN << >> ELSE Problem(i, "input modified", "", "", ""))
        \o CASE m.st = "bad" -> IF g.accepted THEN Problem(i, "accepted", "", "", "") ELSE << >>
             [] m.st = "any" -> << >>
             [] OTHER ->
                IF ~g.accepted THEN Problem(i, "rejected", "", "", "")
                ELSE (IF g.extra = << >> THEN << >> ELSE Problem(i, "extra", g.extra[1], "", ""))
                     \o (IF g.apart THEN << >> ELSE Problem(i, "linked", "", "", ""))
                     \o (IF g.again THEN << >> ELSE Problem(i, "not stable", "", "", ""))
                     \o Fold(LAMBDA acc, j :
                            LET p == Options[j].path
                            IN  IF p \in DOMAIN g.tree /\ SameVal(m.tree[p], g.tree[p]) THEN acc
                                ELSE acc \o Problem(i, "value", p, m.tree[p],
                                                    IF p \in DOMAIN g.tree THEN g.tree[p] ELSE [k |-> "missing"]),
                            << >>, [ j \in 1 .. Len(Options) |-> j ])

VARIABLES vI, vBad
Init == vI \in 1 .. Len(Trace) /\ vBad = << >>
Next == /\ vBad = << >>
        /\ LET v == Judge(vI) IN
             /\ vBad' = << v >>
             /\ v # << >> => WriteJson(Out \o "-" \o ToString(vI) \o ".json", v)
        /\ UNCHANGED vI
Spec == Init /\ [][Next]_<<vI, vBad>>
=============================================================================
