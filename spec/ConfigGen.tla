------------------------------ MODULE ConfigGen ------------------------------
(* Writes the settings for the harness, and checks on the specification what   *)
(* follows from it: the meaning of the empty configuration is the defaults,     *)
(* settings do not touch other options, meanings are stable.                   *)
EXTENDS ConfigCases
Seed == EnvInt("MV_SEED", 1)
Kind == Env("MV_KIND", "C02")
N == EnvInt("MV_N", 200)
Out == Env("MV_OUT", "cases.json")

TheCases == Force(Cases(Kind, Seed, N))
Route(i) == << "dict", "yaml", "edit" >>[HashInt(3, << Seed, "route", i >>) + 1]

VARIABLES vI, vDone
Init == vI \in 1 .. Len(TheCases) /\ vDone = FALSE
Next == /\ ~vDone /\ vDone' = TRUE /\ UNCHANGED vI
        /\ vI = 1 => WriteJson(Out, [ paths |-> [ j \in 1 .. Len(Options) |-> Options[j].path ],
                                      cases |-> [ j \in 1 .. Len(TheCases) |->
                                                   [user |-> TheCases[j], route |-> Route(j),
                                                    st |-> Meaning0(TheCases[j]).st] ] ])
Spec == Init /\ [][Next]_<<vI, vDone>>

M == Meaning0(TheCases[vI])
Basic == Force(Meaning0(<< >>))

(* every default is itself acceptable *)
DefaultsAcceptable == vI = 1 => \A p \in Paths : DefaultOf(OptionOf(p)).st = "ok"
(* every option has values of both kinds among the candidates *)
BothKinds == vI = 1 => \A i \in 1 .. Len(Options) :
    /\ \E j \in 1 .. Len(AllCands[i]) : Parse(Options[i], AllCands[i][j]).st = "ok"
    /\ \E j \in 1 .. Len(AllCands[i]) : Parse(Options[i], AllCands[i][j]).st = "bad"
(* without references the other options keep their default *)
NoLeak == M.st = "ok" /\ Kind # "C03" =>
            \A p \in Paths : \/ \E j \in 1 .. Len(TheCases[vI]) : TheCases[vI][j].path \in {p, "SSP"}
                             \/ SameVal(M.tree[p], Basic.tree[p])
(* what is parsed is acceptable again, and means the same *)
Stable == M.st = "ok" => \A p \in Paths :
            LET x == M.tree[p]
                y == IF OptionOf(p).type = "quantity" THEN Ok(x) ELSE Parse(OptionOf(p), x)
            IN  y.st = "ok" /\ SameVal(y.v, x)
=============================================================================
