------------------------------- MODULE PreGen -------------------------------
(* Draws, for the i-th scenario, how it is varied and which solves follow.     *)
EXTENDS Session, FiniteSets
Seed == EnvInt("MV_SEED", 1)
N == EnvInt("MV_N", 20)
L == EnvInt("MV_L", 5)
Out == Env("MV_OUT", "pre.json")
One(seq, key) == seq[HashInt(Len(seq), key) + 1]

(* "" as drawn; "saveall": a savings rate of one, so that investments are linked to net income by equality; *)
(* "simulate": some variables pinned                                                                       *)
Variants == << "", "", "", "saveall", "simulate" >>
Kinds == << "specified", "random", "random" >>

Op(key, kind, variant) ==
    LET o == One(IF kind = "exe" THEN << "ok", "warning", "warning", "error", "crash" >> ELSE << "ok", "ok" >> \o Outcomes, << key, "o" >>)
    IN  [ outcome |-> o, loads |-> (kind = "exe" \/ HashInt(6, << key, "l" >>) # 0) /\ o # "crash" /\ ~(kind = "exe" /\ o = "error"),
          at |-> IF variant = "" THEN One(Kinds, << key, "at" >>) ELSE "random", point |-> HashInt(1000, << key, "p" >>) ]
Case(i) ==
    LET key == << Seed, "pre", i >>
        variant == One(Variants, << key, "v" >>)
        kind == IF HashInt(3, << key, "k" >>) = 0 THEN "exe" ELSE "stub"
    IN  [ variant |-> variant, kind |-> kind, pin |-> One(<< "relative_abatement", "investments", "temperature" >>, << key, "pin" >>),
          ops |-> [ k \in 1 .. L |-> IF k = 1 THEN [Op(<< key, k >>, kind, variant) EXCEPT !.outcome = "warning", !.loads = TRUE,
                                                                                             !.at = IF variant = "" THEN "specified" ELSE "random"]
                                    ELSE Op(<< key, k >>, kind, variant) ] ]
ASSUME WriteJson(Out, Force([ i \in 1 .. N |-> Case(i) ]))
=============================================================================
