------------------------------ MODULE WellTrace ------------------------------
(* Judges the structure of real models: exactly the variables of the combination of modules, for every      *)
(* period and region; as many equations as the specification has; a defining equation for every variable     *)
(* that is not free (witness: a matching of equations with variables, found by the harness, checked here);   *)
(* and so the documented degrees of freedom.  One objective with the right sense; no constraint without      *)
(* variables that is false.                                                                                  *)
EXTENDS Params, Assembly, SeqFolds, TLC

Cases == Force(ReadJson(Env("MV_CASES", "well.json")))
Dir == Env("MV_TRACES", ".")
Out == Env("MV_OUT", "well-verdict")
N == Len(Cases)

VARIABLES vI, vRead
tvars == << vI, vRead, vCombo, vAdded, vVars, vFree, vTwice >>

M(i, path) == Meaning(Cases[i], path)
KOf(i) == [ damage |-> M(i, "model - damage module"), trade |-> M(i, "model - emissiontrade module"),
            transfer |-> M(i, "model - financialtransfer module"), welfare |-> M(i, "model - welfare module"),
            objective |-> M(i, "model - objective module"), regime |-> M(i, "effort sharing - regime") ]

Per(K, nr, v) == IF IsGlobal(K, v) THEN 1 ELSE nr
SumOver(set, f(_)) == Fold(LAMBDA acc, x : acc + f(x), 0, AsSeq(set))
VarCount(K, T, nr) == T * SumOver(AllVars(K), LAMBDA v : Per(K, nr, v))
ZeroSumCount(K) == (IF K.trade \in {"emissiontrade", "globalcostpool"} THEN 1 ELSE 0) + (IF K.transfer = "globaldamagepool" THEN 1 ELSE 0)
StartCount(K, nr) == nr * (IF K.transfer = "globaldamagepool" THEN 2 ELSE 1)
LateStart(K) == SetOf(DefinedVars(K)) \cap FreeAtStart
(* independent equations: in the first period the zero sum of transfers follows from their start values   *)
Independent(K, T, nr) ==
    T * SumOver(SetOf(DefinedVars(K)), LAMBDA v : Per(K, nr, v)) + T * ZeroSumCount(K)
    + StartCount(K, nr) - SumOver(LateStart(K), LAMBDA v : Per(K, nr, v))
    - (IF K.transfer = "globaldamagepool" THEN 1 ELSE 0)

Problem(what, at, want, got) == << [ what |-> what, at |-> at, want |-> want, got |-> got ] >>
Unless(c, p) == IF c THEN << >> ELSE p

(* May variable v of period t be left without an equation? The free choices, and what the zero-sum          *)
(* relations and start values pin down in their place.                                                       *)
FreeHere(K, v, t) == v \in Controls(K) \/ v \in {"import_export_mitigation_cost_balance"} \/ (t = 0 /\ v \in FreeAtStart)

Judge(i, h) ==
    LET K == KOf(i)
        nr == Len(Cases[i].regions)
        T == NumPeriods(Cases[i])
        names == { h.vars[k].v : k \in 1 .. Len(h.vars) }
        count(v) == Cardinality({ k \in 1 .. Len(h.vars) : h.vars[k].v = v })
        wrong == { v \in AllVars(K) \cap names : count(v) # T * Per(K, nr, v) }
        pairs == { e \in 1 .. Len(h.eqs) : h.match[e] # 0 }
        matched == { h.match[e] : e \in pairs }
        badpair == { e \in pairs : ~\E k \in 1 .. Len(h.eqs[e].vars) : h.eqs[e].vars[k] = h.match[e] }
        coverE == SetOf(h.covereqs)
        coverV == SetOf(h.covervars)
        uncovered == { e \in 1 .. Len(h.eqs) : e \notin coverE /\ \E k \in 1 .. Len(h.eqs[e].vars) : h.eqs[e].vars[k] \notin coverV }
        sound == Cardinality(matched) = Cardinality(pairs) /\ badpair = {}
        largest == uncovered = {} /\ Cardinality(coverE) + Cardinality(coverV) = Cardinality(pairs)
        late == { e \in 1 .. Len(h.eqs) : h.match[e] = 0 /\ \E k \in 1 .. Len(h.eqs[e].vars) : h.vars[h.eqs[e].vars[k]].t # 0 }
        open == { k \in 1 .. Len(h.vars) : k \notin matched }
        undefined == { k \in open : ~FreeHere(K, h.vars[k].v, h.vars[k].t) }
    IN  IF h.error # "" THEN Problem("not built", "", "", h.error)
        ELSE Unless(names = AllVars(K), Problem("variables", "", AllVars(K) \ names, names \ AllVars(K)))
             \o Unless(wrong = {}, Problem("extent of a variable", wrong, "", ""))
             \o Unless(sound /\ largest, Problem("harness: the witness is not a largest matching", "", "", ""))
             \o Unless(Cardinality(pairs) = Independent(K, T, nr), Problem("independent equations", "", Independent(K, T, nr), Cardinality(pairs)))
             \o Unless(Len(h.vars) - Cardinality(pairs) = VarCount(K, T, nr) - Independent(K, T, nr),
                       Problem("degrees of freedom", "", VarCount(K, T, nr) - Independent(K, T, nr), Len(h.vars) - Cardinality(pairs)))
             \o Unless(late = {}, Problem("equations too many after the first period", { h.eqs[e].c : e \in late }, "", ""))
             \o Unless(undefined = {}, Problem("variables without a defining equation",
                                              { h.vars[k] : k \in undefined }, "", ""))
             \o Unless(Len(h.senses) = 1 /\ h.senses = << ObjectiveSense(K) >>, Problem("objective", "", << ObjectiveSense(K) >>, h.senses))
             \o Unless(h.false = << >>, Problem("constraint that is false whatever the state", h.false, "", ""))
             \o Unless(h.reduced = "", Problem("not built with preprocessing", "", "", h.reduced))

(* The specified assembly of the same combination, in one order, for comparison: Assembly covers all orders. *)
TInit == /\ vI \in 1 .. N /\ vRead = FALSE
         /\ vCombo = KOf(vI) /\ vAdded = {} /\ vVars = {} /\ vFree = {} /\ vTwice = {}
Order == << "emissions", "sealevel", "damage", "mitigation", "trade", "transfer", "effort", "economy", "welfare", "objective" >>
TAdd == /\ Cardinality(vAdded) < Len(Order)
        /\ Add(Order[Cardinality(vAdded) + 1])
        /\ UNCHANGED << vI, vRead >>
TRead == /\ Done /\ ~vRead /\ vRead' = TRUE
         /\ LET p == Judge(vI, ReadJson(Dir \o "/well-" \o ToString(vI) \o ".json"))
            IN  p # << >> => WriteJson(Out \o "-" \o ToString(vI) \o ".json", p)
         /\ UNCHANGED << vI, vCombo, vAdded, vVars, vFree, vTwice >>
TSpec == TInit /\ [][TAdd \/ TRead]_tvars
=============================================================================
