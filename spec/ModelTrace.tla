----------------------------- MODULE ModelTrace -----------------------------
(***************************************************************************)
(* Trace validation: steps (state of the previous period, state) recorded    *)
(* from the real model, confronted with the specification.  The verdict is   *)
(* total: it names every defining equation, zero-sum relation and start      *)
(* value that a step breaks, and lists the slack of every limit, so that the *)
(* harness can tell which property is concerned.                             *)
(***************************************************************************)
EXTENDS Params, Limits, SeqFolds, TLC

Batch == Force(ReadJson(Env("MV_IN", "batch.json")))
Tables == Force(ReadJson(Env("MV_TABLES", "tables.json")))
TraceDir == Env("MV_TRACES", ".")

Ks == Force([ i \in 1 .. Len(Batch) |-> Complete(Batch[i].sc, Tables, Batch[i].X) ])

VARIABLES vRun, vDone

FileName(kind, i) == TraceDir \o "/" \o kind \o "-" \o ToString(i) \o ".json"


Miss(v, r, want, got) == << [ v |-> v, r |-> r, want |-> want, got |-> got ] >>

Tolerance(v, want, got, step) ==
    R("1e-7") * (Abs(want) + Abs(got) + Scale(v))

Same(v, want, got, step) ==
    IsFin(want) /\ IsFin(got) /\ Abs(want - got) <= Tolerance(v, want, got, step)

(* Equations broken by a step *)
Broken(K, regs, t, p, s) ==
    LET defs == DefinedVars(K)
        one(v) ==
            IF ~Defined(v, t) THEN << >>
            ELSE IF IsGlobal(K, v)
            THEN LET want == Def(v, K, t, p, s, "")
                 IN  IF Same(v, want, s[v], t) THEN << >> ELSE Miss(v, "", want, s[v])
            ELSE Fold(LAMBDA acc, r :
                        LET want == Def(v, K, t, p, s, r)
                        IN  IF Same(v, want, s[v][r], t) THEN acc
                            ELSE acc \o Miss(v, r, want, s[v][r]), << >>, regs)
        zero == Fold(LAMBDA acc, z : IF Abs(z.val) <= R("1e-7") THEN acc
                                     ELSE acc \o Miss(z.name, "", 0, z.val),
                     << >>, ZeroSums(K, t, s))
        start == IF t > 0 THEN << >>
                 ELSE Fold(LAMBDA acc, z :
                             acc \o Fold(LAMBDA a2, r :
                                           IF Same(z.var, z.val, s[z.var][r], t) THEN a2
                                           ELSE a2 \o Miss("start_" \o z.var, r, z.val, s[z.var][r]),
                                         << >>, regs),
                           << >>, StartValues(K))
    IN  Fold(LAMBDA acc, v : acc \o one(v), << >>, defs) \o zero \o start

Slacks(K, regs, t, p, s) ==
    GlobalLimits(K, t, p, s)
    \o Fold(LAMBDA acc, r : acc \o RegionLimits(K, t, p, s, r), << >>, regs)

(* The derived data that the model reports next to its variables *)
CumBaselineOf(K, t, r) ==
    (K.dt * Sum([ i \in 1 .. t |-> Emi(K, i - 1, r) + Emi(K, i, r) ])) / 2

DerivedValue(K, name, t, r) ==
    CASE name = "TFP" -> K.tfp[t + 1][r]
      [] name = "cumulative_baseline_emissions" -> CumBaselineOf(K, t, r)
      [] name = "cumulative_global_baseline_emissions" -> K.cumbase[t + 1]
      [] name = "baseline_carbon_intensity" -> Intensity(K, t, r)
      [] name = "percapconv_share_init" -> ShareInit(K, r)
      [] name = "percapconv_share_pop" -> SharePop(K, t, r)
      [] name = "percapconv_share" -> K.share[t + 1][r]

WrongDerived(i) ==
    LET K == Ks[i]
        seen == Batch[i].P
        bad(name, e) ==
            LET want == DerivedValue(K, name, e.t, e.r)
            IN  IF IsFin(want) /\ IsFin(e.val) /\ Abs(want - e.val) <= R("1e-9") * (Abs(want) + Abs(e.val))
                THEN << >> ELSE << [ v |-> name, r |-> e.r, t |-> e.t, want |-> want, got |-> e.val ] >>
    IN  Fold(LAMBDA acc, x : acc \o Fold(LAMBDA a2, e : a2 \o bad(x.name, e), << >>, x.entries), << >>, seen)

Verdict(i, trace) ==
    LET K == Ks[i]
        regs == Batch[i].sc.regions
    IN  [ j \in 1 .. Len(trace) |->
            LET x == trace[j]
            IN  [ t |-> x.t,
                  broken |-> IF "equations" \in DOMAIN x /\ ~x.equations THEN << >>
                             ELSE Broken(K, regs, x.t, x.prev, x.state),
                  slacks |-> Slacks(K, regs, x.t, x.prev, x.state) ] ]

Init == vRun \in 1 .. Len(Batch) /\ vDone = FALSE
Next == /\ ~vDone
        /\ LET trace == Force(ReadJson(FileName("trace", vRun)))
           IN  /\ WriteJson(FileName("verdict", vRun), Verdict(vRun, trace))
               /\ WriteJson(FileName("derived", vRun), WrongDerived(vRun))
        /\ vDone' = TRUE
        /\ UNCHANGED vRun
Spec == Init /\ [][Next]_<<vRun, vDone>>
=============================================================================
