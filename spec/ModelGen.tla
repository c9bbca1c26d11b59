------------------------------ MODULE ModelGen ------------------------------
(***************************************************************************)
(* The state machine of a model run.  For every configuration of a batch,    *)
(* one behaviour: the free choices (abatement, payments, transfers, common   *)
(* effort level) are drawn pseudo-randomly, everything else follows from the *)
(* defining equations of module Mimosa, solved as a fixed point because      *)
(* they are simultaneous.  The behaviours are written to files, for the      *)
(* harness to confront the real model with.                                  *)
(*                                                                          *)
(* The invariants are the consequences users rely on; they are checked here  *)
(* on the specification itself.                                              *)
(***************************************************************************)
EXTENDS Params, SeqFolds, TLC

Batch == Force(ReadJson(Env("MV_IN", "batch.json")))
Tables == Force(ReadJson(Env("MV_TABLES", "tables.json")))
OutDir == Env("MV_OUT", ".")
Seed == EnvInt("MV_SEED", 1)

Ks == Force([ i \in 1 .. Len(Batch) |-> Complete(Batch[i].sc, Tables, Batch[i].X) ])

VARIABLES vRun,    \* which configuration
          vT,      \* period
          vS,      \* state of the period
          vP,      \* state of the previous period
          vPast,   \* states of all periods so far
          vWell    \* FALSE: the state is none that can be reasoned about, and the run was given up
\* (no bound identifier anywhere may have these names: TLC would take
\* expressions with it for non-constant)

vars == << vRun, vT, vS, vP, vPast, vWell >>

K == Ks[vRun]
Last(k) == Len(k.pop) - 1

----------------------------------------------------------------------------
(* The free choices *)


Rnd(i, u, name, r) == Hash01(<< Seed, "control", Batch[i].sc.id, u, name, r >>)

Centred(k, f) == LET mean == Sum(f) / Cardinality(k.regions)
                 IN [ r \in k.regions |-> f[r] - mean ]

(* Ways to abate: gradually; not at all; with net removal in the long run; each *)
(* region its own way; early, and less later on                               *)
Style(i, r) == LET h == HashInt(10, << Seed, "style", Batch[i].sc.id >>)
                   own == HashInt(10, << Seed, "style", Batch[i].sc.id, r >>)
               IN  IF h >= 8 THEN own ELSE h

Abatement(i, k, u, r) ==
    LET years == u * k.dt
        ramp == Min2(1, R("0.1") + years / 80)
        x == Rnd(i, u, "relative_abatement", r)
        h == Style(i, r)
    IN  CASE u = 0 -> ToReal(0)
          [] h = 0 -> ToReal(0)
          [] h \in {1, 2} -> ramp * (R("0.95") + R("0.4") * x)
          [] h \in {3, 4} -> IF years < 45 THEN R("0.3") + R("0.6") * x ELSE R("0.5") * x
          [] OTHER -> ramp * (R("0.05") + R("1.1") * x)

(* `mild` weakens the choices *)
Choices(i, k, u, mild) ==
    LET amplitude == (mild * R("0.02")) * MinOf(k.gdp[u + 1])
    IN  [ v \in Controls(k) \ {"mitigation_costs"} |->
          CASE v = "relative_abatement" ->
                 [ r \in k.regions |-> mild * Abatement(i, k, u, r) ]
            [] v = "effort_sharing_common_level" -> R("0.1") * Rnd(i, u, v, "")
            [] v = "import_export_mitigation_cost_balance" ->
                 IF u = 0 THEN [ r \in k.regions |-> ToReal(0) ]
                 ELSE Centred(k, [ r \in k.regions |-> amplitude * Rnd(i, u, v, r) ])
            [] v = "financial_transfer" ->
                 IF u = 0 THEN [ r \in k.regions |-> ToReal(0) ]
                 ELSE Centred(k, [ r \in k.regions |-> amplitude * Rnd(i, u, v, r) ]) ]

(* With a global cost pool the regions share the total costs arbitrarily *)
PoolShare(i, k, u, r) ==
    LET w == [ q \in k.regions |-> R("0.2") + Rnd(i, u, "pool", q) ] IN w[r] / Sum(w)

----------------------------------------------------------------------------
(* Fixed point of the simultaneous equations *)

Order(k) ==
    IF k.trade = "globalcostpool"
    THEN Fold(LAMBDA acc, v : acc \o (IF v = "area_under_MAC" THEN << v, "mitigation_costs" >>
                                           ELSE << v >>), << >>, DefinedVars(k))
    ELSE DefinedVars(k)
Orders == Force([ i \in 1 .. Len(Batch) |-> Order(Ks[i]) ])

Value(i, k, u, q, x, v) ==
    IF ~Defined(v, u) THEN x[v]
    ELSE IF v = "mitigation_costs" /\ k.trade = "globalcostpool"
    THEN LET total == Sum(x.area_under_MAC) IN [ r \in k.regions |-> PoolShare(i, k, u, r) * total ]
    ELSE IF IsGlobal(k, v) THEN ToReal(Def(v, k, u, q, x, ""))
    ELSE IF v = "capital_stock" /\ u > 0
    THEN [ r \in k.regions |-> (x[v][r] + Def(v, k, u, q, x, r)) / 2 ]
    ELSE [ r \in k.regions |-> ToReal(Def(v, k, u, q, x, r)) ]

Sweep(i, k, u, q, x) ==
    Fold(LAMBDA y, v : Force([y EXCEPT ![v] = Value(i, k, u, q, y, v)]), x, Orders[i])

Distance(k, x, y) ==
    MaxOf([ v \in DOMAIN x |->
              IF IsGlobal(k, v) THEN Abs(x[v] - y[v]) / (Abs(y[v]) + Scale(v))
              ELSE MaxOf([ r \in k.regions |-> Abs(x[v][r] - y[v][r]) / (Abs(y[v][r]) + Scale(v)) ]) ])

MaxSweeps == 400
Epsilon == R("1e-13")

Solve(i, k, u, q, x0) ==
    Fold(LAMBDA acc, n :
               IF acc.done THEN acc
               ELSE LET y == Force(Sweep(i, k, u, q, acc.x))
                    IN  [ x |-> y, done |-> Force(Distance(k, acc.x, y) < Epsilon) ],
             [ x |-> x0, done |-> FALSE ], [ n \in 1 .. MaxSweeps |-> n ])

(* Extreme choices may leave no economy, or one that consumes less than      *)
(* nothing (where the smoothed minimum is all rounding); then milder ones    *)
(* are made                                                                  *)
Alive(k, u, x) ==
    /\ \A r \in k.regions : x.consumption[r] > 0
    /\ (k.cumbase[u + 1] - x.cumulative_emissions) / k.lbdscale > -1

Mildness == << 1, R("0.5"), R("0.2"), 0 >>
Solvable(i, k, u, q, x0(_)) ==
    Fold(LAMBDA acc, mild :
               IF acc.done THEN acc
               ELSE LET c == Force(Choices(i, k, u, mild))
                        s == Force(Solve(i, k, u, q, x0(c)))
                    IN  IF s.done /\ Alive(k, u, s.x) THEN s ELSE [ x |-> s.x, done |-> FALSE ],
         [ x |-> << >>, done |-> FALSE ], Mildness)

Guess(k, v) ==
    CASE v \in {"GDP_gross", "GDP_net", "consumption"} -> [ r \in k.regions |-> Gdp(k, 0, r) ]
      [] v = "capital_stock" -> [ r \in k.regions |-> k.capfactor[r] * Gdp(k, 0, r) ]
      [] v = "baseline" -> [ r \in k.regions |-> Emi(k, 0, r) ]
      [] IsGlobal(k, v) -> ToReal(0)
      [] OTHER -> [ r \in k.regions |-> ToReal(0) ]

FirstState(i, k) ==
    Solvable(i, k, 0, << >>,
             LAMBDA c : [ v \in AllVars(k) |-> IF v \in DOMAIN c THEN c[v] ELSE Guess(k, v) ])

NextState(i, k, u, q) ==
    Solvable(i, k, u, q, LAMBDA c : [ v \in AllVars(k) |-> IF v \in DOMAIN c THEN c[v] ELSE q[v] ])

----------------------------------------------------------------------------
First(i) == FirstState(i, Ks[i])

Init == /\ vRun \in 1 .. Len(Batch)
        /\ vT = 0
        /\ vP = << >>
        /\ \E n \in { Force(First(vRun)) } : vS = n.x /\ vWell = n.done
        /\ vPast = << vS >>

Step == /\ vT < Last(K) /\ vWell
        /\ vT' = vT + 1
        /\ vP' = vS
        /\ \E n \in { Force(NextState(vRun, K, vT', vS)) } : vS' = n.x /\ vWell' = n.done
        /\ vPast' = Append(vPast, vS')
        /\ (vT' = Last(K) /\ vWell') =>
              WriteJson(OutDir \o "/behaviour-" \o ToString(vRun) \o ".json",
                        [ id |-> Batch[vRun].sc.id, states |-> vPast' ])
        /\ UNCHANGED vRun

Done == (vT = Last(K) \/ ~vWell) /\ UNCHANGED vars

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Sanity of the construction: the state solves the equations *)

Eq(a, b, v) == Near(a, b, Scale(v))

Solved ==
    vWell => \A v \in { Orders[vRun][j] : j \in 1 .. Len(Orders[vRun]) } :
       \/ ~Defined(v, vT)
       \/ v = "mitigation_costs" /\ K.trade = "globalcostpool"
       \/ IsGlobal(K, v) /\ Eq(vS[v], Def(v, K, vT, vP, vS, ""), v)
       \/ ~IsGlobal(K, v) /\ \A r \in K.regions : Eq(vS[v][r], Def(v, K, vT, vP, vS, r), v)

Balanced == vWell => \A z \in Elements(ZeroSums(K, vT, vS)) : Near(z.val, 0, R("0.001"))

(* Consequences *)

GdpIdentity ==
    vWell =>
    \A r \in K.regions :
       /\ Near(vS.consumption[r] + vS.investments[r], vS.GDP_net[r], 1)
       /\ vT = 0 => Near(vS.GDP_gross[r], Gdp(K, 0, r), 1)

WarmingProportional == vWell => Near(vS.temperature - K.T0, K.TCRE * vS.cumulative_emissions, 1)

EmissionsAddUp ==
    vWell =>
    /\ Near(Tot(vS, "regional_emissions"), vS.global_emissions, 1)
    /\ Near(Tot(vS, "baseline") - Tot(vS, "regional_emission_reduction"), vS.global_emissions, 1)

NoDamageAtStart == vWell /\ vT = 0 => \A r \in K.regions : Near(vS.damage_costs[r], 0, 1)

SeaLevelRises ==
    vWell /\ vT > 0 =>
             /\ vS.slr_cumgsic >= vP.slr_cumgsic
             /\ vS.slr_cumgis >= vP.slr_cumgis
             /\ vS.total_SLR > 0

TradeConserves ==
    vWell /\ vT > 0 /\ K.trade = "emissiontrade" =>
        /\ Near(Tot(vS, "mitigation_costs"), Tot(vS, "area_under_MAC"), 1)
        /\ Near(Tot(vS, "paid_for_emission_reductions"), Tot(vS, "regional_emission_reduction"), 1)
        /\ Near(Tot(vS, "regional_emission_allowances"), vS.global_emissions, 1)

CostPoolConserves ==
    vWell /\ vT > 0 /\ K.trade = "globalcostpool" =>
        /\ Near(Tot(vS, "mitigation_costs"), Tot(vS, "area_under_MAC"), 1)
        /\ Near(Tot(vS, "import_export_mitigation_cost_balance"), 0, 1)

SharesAddUp == Near(Sum(K.share[vT + 1]), 1, 1)

LearningNeverRaisesCosts == K.lot >= 0 => vS.LOT_factor <= 1

(* Doing nothing reproduces the calibration path: without damages, abatement *)
(* and payments GDP is the baseline GDP (module Calibration).                *)
=============================================================================
