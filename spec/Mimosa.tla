------------------------------- MODULE Mimosa -------------------------------
(***************************************************************************)
(* The dynamics of MIMOSA: one state per model period.                      *)
(*                                                                          *)
(* A state s maps the name of every reported variable to its value in the   *)
(* period: a real for a global variable, a function from regions to reals   *)
(* for a regional one.  K holds what is constant in a run (the configured   *)
(* options in default units, module Params; the regional coefficients,      *)
(* module Regional; the exogenous paths, module Exo).  t is the index of    *)
(* the period, p the state of the previous period (meaningless if t = 0).   *)
(*                                                                          *)
(* Defining equations: Def(v, ...) is what the equations say variable v has *)
(* to be, given the rest of the state.  A state is a legal successor of p   *)
(* iff every variable equals its definition and the zero-sum relations hold.*)
(* Some equations are implicit (a variable occurs in its own definition,    *)
(* through others): module ModelGen computes a successor as a fixed point,  *)
(* ModelTrace only evaluates the equations on recorded states.              *)
(***************************************************************************)
EXTENDS Real, Sequences, FiniteSets

Half == 1 / 2

----------------------------------------------------------------------------
(* Smoothed minimum and maximum: x for x >> 0, about 0 for x << 0           *)

SoftSwitch(x, a) == Atan(a * x) / Pi + Half
SoftMinS(x, scale) == LET a == 25 / scale IN SoftSwitch(x, a) * x + 1 / (a * Pi)
SoftMin(x) == SoftMinS(x, 1)
SoftMaxS(x, top, scale) == top - SoftMinS(top - x, scale)

----------------------------------------------------------------------------
(* Time *)

Year(K, t) == K.start + t * K.dt

----------------------------------------------------------------------------
(* Exogenous paths of period t: K.pop[t+1][r], K.gdp[t+1][r], K.emi[t+1][r] *)

Pop(K, t, r) == K.pop[t + 1][r]
Gdp(K, t, r) == K.gdp[t + 1][r]
Emi(K, t, r) == K.emi[t + 1][r]

WorldPop(K, t) == Sum(K.pop[t + 1])
Emi0(K) == Sum(K.emi[1])

(* Cumulative baseline emissions: trapezoidal rule over the periods up to t *)
CumBaseline(K, t) ==
    (K.dt * Sum([ i \in 1 .. t |-> Sum(K.emi[i]) + Sum(K.emi[i + 1]) ])) / 2

(* Baseline carbon intensity *)
Intensity(K, t, r) == Emi(K, t, r) / Gdp(K, t, r)

(* Capital stock that the baseline GDP path accumulates, used to calibrate TFP *)
CapitalGrowth(K, k, inv) == ((1 - K.dk) ^ K.dt - 1) * k + K.dt * inv

BaselineCapital(K, t, r) ==
    LET k[u \in 0 .. t] ==
            IF u = 0 THEN K.capfactor[r] * Gdp(K, 0, r)
            ELSE LET before == k[u - 1]
                 IN  before + CapitalGrowth(K, before, K.sr * Gdp(K, u - 1, r))
    IN  k[t]

Production(K, tfp, l, k) == tfp * l ^ (1 - K.alpha) * k ^ K.alpha

CalibratedTFP(K, t, r) ==
    Gdp(K, t, r) / Production(K, 1, Pop(K, t, r), BaselineCapital(K, t, r))

(* Share of the global emission rights under per-capita convergence *)
ShareInit(K, r) == Emi(K, 0, r) / Emi0(K)
SharePop(K, t, r) == Pop(K, t, r) / WorldPop(K, t)
AllowanceShare(K, t, r) ==
    IF ~K.hasconvyear THEN ShareInit(K, r)
    ELSE IF K.convyear <= K.start THEN SharePop(K, t, r)
    ELSE LET x == (Year(K, t) - K.start) / (K.convyear - K.start)
         IN  Min2(x, 1) * SharePop(K, t, r) + Max2(1 - x, 0) * ShareInit(K, r)

(* The derived constants, computed once per run and added to K *)
Periods(K) == 0 .. (Len(K.pop) - 1)
Derive(K) ==
    [ cumbase |-> [ i \in 1 .. Len(K.pop) |-> CumBaseline(K, i - 1) ],
      tfp     |-> [ i \in 1 .. Len(K.pop) |->
                      [ r \in K.regions |-> CalibratedTFP(K, i - 1, r) ] ],
      share   |-> [ i \in 1 .. Len(K.pop) |->
                      [ r \in K.regions |-> AllowanceShare(K, i - 1, r) ] ] ]

----------------------------------------------------------------------------
(* Damage functions (fraction of GDP)                                       *)

Logistic(x, b1, b2, b3) ==
    b1 / (1 + b2 * Exp(SoftMaxS(-(b3 * x), 10, R("0.1")))) - b1 / (1 + b2)

DamageForm(f, x) ==
    CASE f.form = "linear"    -> (f.a * f.b1 * x) / 100
      [] f.form = "quadratic" -> (f.a * (f.b1 * x + f.b2 * x * x)) / 100
      [] f.form = "logistic"  -> (f.a * Logistic(x, f.b1, f.b2, f.b3)) / 100

Damage(K, f, x, x0) == K.dmgscale * (DamageForm(f, x) - DamageForm(f, x0))

ReferenceWarming == R("0.6")   \* COACCH: relative to 1986-2005

Poly2(c, x) == c.a + c.b * x + c.c * x * x

----------------------------------------------------------------------------
(* Sea-level rise: constants of AD-RICE2012 *)

ThermalEquil == R("0.5")
ThermalInit == R("0.0920666936642")
ThermalRate == R("0.024076141150722")
GsicRate == R("0.0008")
GsicIce == R("0.26")
GsicEquilTemp == -1
GsicInit == R("0.015")
GisRate == R("1.11860082")
GisInitRate == R("0.6")
GisIce == R("7.3")
GisInit == R("0.006")

ValueOfLifeOldest == R("1.3")

----------------------------------------------------------------------------
(* Utility *)

Utility(K, c, l) == (SoftMin(c / l) ^ (1 - K.elasmu) - 1) / (1 - K.elasmu)

----------------------------------------------------------------------------
(* Which variables a model has.  In sequence order a definition mostly uses *)
(* variables to its left, which only matters for how fast ModelGen converges.*)

CoacchVars == << "damage_costs_non_slr", "damage_costs_slr", "damage_costs",
                 "mortality_oldest", "mortality_older", "mortality_young",
                 "mortality_cost_oldest" >>

GlobalVars(K) ==
    {"global_emissions", "cumulative_emissions", "emission_relative_cumulative",
     "temperature", "slr_thermal", "slr_cumgsic", "slr_cumgis", "total_SLR",
     "global_rel_mitigation_costs", "global_emission_reduction_per_cost_unit",
     "global_cost_per_emission_reduction_unit", "LBD_factor", "LOT_factor",
     "learning_factor", "effort_sharing_common_level", "yearly_welfare", "NPV"}
    \cup IF K.trade = "emissiontrade" THEN {"global_carbonprice"} ELSE {}

(* The variables that no equation determines: the choices of the optimiser *)
Controls(K) ==
    {"relative_abatement", "effort_sharing_common_level"}
    \cup (IF K.trade = "emissiontrade" THEN {"import_export_mitigation_cost_balance"} ELSE {})
    \cup (IF K.trade = "globalcostpool" THEN {"mitigation_costs"} ELSE {})
    \cup (IF K.transfer = "globaldamagepool" THEN {"financial_transfer"} ELSE {})

DefinedVars(K) ==
    << "GDP_gross" >>
    \o << "slr_thermal", "slr_cumgsic", "slr_cumgis", "total_SLR" >>
    \o << "baseline", "regional_emissions", "regional_emission_reduction",
          "global_emissions", "cumulative_emissions", "emission_relative_cumulative",
          "temperature", "LBD_factor", "LOT_factor", "learning_factor",
          "carbonprice", "area_under_MAC" >>
    \o (IF K.trade = "globalcostpool" THEN << >> ELSE << "mitigation_costs" >>)
    \o << "rel_mitigation_costs", "global_rel_mitigation_costs" >>
    \o << "global_emission_reduction_per_cost_unit",
          "global_cost_per_emission_reduction_unit" >>
    \o (CASE K.trade = "emissiontrade" ->
               << "global_carbonprice", "import_export_emission_reduction_balance",
                  "paid_for_emission_reductions", "regional_emission_allowances" >>
          [] K.trade = "globalcostpool" ->
               << "import_export_mitigation_cost_balance", "paid_for_emission_reductions",
                  "import_export_emission_reduction_balance" >>
          [] OTHER -> << >>)
    \o (IF K.damage = "COACCH" THEN CoacchVars ELSE << "damage_costs" >>)
    \o (IF K.transfer = "globaldamagepool" THEN << "rel_financial_transfer" >> ELSE << >>)
    \o << "GDP_net", "investments", "consumption", "capital_stock",
          "utility", "yearly_welfare", "NPV" >>

AllVars(K) == { DefinedVars(K)[i] : i \in 1 .. Len(DefinedVars(K)) } \cup Controls(K)

IsGlobal(K, v) == v \in GlobalVars(K)

(* Variables without a defining equation in the first period *)
FreeAtStart == {"global_emission_reduction_per_cost_unit",
                "global_cost_per_emission_reduction_unit",
                "import_export_emission_reduction_balance",
                "paid_for_emission_reductions", "regional_emission_allowances"}

Defined(v, t) == ~(t = 0 /\ v \in FreeAtStart)

----------------------------------------------------------------------------
(* Terms that are variables in some modules and constants in others *)

TradeBalance(K, s, r) ==
    IF K.trade = "notrade" THEN 0 ELSE s.import_export_mitigation_cost_balance[r]
Transfer(K, s, r) == IF K.transfer = "notransfer" THEN 0 ELSE s.financial_transfer[r]
RelTransfer(K, s, r) == IF K.transfer = "notransfer" THEN 0 ELSE s.rel_financial_transfer[r]

(* Sums over the regions *)
Tot(s, v) == Sum(s[v])

----------------------------------------------------------------------------
(* The defining equations.  For a global variable r is ignored.             *)

Def(v, K, t, p, s, r) ==
    \* --- Economy -----------------------------------------------------------
    CASE v = "GDP_gross" ->
           IF t = 0 THEN Gdp(K, 0, r)
           ELSE Production(K, K.tfp[t + 1][r], Pop(K, t, r), SoftMinS(s.capital_stock[r], 10))
      [] v = "GDP_net" ->
           s.GDP_gross[r] * (1 - (IF K.ignoredmg THEN 0 ELSE s.damage_costs[r]))
           - s.mitigation_costs[r] - Transfer(K, s, r)
      [] v = "investments" -> K.sr * s.GDP_net[r]
      [] v = "consumption" -> (1 - K.sr) * s.GDP_net[r]
      [] v = "capital_stock" ->
           IF t = 0 THEN K.capfactor[r] * Gdp(K, 0, r)
           ELSE p.capital_stock[r] + CapitalGrowth(K, s.capital_stock[r], s.investments[r])
    \* --- Emissions ---------------------------------------------------------
      [] v = "baseline" ->
           IF K.intensity THEN Intensity(K, t, r) * s.GDP_net[r] ELSE Emi(K, t, r)
      [] v = "regional_emissions" ->
           IF t = 0 THEN Emi(K, 0, r)
           ELSE (1 - s.relative_abatement[r])
                * (IF K.intensity THEN s.baseline[r] ELSE Emi(K, t, r))
      [] v = "regional_emission_reduction" -> s.baseline[r] - s.regional_emissions[r]
      [] v = "global_emissions" -> Tot(s, "regional_emissions")
      [] v = "cumulative_emissions" ->
           IF t = 0 THEN 0
           ELSE p.cumulative_emissions
                + K.dt * (IF K.trapz THEN (s.global_emissions + p.global_emissions) / 2
                          ELSE s.global_emissions)
      [] v = "emission_relative_cumulative" ->
           IF t = 0 THEN 1 ELSE s.cumulative_emissions / K.cumbase[t + 1]
    \* --- Temperature and sea level -----------------------------------------
      [] v = "temperature" -> K.T0 + K.TCRE * s.cumulative_emissions
      [] v = "slr_thermal" ->
           IF t = 0 THEN ThermalInit + ThermalRate * (K.T0 * ThermalEquil - ThermalInit)
           ELSE (1 - ThermalRate) ^ (K.dt / 10) * p.slr_thermal
                + ThermalRate * (K.dt / 10) * (p.temperature * ThermalEquil)
      [] v = "slr_cumgsic" ->
           IF t = 0 THEN GsicInit
           ELSE p.slr_cumgsic + GsicRate * K.dt * ((GsicIce - p.slr_cumgsic) / GsicIce)
                                * (p.temperature - GsicEquilTemp)
      [] v = "slr_cumgis" ->
           IF t = 0 THEN GisInit
           ELSE p.slr_cumgis + (K.dt / 10) * ((GisRate * p.temperature + GisInitRate) / 100)
                               * (1 - p.slr_cumgis / GisIce)
      [] v = "total_SLR" -> s.slr_thermal + s.slr_cumgsic + s.slr_cumgis
    \* --- Damages -----------------------------------------------------------
      [] v = "damage_costs_non_slr" ->
           Damage(K, K.nonslr[r], s.temperature - ReferenceWarming, K.T0 - ReferenceWarming)
      [] v = "damage_costs_slr" -> Damage(K, K.slr[r], s.total_SLR, K.slr0)
      [] v = "damage_costs" ->
           IF K.damage = "nodamage" THEN 0
           ELSE s.damage_costs_non_slr[r] + s.damage_costs_slr[r]
      [] v = "mortality_oldest" -> Poly2(K.mort[r].oldest, s.temperature)
      [] v = "mortality_older" -> Poly2(K.mort[r].older, s.temperature)
      [] v = "mortality_young" -> Poly2(K.mort[r].young, s.temperature)
      [] v = "mortality_cost_oldest" ->
           s.mortality_oldest[r] * Pop(K, t, r) * 10000 * ValueOfLifeOldest
    \* --- Mitigation --------------------------------------------------------
      [] v = "LBD_factor" ->
           SoftMin((K.cumbase[t + 1] - s.cumulative_emissions) / K.lbdscale + 1)
           ^ (Ln(K.lbd) / Ln(2))
      [] v = "LOT_factor" -> 1 / (1 + K.lot) ^ t
      [] v = "learning_factor" -> s.LBD_factor * s.LOT_factor
      [] v = "carbonprice" ->
           s.learning_factor * K.kappa[r] * K.gamma * s.relative_abatement[r] ^ K.beta
      [] v = "area_under_MAC" ->
           s.learning_factor * K.kappa[r] * K.gamma
           * (s.relative_abatement[r] ^ (K.beta + 1) / (K.beta + 1)) * s.baseline[r]
      [] v = "mitigation_costs" -> s.area_under_MAC[r] + TradeBalance(K, s, r)
      [] v = "rel_mitigation_costs" -> s.mitigation_costs[r] / s.GDP_gross[r]
      [] v = "global_rel_mitigation_costs" -> Tot(s, "mitigation_costs") / Tot(s, "GDP_gross")
      [] v = "global_emission_reduction_per_cost_unit" ->
           Tot(s, "regional_emission_reduction") / SoftMin(Tot(s, "mitigation_costs"))
      [] v = "global_cost_per_emission_reduction_unit" ->
           Tot(s, "mitigation_costs") / SoftMin(Tot(s, "regional_emission_reduction"))
    \* --- Emission trade ----------------------------------------------------
      [] v = "global_carbonprice" ->
           Sum([ q \in K.regions |-> s.carbonprice[q] * Pop(K, t, q) ]) / WorldPop(K, t)
      [] v = "import_export_mitigation_cost_balance" ->      \* global cost pool
           s.mitigation_costs[r] - s.area_under_MAC[r]
      [] v = "import_export_emission_reduction_balance" ->
           IF K.trade = "emissiontrade"
           THEN s.import_export_mitigation_cost_balance[r] / SoftMin(s.global_carbonprice)
           ELSE s.paid_for_emission_reductions[r] - s.regional_emission_reduction[r]
      [] v = "paid_for_emission_reductions" ->
           IF K.trade = "emissiontrade"
           THEN s.regional_emission_reduction[r] + s.import_export_emission_reduction_balance[r]
           ELSE s.mitigation_costs[r] * s.global_emission_reduction_per_cost_unit
      [] v = "regional_emission_allowances" ->
           s.baseline[r] - s.paid_for_emission_reductions[r]
    \* --- Financial transfers -----------------------------------------------
      [] v = "rel_financial_transfer" -> s.financial_transfer[r] / s.GDP_gross[r]
    \* --- Welfare and objective ---------------------------------------------
      [] v = "utility" ->
           (CASE K.welfare = "welfare_loss_minimising" ->
                   Utility(K, s.consumption[r], Pop(K, t, r))
              [] K.welfare = "cost_minimising" -> s.consumption[r] / Pop(K, t, r)
              [] K.welfare = "inequal_aversion_general" ->
                   Pop(K, t, r) * SoftMin(s.consumption[r] / Pop(K, t, r)) ^ (1 - K.aversion))
      [] v = "yearly_welfare" ->
           (CASE K.welfare = "welfare_loss_minimising" ->
                   Sum([ q \in K.regions |-> Pop(K, t, q) * s.utility[q] ])
              [] K.welfare = "cost_minimising" ->
                   WorldPop(K, t) * Utility(K, Tot(s, "consumption"), WorldPop(K, t))
              [] K.welfare = "inequal_aversion_general" ->
                   WorldPop(K, t)
                   * (SoftMin(Tot(s, "utility") / WorldPop(K, t))
                        ^ ((1 - K.elasmu) / (1 - K.aversion)) / (1 - K.elasmu)))
      [] v = "NPV" ->
           IF t = 0 THEN 0
           ELSE p.NPV + K.dt * Exp(-(K.prtp * (Year(K, t) - K.start)))
                * (IF K.objective = "utility" THEN s.yearly_welfare
                   ELSE Tot(s, "mitigation_costs")
                        + Sum([ q \in K.regions |-> s.damage_costs[q] * s.GDP_gross[q] ]))

(* Sea level of the first period, the reference of the sea-level damages: a constant *)
Slr0(K) == ThermalInit + ThermalRate * (K.T0 * ThermalEquil - ThermalInit) + GsicInit + GisInit

----------------------------------------------------------------------------
(* Relations between the regions that are not definitions: name -> value    *)
(* that has to be zero.                                                      *)

ZeroSums(K, t, s) ==
    (IF K.trade = "emissiontrade"
     THEN << [ name |-> "trade_zero_sum",
               val |-> Sum(s.import_export_mitigation_cost_balance) ] >>
     ELSE << >>)
    \o (IF K.trade = "globalcostpool"
        THEN << [ name |-> "costpool_zero_sum",
                  val |-> Tot(s, "mitigation_costs") - Tot(s, "area_under_MAC") ] >>
        ELSE << >>)
    \o (IF K.transfer = "globaldamagepool"
        THEN << [ name |-> "transfer_zero_sum", val |-> Sum(s.financial_transfer) ] >>
        ELSE << >>)

(* Values that the first period fixes *)
StartValues(K) ==
    << [ var |-> "carbonprice", val |-> 0 ] >>
    \o (IF K.transfer = "globaldamagepool"
        THEN << [ var |-> "financial_transfer", val |-> 0 ] >> ELSE << >>)

----------------------------------------------------------------------------
(* The sense of the optimisation *)
ObjectiveSense(K) == IF K.objective = "utility" THEN "maximize" ELSE "minimize"

(* Absolute scale below which a difference in variable v is rounding *)
Scale(v) ==
    CASE v \in {"damage_costs", "damage_costs_non_slr", "damage_costs_slr",
                "rel_mitigation_costs", "global_rel_mitigation_costs", "rel_financial_transfer",
                "mitigation_costs", "area_under_MAC", "import_export_mitigation_cost_balance",
                "financial_transfer"} -> R("0.001")
      [] v \in {"regional_emission_reduction", "global_cost_per_emission_reduction_unit"} -> 1   \* from differences of larger numbers
      [] OTHER -> R("0.1")
=============================================================================
