------------------------------ MODULE Assembly ------------------------------
(***************************************************************************)
(* How a model is put together from its components: each one contributes     *)
(* variables, defines some of them by equations, reads others, and leaves    *)
(* some free.  The components of a combination of modules are added one at a *)
(* time, in any order; what comes out has to be the model of module Mimosa:  *)
(* every variable contributed once, defined at most once, every variable     *)
(* read contributed, and free exactly the choices of the optimiser.          *)
(***************************************************************************)
EXTENDS Mimosa

Combos == [ damage : {"COACCH", "nodamage"}, trade : {"notrade", "emissiontrade", "globalcostpool"},
            transfer : {"notransfer", "globaldamagepool"},
            welfare : {"welfare_loss_minimising", "cost_minimising", "inequal_aversion_general"},
            objective : {"utility", "globalcosts"} ]
Components == {"emissions", "sealevel", "damage", "mitigation", "trade", "transfer", "effort", "economy", "welfare", "objective"}

Slr == {"slr_thermal", "slr_cumgsic", "slr_cumgis", "total_SLR"}
SetOf(seq) == { seq[i] : i \in 1 .. Len(seq) }

(* the variables a component contributes *)
Contributes(c, K) ==
    CASE c = "emissions" -> {"baseline", "regional_emissions", "relative_abatement", "regional_emission_reduction",
                             "global_emissions", "cumulative_emissions", "emission_relative_cumulative", "temperature"}
      [] c = "sealevel" -> Slr
      [] c = "damage" -> IF K.damage = "COACCH" THEN SetOf(CoacchVars) ELSE {"damage_costs"}
      [] c = "mitigation" -> {"carbonprice", "mitigation_costs", "area_under_MAC", "rel_mitigation_costs",
                              "global_rel_mitigation_costs", "global_emission_reduction_per_cost_unit",
                              "global_cost_per_emission_reduction_unit", "LBD_factor", "LOT_factor", "learning_factor"}
      [] c = "trade" -> (CASE K.trade = "notrade" -> {}
                           [] K.trade = "emissiontrade" ->
                                {"global_carbonprice", "paid_for_emission_reductions", "regional_emission_allowances",
                                 "import_export_emission_reduction_balance", "import_export_mitigation_cost_balance"}
                           [] K.trade = "globalcostpool" ->
                                {"paid_for_emission_reductions", "import_export_emission_reduction_balance",
                                 "import_export_mitigation_cost_balance"})
      [] c = "transfer" -> IF K.transfer = "notransfer" THEN {} ELSE {"financial_transfer", "rel_financial_transfer"}
      [] c = "effort" -> {"effort_sharing_common_level"}
      [] c = "economy" -> {"GDP_gross", "GDP_net", "investments", "consumption", "capital_stock"}
      [] c = "welfare" -> {"utility", "yearly_welfare"}
      [] c = "objective" -> {"NPV"}

(* of these, the ones without a defining equation *)
LeavesFree(c, K) ==
    CASE c = "emissions" -> {"relative_abatement"}
      [] c = "effort" -> {"effort_sharing_common_level"}
      [] c = "trade" /\ K.trade = "emissiontrade" -> {"import_export_mitigation_cost_balance"}
      [] c = "trade" /\ K.trade = "globalcostpool" -> {"import_export_mitigation_cost_balance"}
      [] c = "transfer" /\ K.transfer # "notransfer" -> {"financial_transfer"}
      [] OTHER -> {}

(* the variables its equations and limits mention; some modules have constants in their place *)
Constant(K) == (IF K.trade = "notrade" THEN {"import_export_mitigation_cost_balance", "import_export_emission_reduction_balance"} ELSE {})
               \cup (IF K.transfer = "notransfer" THEN {"financial_transfer", "rel_financial_transfer"} ELSE {})
Mentions(c, K) ==
    CASE c = "emissions" -> {"GDP_net", "relative_abatement"}
      [] c = "sealevel" -> {"temperature"}
      [] c = "damage" -> IF K.damage = "COACCH" THEN {"temperature", "total_SLR"} ELSE {}
      [] c = "mitigation" -> {"relative_abatement", "baseline", "cumulative_emissions", "regional_emission_reduction",
                              "GDP_gross", "import_export_mitigation_cost_balance"}
      [] c = "trade" -> (CASE K.trade = "notrade" -> {}
                           [] K.trade = "emissiontrade" -> {"carbonprice", "regional_emission_reduction", "baseline"}
                           [] OTHER -> {"mitigation_costs", "area_under_MAC", "global_emission_reduction_per_cost_unit",
                                        "regional_emission_reduction"})
      [] c = "transfer" -> IF K.transfer = "notransfer" THEN {} ELSE {"damage_costs", "GDP_gross"}
      [] c = "effort" -> {"rel_mitigation_costs", "damage_costs", "rel_financial_transfer"}
                         \cup (IF K.trade = "emissiontrade" THEN {"regional_emission_allowances", "global_emissions"} ELSE {})
      [] c = "economy" -> {"damage_costs", "mitigation_costs", "financial_transfer"}
      [] c = "welfare" -> {"consumption"}
      [] c = "objective" -> IF K.objective = "utility" THEN {"yearly_welfare"}
                            ELSE {"mitigation_costs", "damage_costs", "GDP_gross"}

VARIABLES vCombo, vAdded, vVars, vFree, vTwice
vars == << vCombo, vAdded, vVars, vFree, vTwice >>

Init == vCombo \in Combos /\ vAdded = {} /\ vVars = {} /\ vFree = {} /\ vTwice = {}
Add(c) == /\ c \notin vAdded
          /\ vAdded' = vAdded \cup {c}
          /\ vTwice' = vTwice \cup (vVars \cap Contributes(c, vCombo))
          /\ vVars' = vVars \cup Contributes(c, vCombo)
          /\ vFree' = vFree \cup LeavesFree(c, vCombo)
          /\ UNCHANGED vCombo
Next == \E c \in Components : Add(c)
Spec == Init /\ [][Next]_vars

Done == vAdded = Components
Once == vTwice = {}
FreeAmong == vFree \subseteq vVars
Whole == Done => vVars = AllVars(vCombo)
Closed == Done => \A c \in Components : Mentions(c, vCombo) \ Constant(vCombo) \subseteq vVars
NoConstantTwice == Done => Constant(vCombo) \cap vVars = {}
(* Free are the choices of the optimiser, up to the equation they take part in: with a cost pool,    *)
(* the identity "costs are own costs plus payments" is read as defining the payments or the costs.   *)
Choices == Done => /\ Cardinality(vFree) = Cardinality(Controls(vCombo))
                   /\ vCombo.trade # "globalcostpool" => vFree = Controls(vCombo)
                   /\ Cardinality(vVars) = Len(DefinedVars(vCombo)) + Cardinality(vFree)
=============================================================================
