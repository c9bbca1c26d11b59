------------------------------- MODULE Reported -------------------------------
(* The series a saved result consists of: name, whether it is regional, unit (factors and *)
(* powers), by modules: << damage, trade, transfer >>.                                     *)
EXTENDS Real, Sequences, SeqFolds
NoUnit == << >>
GDPshare == << << "fraction_of_GDP", 1 >> >>
Rate == << << "GtCO2", 1 >>, << "yr", -1 >> >>
Money == << << "usd", 1 >>, << "trillion", 1 >>, << "yr", -1 >> >>
Meter == << << "m", 1 >> >>
PerTon == << << "usd", 1 >>, << "trillion", 1 >>, << "GtCO2", -1 >> >>

Reg(name, unit) == << [v |-> name, regional |-> TRUE, unit |-> unit] >>
Glo(name, unit) == << [v |-> name, regional |-> FALSE, unit |-> unit] >>

Always ==
    Reg("regional_emissions", Rate) \o Reg("baseline", Rate) \o Reg("relative_abatement", << << "fraction_of_baseline_emissions", 1 >> >>)
    \o Reg("regional_emission_reduction", Rate) \o Glo("cumulative_emissions", << << "GtCO2", 1 >> >>)
    \o Glo("global_emissions", Rate) \o Glo("emission_relative_cumulative", NoUnit) \o Glo("temperature", << << "degC_above_PI", 1 >> >>)
    \o Glo("slr_thermal", Meter) \o Glo("slr_cumgsic", Meter) \o Glo("slr_cumgis", Meter) \o Glo("total_SLR", Meter)
    \o Reg("carbonprice", << << "usd", 1 >>, << "trillion", 1 >>, << "GtCO2", -1 >>, << "yr", -1 >> >>)
    \o Reg("mitigation_costs", Money) \o Reg("area_under_MAC", Money) \o Reg("rel_mitigation_costs", GDPshare)
    \o Glo("global_rel_mitigation_costs", NoUnit)
    \o Glo("global_emission_reduction_per_cost_unit", << << "GtCO2", 1 >>, << "usd", -1 >>, << "trillion", -1 >> >>)
    \o Glo("global_cost_per_emission_reduction_unit", PerTon)
    \o Glo("LBD_factor", NoUnit) \o Glo("LOT_factor", NoUnit) \o Glo("learning_factor", NoUnit)
    \o Glo("effort_sharing_common_level", GDPshare)
    \o Reg("capital_stock", Money) \o Reg("GDP_gross", Money) \o Reg("GDP_net", Money) \o Reg("investments", Money) \o Reg("consumption", Money)
    \o Reg("utility", NoUnit) \o Glo("yearly_welfare", NoUnit) \o Glo("NPV", NoUnit)
    \o Reg("population", << << "billion", 1 >>, << "people", 1 >> >>) \o Reg("baseline_GDP", Money) \o Reg("baseline_emissions", Rate)
    \o Reg("cumulative_baseline_emissions", NoUnit)
    \o Reg("baseline_carbon_intensity", << << "GtCO2", 1 >>, << "usd", -1 >>, << "trillion", -1 >> >>)
    \o Reg("percapconv_share_pop", NoUnit) \o Reg("percapconv_share", NoUnit) \o Reg("TFP", NoUnit)
    \o Reg("import_export_emission_reduction_balance", Rate) \o Reg("import_export_mitigation_cost_balance", Money)
    \o Reg("financial_transfer", NoUnit) \o Reg("rel_financial_transfer", NoUnit)
Coacch ==
    Reg("damage_costs", GDPshare) \o Reg("damage_costs_non_slr", GDPshare) \o Reg("damage_costs_slr", GDPshare)
    \o Reg("mortality_oldest", NoUnit) \o Reg("mortality_older", NoUnit) \o Reg("mortality_young", NoUnit) \o Reg("mortality_cost_oldest", NoUnit)
NoDamage == Reg("damage_costs", NoUnit)
Traded == Reg("paid_for_emission_reductions", Rate)
Market == Glo("global_carbonprice", NoUnit) \o Reg("regional_emission_allowances", Rate)

ReportedBy(damage, trade) ==
    Always \o (IF damage = "COACCH" THEN Coacch ELSE NoDamage)
    \o (IF trade = "notrade" THEN << >> ELSE Traded) \o (IF trade = "emissiontrade" THEN Market ELSE << >>)
=============================================================================
