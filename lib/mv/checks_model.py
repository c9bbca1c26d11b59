"""Checks of the properties of the model equations and limits (module conform)."""
from . import conform

SLR = {"slr_thermal", "slr_cumgsic", "slr_cumgis", "total_SLR"}
EMISSIONS = {"baseline", "regional_emissions", "regional_emission_reduction", "global_emissions",
             "cumulative_emissions", "emission_relative_cumulative", "cumulative_baseline_emissions",
             "cumulative_global_baseline_emissions", "baseline_carbon_intensity"}
DAMAGES = {"damage_costs", "damage_costs_non_slr", "damage_costs_slr", "mortality_oldest", "mortality_older",
           "mortality_young", "mortality_cost_oldest"}
MITIGATION = {"LBD_factor", "LOT_factor", "learning_factor", "carbonprice", "area_under_MAC", "mitigation_costs",
              "rel_mitigation_costs", "global_rel_mitigation_costs", "global_emission_reduction_per_cost_unit",
              "global_cost_per_emission_reduction_unit", "start_carbonprice"}
ECONOMY = {"GDP_gross", "GDP_net", "investments", "consumption", "capital_stock", "TFP"}
TRADE = {"mitigation_costs", "import_export_mitigation_cost_balance", "import_export_emission_reduction_balance",
         "paid_for_emission_reductions", "regional_emission_allowances", "global_carbonprice", "trade_zero_sum",
         "costpool_zero_sum"}
TRANSFER = {"financial_transfer", "rel_financial_transfer", "GDP_net", "transfer_zero_sum",
            "start_financial_transfer"}

# property -> (equations and relations, limits, variables a foreign constraint is attributed by, families)
MODEL = {
    "C08": (EMISSIONS, set(), EMISSIONS, [("emissions", 34), ("any", 14)]),
    "C09": ({"temperature", "cumulative_emissions"}, set(), {"temperature"}, [("emissions", 26), ("any", 18)]),
    "C10": (SLR, {"bound_" + v for v in SLR}, SLR, [("emissions", 20), ("damages", 22)]),
    "C11": (DAMAGES, {"slr_damage_lower", "slr_damage_upper"}, DAMAGES, [("damages", 45)]),
    "C12": (MITIGATION, {"min_mitigation_costs", "abatement_lower", "abatement_upper", "carbonprice_lower",
                         "carbonprice_upper"}, MITIGATION | {"relative_abatement"},
            [("mitigation", 30), ("trade", 15)]),
    "C13": (ECONOMY, set(), ECONOMY, [("economy", 30), ("transfer", 12)]),
    "C14": (set(), {"carbon_budget", "cumulative_emissions_nonnegative", "temperature_target", "net_zero",
                    "global_inertia", "global_min_level", "regional_inertia", "regional_min_level",
                    "non_increasing_after_2100", "min_mitigation_costs", "abatement_lower", "abatement_upper"},
            EMISSIONS | {"temperature", "relative_abatement"}, [("limits", 60)]),
    "C15": (TRADE, set(), TRADE, [("trade", 45)]),
    "C16": (TRANSFER, {"transfer_at_most_own_damages"}, TRANSFER, [("transfer", 45)]),
    "C17": ({"regional_emission_allowances", "percapconv_share", "percapconv_share_pop", "percapconv_share_init"}, {"effort_upper", "effort_lower", "allowance_upper", "allowance_lower"},
            {"effort_sharing_common_level", "regional_emission_allowances"}, [("effort", 66)]),
    "C18": ({"utility", "yearly_welfare", "NPV", "objective"}, set(), {"utility", "yearly_welfare", "NPV"},
            [("welfare", 45)]),
}
ALWAYS = {"build", "nobehaviour", "periods", "infeasible"}


def concerns(pid, issue):
    eqs, lims, own, _ = MODEL[pid]
    kind, names = issue["kind"], set(issue["names"])
    if kind in ALWAYS:
        return True
    if kind in ("equation", "missing", "objective", "derived"):
        return bool(names & (eqs | own))
    if kind == "limit":
        return bool(names & lims)
    if kind == "extralimit":
        return bool(names & own)
    if kind in ("moved", "rejected"):
        return not names or bool(names & (own | eqs))
    return True


def check_model(pid):
    def fn(chk, tier):
        out = conform.Outcome()
        rounds = 1 if tier == "quick" else 8
        for k in range(rounds):
            for family, n in MODEL[pid][3]:
                conform.run(family, n if tier == "quick" else 2 * n, chk.scratch, seed=conform.SEED + 1000 * k,
                            outcome=out)
        for issue in out.issues:
            if concerns(pid, issue):
                chk.violation(issue["what"], {k: v for k, v in issue.items() if k != "what"})
        chk.coverage = {
            "states": out.states, "transitions": out.transitions,
            "traces_validated_against_impl": out.built - out.given_up,
            "runs_given_up_without_an_economy": out.given_up,
            "steps_of_the_real_model_validated": out.steps,
            "projections_onto_the_real_equations": out.projections,
            "derived_data_compared": out.derived, "limits_compared": out.limits, "limits_decided_by_witness": out.confirmed,
            "distinct_configurations": len(out.distinct), "families": out.families,
            "issues_of_other_properties": sum(not concerns(pid, i) for i in out.issues),
            "samples": out.samples}
    return fn


CHECKS = {pid: ("model_checking", check_model(pid)) for pid in MODEL}
