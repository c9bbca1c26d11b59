------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* The inequalities of the model: which limits bind the optimiser in period  *)
(* t, given the configuration, and the slack each of them has in state s     *)
(* (negative: violated).  A limit that is not configured, or does not apply  *)
(* to the year, is absent.                                                   *)
(***************************************************************************)
EXTENDS Mimosa

Lim(name, r, slack) == << [ name |-> name, r |-> r, slack |-> slack ] >>
If(c, seq) == IF c THEN seq ELSE << >>

LastFreeYear == 2100            \* budget, target and net zero apply from 2100 on
EffortTolerance == R("0.005")
AllowanceTolerance == R("0.001")

GlobalLimits(K, t, p, s) ==
    LET year == Year(K, t)
    IN  If(K.hasbudget /\ year >= LastFreeYear,
           Lim("carbon_budget", "", K.budget - s.cumulative_emissions))
        \o Lim("cumulative_emissions_nonnegative", "", s.cumulative_emissions)
        \o If(K.hastarget /\ year >= LastFreeYear,
              Lim("temperature_target", "", K.target - s.temperature))
        \o If(K.hasbudget /\ K.nopos /\ year >= LastFreeYear,
              Lim("net_zero", "", -s.global_emissions))
        \o If(K.hasginertia /\ t > 0,
              Lim("global_inertia", "",
                  s.global_emissions - p.global_emissions - K.dt * K.ginertia * Emi0(K)))
        \o If(K.hasgmin, Lim("global_min_level", "", s.global_emissions - K.gmin))
        \o Lim("bound_slr_thermal", "", s.slr_thermal)
        \o Lim("bound_slr_cumgsic", "", s.slr_cumgsic)
        \o Lim("bound_slr_cumgis", "", s.slr_cumgis)
        \o Lim("bound_total_SLR", "", s.total_SLR)

Effort(K, s, r) ==
    IF K.regime = "equal_mitigation_costs" THEN s.rel_mitigation_costs[r]
    ELSE s.rel_mitigation_costs[r] + s.damage_costs[r] + RelTransfer(K, s, r)

RegionLimits(K, t, p, s, r) ==
    LET year == Year(K, t)
        level == s.effort_sharing_common_level
    IN  If(K.hasrinertia /\ t > 0,
           Lim("regional_inertia", r,
               s.regional_emissions[r] - p.regional_emissions[r] - K.dt * K.rinertia * Emi(K, 0, r)))
        \o If(K.hasrmin, Lim("regional_min_level", r, s.regional_emissions[r] - K.rmin))
        \o If(K.nongrowing /\ t > 0 /\ Year(K, t - 1) > 2100,
              Lim("non_increasing_after_2100", r, p.regional_emissions[r] - s.regional_emissions[r]))
        \o Lim("min_mitigation_costs", r,
               s.rel_mitigation_costs[r] - (IF t > 0 THEN K.mincosts ELSE 0))
        \o If(K.transfer = "globaldamagepool",
              Lim("transfer_at_most_own_damages", r,
                  s.financial_transfer[r] + s.damage_costs[r] * s.GDP_gross[r]))
        \o If(\/ K.regime = "equal_mitigation_costs"
              \/ K.regime = "equal_total_costs" /\ year <= 2100,
              Lim("effort_upper", r, (1 + EffortTolerance) * level - Effort(K, s, r))
              \o Lim("effort_lower", r, Effort(K, s, r) - (1 - EffortTolerance) * level))
        \o If(K.regime = "per_cap_convergence" /\ t > 0,
              LET right == K.share[t + 1][r] * s.global_emissions
              IN  Lim("allowance_upper", r,
                      s.regional_emission_allowances[r] + AllowanceTolerance - right)
                  \o Lim("allowance_lower", r,
                         right - (s.regional_emission_allowances[r] - AllowanceTolerance)))
        \o Lim("abatement_lower", r, s.relative_abatement[r])
        \o Lim("abatement_upper", r, R("2.5") - s.relative_abatement[r])
        \o Lim("carbonprice_lower", r, s.carbonprice[r])
        \o Lim("carbonprice_upper", r, 2 * K.gamma - s.carbonprice[r])
        \o If(K.damage = "COACCH",
              Lim("slr_damage_lower", r, s.damage_costs_slr[r] + R("0.5"))
              \o Lim("slr_damage_upper", r, R("0.7") - s.damage_costs_slr[r]))
=============================================================================
