------------------------------ MODULE Scenarios ------------------------------
(***************************************************************************)
(* The configurations the model checks range over: a pseudo-random but       *)
(* reproducible function of (seed, family, number).  Every choice carries    *)
(* the value a user writes (py) and its meaning in default units (v).        *)
(***************************************************************************)
EXTENDS Real, Sequences, FiniteSets, TLC

Val(x) == [py |-> x, v |-> x]
Off == [py |-> FALSE, v |-> FALSE]
Qty(x, unit, factor) == [py |-> NumText(x) \o " " \o unit, v |-> factor * x]

PickFrom(seq, key) == seq[HashInt(Len(seq), key) + 1]

(* a real in [lo, hi] with `digits` decimals *)
Rounded(x, digits) == Floor(x * ToReal(10) ^ digits + R("0.5")) / ToReal(10) ^ digits
Between(lo, hi, digits, key) == Rounded(lo + Hash01(key) * (hi - lo), digits)

----------------------------------------------------------------------------
(* Time grids: start, end, step *)
Grids == <<
    << 2020, 2150, 5 >>, << 2020, 2100, 10 >>, << 2020, 2130, 10 >>, << 2015, 2110, 7 >>,
    << 2020, 2150, 20 >>, << 2020, 2030, R("0.5") >>, << 2050, 2120, 10 >>, << 2020, 2160, R("12.5") >>,
    << 2010, 2115, 15 >>, << 2025, 2103, R("6.5") >>, << 2090, 2125, R("2.5") >>, << 2020, 2101, 3 >>,
    << 2030, 2190, 18 >>, << 2095, 2112, 1 >>, << 2020, 2140, R("7.5") >>, << 2099, 2106, R("0.5") >> >>

(* Region subsets *)
AllRegions ==
    << "CAN", "USA", "MEX", "RCAM", "BRA", "RSAM", "NAF", "WAF", "EAF", "SAF", "WEU", "CEU",
       "TUR", "UKR", "STAN", "RUS", "ME", "INDIA", "KOR", "CHN", "SEAS", "INDO", "JAP", "OCE",
       "RSAS", "RSAF" >>

RECURSIVE SomeRegions(_, _, _)
SomeRegions(n, left, key) ==
    IF n = 0 THEN << >>
    ELSE LET i == HashInt(Len(left), << key, "region", n >>) + 1
         IN << left[i] >> \o SomeRegions(n - 1, SubSeq(left, 1, i - 1) \o SubSeq(left, i + 1, Len(left)), key)

----------------------------------------------------------------------------
Quantiles == << R("0.025"), R("0.05"), R("0.16"), R("0.25"), R("0.33"), R("0.5"), R("0.67"),
                R("0.75"), R("0.84"), R("0.95"), R("0.975") >>
KappaColumns == << "kappa_carbonprice_200_2030", "kappa_carbonprice_500_2050",
                   "kappa_carbonprice_1000_2100", "kappa_rel_abatement_0.25_2030",
                   "kappa_rel_abatement_0.4_2070", "kappa_rel_abatement_0.5_2100",
                   "kappa_rel_abatement_0.75_2100", "kappa_rel_abatement_0.75_2070" >>

Bools == << Val(TRUE), Val(FALSE) >>

(* Options that are drawn independently of each other, and a value for each *)
Drawn == <<
    "SSP", "economics - PRTP", "economics - elasmu", "economics - inequal_aversion",
    "economics - GDP - alpha", "economics - GDP - depreciation of capital",
    "economics - GDP - savings rate", "economics - MAC - beta", "economics - MAC - gamma",
    "economics - MAC - LBD_rate", "economics - MAC - LBD_scaling", "economics - MAC - LOT_rate",
    "economics - MAC - regional calibration factor",
    "economics - MAC - rel_mitigation_costs_min_level",
    "economics - damages - scale factor", "economics - damages - ignore damages",
    "economics - damages - quantile", "economics - damages - coacch_slr_withadapt",
    "economics - damages - coacch_combined_slr_nonslr_damages",
    "emissions - carbonbudget", "emissions - global min level", "emissions - regional min level",
    "emissions - not positive after budget year",
    "emissions - non increasing emissions after 2100", "emissions - baseline carbon intensity",
    "emissions - inertia - global", "emissions - inertia - regional",
    "emissions - cumulative_emissions_trapz", "effort sharing - percapconv_year",
    "temperature - initial", "temperature - TCRE", "temperature - target",
    "model - damage module", "model - welfare module", "model - objective module" >>

Inner(path, key) ==
    CASE path = "SSP" -> Val(PickFrom(<< "SSP1", "SSP2", "SSP3", "SSP4", "SSP5" >>, key))
      [] path = "economics - PRTP" -> Val(Between(0, R("0.06"), 4, key))
      [] path = "economics - elasmu" ->
           Val(PickFrom(<< R("0.5"), R("1.45"), R("1.2"), R("2.0"), R("0.9"), 3 >>, key))
      [] path = "economics - inequal_aversion" ->
           Val(PickFrom(<< 0, R("0.2"), R("0.8"), R("1.3"), 2 >>, key))
      [] path = "economics - GDP - alpha" -> Val(Between(R("0.15"), R("0.5"), 3, key))
      [] path = "economics - GDP - depreciation of capital" -> Val(Between(0, R("0.2"), 3, key))
      [] path = "economics - GDP - savings rate" -> Val(Between(R("0.1"), R("0.4"), 3, key))
      [] path = "economics - MAC - beta" ->
           Val(PickFrom(<< R("1.5"), 2, R("2.7"), 4 >>, key))
      [] path = "economics - MAC - gamma" ->
           IF HashInt(2, << key, "unit" >>) = 0
           THEN Qty(Between(800, 4000, 1, key), "USD2005/tCO2", R("0.001"))
           ELSE Qty(Between(1, 4, 3, key), "trillion USD2005/GtCO2", 1)
      [] path = "economics - MAC - LBD_rate" -> Val(Between(R("0.6"), 1, 3, key))
      [] path = "economics - MAC - LBD_scaling" -> Qty(Between(20, 90, 1, key), "GtCO2", 1)
      [] path = "economics - MAC - LOT_rate" -> Val(Between(0, R("0.04"), 4, key))
      [] path = "economics - MAC - regional calibration factor" -> Val(PickFrom(KappaColumns, key))
      [] path = "economics - MAC - rel_mitigation_costs_min_level" ->
           Val(PickFrom(<< R("-0.3"), R("-0.05"), R("-1.5"), 0 >>, key))
      [] path = "economics - damages - scale factor" ->
           Val(PickFrom(<< R("0.5"), 2, R("1.7"), 0, R("-0.5") >>, key))
      [] path = "economics - damages - ignore damages" -> Val(TRUE)
      [] path = "economics - damages - quantile" -> Val(PickFrom(Quantiles, key))
      [] path = "economics - damages - coacch_slr_withadapt" -> PickFrom(Bools, key)
      [] path = "economics - damages - coacch_combined_slr_nonslr_damages" -> Val(TRUE)
      [] path = "emissions - carbonbudget" ->
           LET h == HashInt(7, << key, "how" >>)
           IN  CASE h = 0 -> Off
                 [] h = 1 -> Qty(Between(300, 2500, 0, key), "GtCO2", 1)
                 [] h = 2 -> Qty(Between(R("0.02"), R("0.3"), 4, key), "TtCO2", 1000)
                 [] h = 3 -> [py |-> "0 GtCO2", v |-> 0]
                 [] h = 4 -> Qty(Between(5000, 90000, 0, key), "MtCO2", R("0.001"))
                 [] OTHER -> Qty(Between(1, 40, 2, key), "GtCO2", 1)
      [] path = "emissions - global min level" ->
           PickFrom(<< Off, [py |-> "-12 GtCO2/yr", v |-> -12], [py |-> "0 GtCO2/yr", v |-> 0],
                       [py |-> "-0.3 GtCO2/yr", v |-> R("-0.3")],
                       [py |-> "150 MtCO2/yr", v |-> R("0.15")],
                       [py |-> "-3500 MtCO2/yr", v |-> R("-3.5")] >>, key)
      [] path = "emissions - regional min level" ->
           PickFrom(<< Off, [py |-> "-1.5 GtCO2/yr", v |-> R("-1.5")],
                       [py |-> "-80 MtCO2/yr", v |-> R("-0.08")],
                       [py |-> "0.05 GtCO2/yr", v |-> R("0.05")],
                       [py |-> "0 GtCO2/yr", v |-> 0] >>, key)
      [] path = "emissions - not positive after budget year" -> PickFrom(Bools, key)
      [] path = "emissions - non increasing emissions after 2100" -> PickFrom(Bools, key)
      [] path = "emissions - baseline carbon intensity" -> Val(FALSE)
      [] path = "emissions - inertia - global" ->
           PickFrom(<< Val(R("-0.03")), Val(R("-0.1")), Val(0), Off >>, key)
      [] path = "emissions - inertia - regional" ->
           PickFrom(<< Val(R("-0.02")), Val(R("-0.12")), Val(0), Off >>, key)
      [] path = "emissions - cumulative_emissions_trapz" -> Val(FALSE)
      [] path = "effort sharing - percapconv_year" ->
           PickFrom(<< Val(2035), Val(2080), Off, Val(2020), Val(R("2062.5")) >>, key)
      [] path = "temperature - initial" ->
           PickFrom(<< [py |-> "1.02 delta_degC", v |-> R("1.02")],
                       [py |-> "1.31 delta_degC", v |-> R("1.31")] >>, key)
      [] path = "temperature - TCRE" ->
           PickFrom(<< [py |-> "0.42 delta_degC/TtCO2", v |-> R("0.00042")],
                       [py |-> "0.00081 delta_degC/GtCO2", v |-> R("0.00081")] >>, key)
      [] path = "temperature - target" ->
           PickFrom(<< Off, [py |-> "1.5 delta_degC", v |-> R("1.5")],
                       [py |-> "1.17 delta_degC", v |-> R("1.17")],
                       [py |-> "1.25 delta_degC", v |-> R("1.25")],
                       [py |-> "2 delta_degC", v |-> 2] >>, key)
      [] path = "model - damage module" -> PickFrom(<< Val("nodamage"), Val("COACCH") >>, key)
      [] path = "model - welfare module" ->
           PickFrom(<< Val("cost_minimising"), Val("inequal_aversion_general"),
                       Val("welfare_loss_minimising") >>, key)
      [] path = "model - objective module" -> Val("globalcosts")

(* Values at and near the ends of the documented ranges *)
Ends(path) ==
    CASE path = "economics - PRTP" -> << Val(0), Val(R("0.2")), Val(R("0.0001")) >>
      [] path = "economics - elasmu" -> << Val(R("0.1")), Val(5), Val(R("0.99")), Val(10) >>
      [] path = "economics - inequal_aversion" -> << Val(3), Val(R("0.01")), Val(R("1.001")) >>
      [] path = "economics - GDP - alpha" -> << Val(0), Val(1), Val(R("0.9")), Val(R("0.01")) >>
      [] path = "economics - GDP - depreciation of capital" -> << Val(0), Val(1), Val(R("0.0005")), Val(0), Val(R("0.999")) >>
      [] path = "economics - GDP - savings rate" -> << Val(0), Val(R("0.95")), Val(R("0.01")) >>
      [] path = "economics - MAC - beta" -> << Val(1), Val(10), Val(R("1.05")) >>
      [] path = "economics - MAC - LBD_rate" -> << Val(R("0.35")), Val(1), Val(R("0.999")) >>
      [] path = "economics - MAC - LBD_scaling" -> << Qty(8, "GtCO2", 1), Qty(3, "TtCO2", 1000) >>
      [] path = "economics - MAC - LOT_rate" -> << Val(R("0.5")), Val(3), Val(0), Val(R("0.0005")) >>
      [] path = "economics - MAC - rel_mitigation_costs_min_level" -> << Val(-2), Val(R("-0.001")) >>
      [] path = "economics - damages - scale factor" -> << Val(4), Val(R("0.01")), Val(-1) >>
      [] path = "emissions - carbonbudget" -> << Qty(-20, "GtCO2", 1), Qty(20, "TtCO2", 1000) >>
      [] path = "emissions - global min level" -> << Qty(30, "GtCO2/yr", 1), Qty(-400, "GtCO2/yr", 1) >>
      [] path = "emissions - regional min level" -> << Qty(2, "GtCO2/yr", 1), Qty(-300, "GtCO2/yr", 1) >>
      [] path \in {"emissions - inertia - global", "emissions - inertia - regional"} ->
           << Val(-1), Val(R("-0.0001")) >>
      [] path = "effort sharing - percapconv_year" -> << Val(2200), Val(2100), Val(R("2020.5")) >>
      [] path = "temperature - initial" ->
           << Qty(0, "delta_degC", 1), Qty(R("-0.2"), "delta_degC", 1), Qty(3, "delta_degC", 1) >>
      [] path = "temperature - TCRE" ->
           << Qty(0, "delta_degC/TtCO2", R("0.001")), Qty(R("1.6"), "delta_degC/TtCO2", R("0.001")) >>
      [] path = "temperature - target" -> << Qty(0, "delta_degC", 1), Qty(6, "delta_degC", 1) >>
      [] OTHER -> << >>

Draw(path, key) ==
    LET edges == Ends(path)
    IN  IF edges # << >> /\ HashInt(5, << key, "edge" >>) = 0 THEN PickFrom(edges, << key, "which" >>)
        ELSE Inner(path, key)

(* How often (in percent) an option is set, by family of scenarios *)
Focus(family, path) ==
    CASE family = "damages" /\ path \in {"economics - damages - quantile",
                                          "economics - damages - coacch_slr_withadapt"} -> 85
      [] family = "damages" /\ path \in {"economics - damages - scale factor",
                                          "economics - damages - coacch_combined_slr_nonslr_damages"} -> 40
      [] family = "damages" /\ path = "model - damage module" -> 10
      [] family = "mitigation" /\ path \in {"economics - MAC - LBD_rate", "economics - MAC - LOT_rate",
                                             "economics - MAC - beta", "economics - MAC - gamma",
                                             "economics - MAC - LBD_scaling",
                                             "economics - MAC - regional calibration factor"} -> 70
      [] family = "limits" /\ path \in {"emissions - carbonbudget", "temperature - target",
                                         "emissions - global min level",
                                         "emissions - regional min level",
                                         "emissions - inertia - global",
                                         "emissions - inertia - regional",
                                         "emissions - not positive after budget year",
                                         "emissions - non increasing emissions after 2100",
                                         "economics - MAC - rel_mitigation_costs_min_level"} -> 75
      [] family = "welfare" /\ path \in {"model - welfare module", "economics - elasmu",
                                          "economics - inequal_aversion", "economics - PRTP"} -> 80
      [] family = "welfare" /\ path = "model - objective module" -> 30
      [] family = "effort" /\ path = "effort sharing - percapconv_year" -> 80
      [] family = "economy" /\ path \in {"economics - GDP - alpha",
                                          "economics - GDP - depreciation of capital",
                                          "economics - GDP - savings rate"} -> 70
      [] family = "emissions" /\ path \in {"emissions - baseline carbon intensity",
                                            "emissions - cumulative_emissions_trapz",
                                            "temperature - initial", "temperature - TCRE"} -> 55
      [] path \in {"model - damage module", "economics - damages - ignore damages",
                   "economics - damages - coacch_combined_slr_nonslr_damages"} -> 15
      [] path = "model - objective module" -> 12
      [] OTHER -> 30

(* every regime in every company *)
EffortCombinations ==
    << << "emissiontrade", "globaldamagepool", "equal_total_costs" >>, << "emissiontrade", "notransfer", "per_cap_convergence" >>,
       << "notrade", "notransfer", "equal_mitigation_costs" >>, << "notrade", "globaldamagepool", "equal_total_costs" >>,
       << "emissiontrade", "globaldamagepool", "per_cap_convergence" >>, << "emissiontrade", "notransfer", "equal_total_costs" >>,
       << "emissiontrade", "globaldamagepool", "equal_mitigation_costs" >>, << "globalcostpool", "globaldamagepool", "equal_total_costs" >>,
       << "emissiontrade", "notransfer", "per_cap_convergence" >>, << "notrade", "notransfer", "equal_total_costs" >>,
       << "globalcostpool", "notransfer", "equal_mitigation_costs" >> >>

Trade(family, key) ==
    LET h == HashInt(10, << key, "trade" >>)
    IN  CASE family = "trade" -> IF h < 5 THEN "emissiontrade" ELSE "globalcostpool"
          [] OTHER -> IF h < 6 THEN "notrade" ELSE IF h < 8 THEN "emissiontrade" ELSE "globalcostpool"

Transfer(family, key) ==
    LET h == HashInt(10, << key, "transfer" >>)
    IN  IF family = "transfer" \/ h < 3 THEN "globaldamagepool" ELSE "notransfer"

(* Per-capita convergence is documented to need emission trade *)
Regime(family, key, trade) ==
    LET h == HashInt(10, << key, "regime" >>)
    IN  IF h < 5 THEN "noregime"
        ELSE IF h % 3 = 0 THEN "equal_mitigation_costs"
        ELSE IF h % 3 = 1 THEN "equal_total_costs"
        ELSE IF trade = "emissiontrade" THEN "per_cap_convergence"
        ELSE "equal_mitigation_costs"

(* Regional values set in the configuration *)
Overridable == <<
    << "economics", "init_capital_factor", R("1.0"), R("4.0") >>,
    << "MAC", "", R("0.1"), R("1.5") >>,
    << "COACCH", "NoSLR_b1", R("-1.0"), R("2.0") >>,
    << "COACCH", "SLR-Ad_b1", R("0.1"), R("2.0") >>,
    << "COACCH", "SLR-NoAd_b1", R("0.1"), R("2.0") >>,
    << "COACCH", "NoSLR_a (q=0.5)", R("0.3"), R("2.0") >>,
    << "COACCH", "NoSLR_b2", R("0.0"), R("2.0") >>,
    << "COACCH", "SLR-Ad_b1", R("-40.0"), R("-8.0") >>,
    << "COACCH", "SLR-NoAd_b1", R("-40.0"), R("60.0") >>,
    << "COACCH", "SLR-Ad_b2", R("0.0"), R("2.0") >>,
    << "COACCH", "SLR-NoAd_b3", R("-1.0"), R("3.0") >>,
    << "mortality", "oldest_b", R("-3.0"), R("3.0") >> >>

Override(key, kappacolumn) ==
    LET o == PickFrom(Overridable, << key, "which" >>)
        name == IF o[2] = "" THEN kappacolumn ELSE o[2]
        x == IF o[1] \in {"COACCH", "mortality"} /\ HashInt(5, << key, "zero" >>) = 0 THEN 0
             ELSE Between(o[3], o[4], 3, << key, "value" >>)
    IN  o[1] :> (name :> x)

(* The table of damage coefficients is chosen by three options together:     *)
(* every combination of them turns up among the first 44 scenarios.          *)
DamageCombination(i) ==
    LET k == i \div Len(Quantiles)
    IN  ("economics - damages - quantile" :> Val(Quantiles[(i % Len(Quantiles)) + 1])
         @@ "economics - damages - coacch_slr_withadapt" :> Val(k % 2 = 0)
         @@ "economics - damages - coacch_combined_slr_nonslr_damages" :> Val((k \div 2) % 2 = 1)
         @@ "model - damage module" :> Val(IF i % 15 = 14 THEN "nodamage" ELSE "COACCH"))

Scenario(seed, family, i) ==
    LET key == << seed, family, i >>
        whole == i = 10 \/ HashInt(40, << key, "all" >>) = 0    \* all regions together
        long == i \in {12, 23}                                   \* many periods
        grid == IF whole THEN << 2020, 2115, 20 >> ELSE IF long THEN << 2020, 2142, 2 >> ELSE PickFrom(Grids, << key, "grid" >>)
        company == EffortCombinations[(i % Len(EffortCombinations)) + 1]
        trade == IF family = "effort" THEN company[1] ELSE Trade(family, key)
        transfer == IF family = "effort" THEN company[2] ELSE Transfer(family, key)
        regime == IF family = "effort" THEN company[3] ELSE Regime(family, key, trade)
        chosen == { k \in 1 .. Len(Drawn) :
                      HashInt(100, << key, "set", Drawn[k] >>) < Focus(family, Drawn[k]) }
        drawn == [ path \in { Drawn[k] : k \in chosen } |-> Draw(path, << key, "draw", path >>) ]
        fixed == [ path \in {"time - start", "time - end", "time - dt", "model - emissiontrade module",
                             "model - financialtransfer module", "effort sharing - regime"} |->
                     CASE path = "time - start" -> Val(grid[1])
                       [] path = "time - end" -> Val(grid[2])
                       [] path = "time - dt" -> Val(grid[3])
                       [] path = "model - emissiontrade module" -> Val(trade)
                       [] path = "model - financialtransfer module" -> Val(transfer)
                       [] path = "effort sharing - regime" -> Val(regime) ]
        nreg == IF whole THEN 26 ELSE IF long THEN 2 ELSE IF i % 7 = 2 THEN 1 ELSE PickFrom(<< 1, 2, 2, 3, 3, 3, 4, 5 >>, << key, "nreg" >>)
        regions == IF nreg = 26 THEN AllRegions ELSE SomeRegions(nreg, AllRegions, key)
        (* now and then abatement is next to free, and the range of prices narrow *)
        cheap == IF family = "any" /\ i % 5 = 3
                 THEN "economics - MAC - gamma" :> Qty(PickFrom(<< R("0.7"), R("0.0007"), 20 >>, << key, "cheap" >>), "USD2005/tCO2", R("0.001"))
                 ELSE << >>
        set == (IF family = "damages" /\ i < 4 * Len(Quantiles) THEN DamageCombination(i) ELSE << >>)
               @@ cheap @@ fixed @@ drawn
        kcol == IF "economics - MAC - regional calibration factor" \in DOMAIN set
                THEN set["economics - MAC - regional calibration factor"].v
                ELSE "kappa_rel_abatement_0.75_2050"
        overridden == IF nreg = 26 THEN {}
                      ELSE { k \in 1 .. nreg : HashInt(3, << key, "override", k >>) = 0 }
    IN  [ id |-> family \o "-" \o ToString(i), set |-> set, regions |-> regions,
          overrides |-> [ r \in { regions[k] : k \in overridden } |->
                            Override(<< key, "override", r >>, kcol) ] ]

(* A combined damage function ignores the separate coefficients and the      *)
(* other way round: nothing to exclude.  Excluded as meaningless: unit       *)
(* elasticities (division by zero, use 1.001 as documented).                 *)
=============================================================================
