------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* From a scenario (the options a user sets) and the raw regional tables to  *)
(* the constants K of a run (module Mimosa).                                 *)
(*                                                                          *)
(* A scenario: [set |-> path -> [v |-> meaning in default units],            *)
(*              regions |-> sequence of region names,                        *)
(*              overrides |-> region -> category -> name -> value]           *)
(***************************************************************************)
EXTENDS Mimosa, Schema, Regional

DefaultMeaning(o) ==
    IF o.type = "quantity" /\ o.default.k # "bool" THEN o.default_val ELSE o.default.v

Meaning(sc, path) ==
    IF path \in DOMAIN sc.set THEN sc.set[path].v ELSE DefaultMeaning(OptionOf(path))

IsSet(x) == IF IsBool(x) THEN x ELSE TRUE          \* for options that can be false
OrZero(x) == IF IsBool(x) THEN 0 ELSE x

FormOf(text) ==
    CASE text \in {"Linear", "Robust-Linear", "OLS-Linear"} -> "linear"
      [] text \in {"Quadratic", "Robust-Quadratic", "OLS-Quadratic"} -> "quadratic"
      [] text \in {"Logistic", "Robust-Logistic", "OLS-Logistic"} -> "logistic"

Constants(sc, T) ==
    LET M(path) == Meaning(sc, path)
        regions == { sc.regions[i] : i \in 1 .. Len(sc.regions) }
        RV(cat, name) == [ r \in regions |->
                            RegionalValue(T, sc.overrides, cat, name, r, M("regionstype")) ]
        q == NumText(M("economics - damages - quantile"))
        ad == IF M("economics - damages - coacch_slr_withadapt") THEN "Ad" ELSE "NoAd"
        combined == M("economics - damages - coacch_combined_slr_nonslr_damages")
        num(x) == IF IsText(x) THEN 0 ELSE x
        curve(prefix) ==
            LET form == RV("COACCH", prefix \o "_form")
                b1 == RV("COACCH", prefix \o "_b1")
                b2 == RV("COACCH", prefix \o "_b2")
                b3 == RV("COACCH", prefix \o "_b3")
                a == RV("COACCH", prefix \o "_a (q=" \o q \o ")")
            IN  [ r \in regions |-> [ form |-> FormOf(form[r]), a |-> num(a[r]), b1 |-> num(b1[r]),
                                      b2 |-> num(b2[r]), b3 |-> num(b3[r]) ] ]
        combinedcurve ==
            LET b1 == RV("COACCH", "combined_b1_" \o ad \o "-q" \o q)
                b2 == RV("COACCH", "combined_b2_" \o ad \o "-q" \o q)
            IN  [ r \in regions |-> [ form |-> "quadratic", a |-> 1, b1 |-> b1[r], b2 |-> b2[r],
                                      b3 |-> 0 ] ]
        nocurve == [ r \in regions |-> [ form |-> "linear", a |-> 0, b1 |-> 0, b2 |-> 0, b3 |-> 0 ] ]
        poly(g) == LET a == RV("mortality", g \o "_a")
                       b == RV("mortality", g \o "_b")
                       c == RV("mortality", g \o "_c")
                   IN [ r \in regions |-> [ a |-> a[r], b |-> b[r], c |-> c[r] ] ]
        coacch == M("model - damage module") = "COACCH"
        oldest == poly("oldest")
        older == poly("older")
        young == poly("young")
        K0 ==
    [ regions |-> regions,
      start |-> M("time - start"), end |-> M("time - end"), dt |-> M("time - dt"),
      prtp |-> M("economics - PRTP"), elasmu |-> M("economics - elasmu"),
      aversion |-> M("economics - inequal_aversion"),
      alpha |-> M("economics - GDP - alpha"),
      dk |-> M("economics - GDP - depreciation of capital"),
      sr |-> M("economics - GDP - savings rate"),
      beta |-> M("economics - MAC - beta"), gamma |-> M("economics - MAC - gamma"),
      lbd |-> M("economics - MAC - LBD_rate"), lbdscale |-> M("economics - MAC - LBD_scaling"),
      lot |-> M("economics - MAC - LOT_rate"),
      mincosts |-> M("economics - MAC - rel_mitigation_costs_min_level"),
      kappa |-> RV("MAC", M("economics - MAC - regional calibration factor")),
      capfactor |-> RV("economics", "init_capital_factor"),
      dmgscale |-> M("economics - damages - scale factor"),
      ignoredmg |-> M("economics - damages - ignore damages"),
      nonslr |-> IF ~coacch THEN nocurve ELSE IF combined THEN combinedcurve ELSE curve("NoSLR"),
      slr |-> IF ~coacch \/ combined THEN nocurve ELSE curve("SLR-" \o ad),
      mort |-> IF ~coacch THEN << >>
               ELSE [ r \in regions |-> [ oldest |-> oldest[r], older |-> older[r], young |-> young[r] ] ],
      hasbudget |-> IsSet(M("emissions - carbonbudget")), budget |-> OrZero(M("emissions - carbonbudget")),
      hasgmin |-> IsSet(M("emissions - global min level")), gmin |-> OrZero(M("emissions - global min level")),
      hasrmin |-> IsSet(M("emissions - regional min level")), rmin |-> OrZero(M("emissions - regional min level")),
      nopos |-> M("emissions - not positive after budget year"),
      nongrowing |-> M("emissions - non increasing emissions after 2100"),
      intensity |-> M("emissions - baseline carbon intensity"),
      hasginertia |-> IsSet(M("emissions - inertia - global")), ginertia |-> OrZero(M("emissions - inertia - global")),
      hasrinertia |-> IsSet(M("emissions - inertia - regional")), rinertia |-> OrZero(M("emissions - inertia - regional")),
      trapz |-> M("emissions - cumulative_emissions_trapz"),
      regime |-> M("effort sharing - regime"),
      hasconvyear |-> IsSet(M("effort sharing - percapconv_year")),
      convyear |-> OrZero(M("effort sharing - percapconv_year")),
      T0 |-> M("temperature - initial"), TCRE |-> M("temperature - TCRE"),
      hastarget |-> IsSet(M("temperature - target")), target |-> OrZero(M("temperature - target")),
      damage |-> M("model - damage module"), trade |-> M("model - emissiontrade module"),
      transfer |-> M("model - financialtransfer module"), welfare |-> M("model - welfare module"),
      objective |-> M("model - objective module") ]
    IN  K0

(* Number of periods and the year of each *)
NumPeriods(sc) ==
    Ceil((Meaning(sc, "time - end") - Meaning(sc, "time - start")) / Meaning(sc, "time - dt")) + 1
YearsOf(sc) == [ i \in 1 .. NumPeriods(sc) |->
                  Meaning(sc, "time - start") + (i - 1) * Meaning(sc, "time - dt") ]

(* K completed with the exogenous paths X = [pop, gdp, emi], each a sequence *)
(* (one element per period) of functions from regions to reals.              *)
Complete(sc, T, X) ==
    LET K0 == Constants(sc, T)
        K1 == [slr0 |-> Slr0(K0), pop |-> X.pop, gdp |-> X.gdp, emi |-> X.emi] @@ K0
    IN  Derive(K1) @@ K1
=============================================================================
