------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The documented options of MIMOSA: path, type, bounds, default.  This is  *)
(* the specification's own table (docs/parameters.md), not read from the    *)
(* repository.  Values are tagged: [k |-> kind, v |-> value], the same       *)
(* encoding as the harness uses for the values of a real parameter tree.    *)
(***************************************************************************)
EXTENDS Real, Sequences, TLC

I(n) == [k |-> "int", v |-> n]
F(x) == [k |-> "float", v |-> R(x)]
S(x) == [k |-> "str", v |-> x]
B(x) == [k |-> "bool", v |-> x]
Nil == [k |-> "none"]
List(x) == [k |-> "list", v |-> x]        \* sequence of tagged values
Dict(x) == [k |-> "dict", v |-> x]        \* sequence of <<tagged key, tagged value>>

PInf == R("Infinity")
NInf == R("-Infinity")

Opt(path, type, default) ==
    [path |-> path, type |-> type, default |-> default, canfalse |-> FALSE,
     min |-> NInf, max |-> PInf, values |-> << >>, unit |-> "", default_val |-> R("0")]

Bounded(o, lo, hi) == [o EXCEPT !.min = lo, !.max = hi]
OrFalse(o) == [o EXCEPT !.canfalse = TRUE]
OneOf(path, values, default) == [Opt(path, "enum", default) EXCEPT !.values = values]
(* a quantity: unit group it is converted to, and the default in that unit *)
Quantity(path, unit, default, val) ==
    [Opt(path, "quantity", default) EXCEPT !.unit = unit, !.default_val = val]

Kappas ==
    [ i \in 1 .. 16 |->
        "kappa_carbonprice_"
        \o << "200", "300", "500", "1000" >>[((i - 1) \div 4) + 1] \o "_"
        \o << "2030", "2050", "2070", "2100" >>[((i - 1) % 4) + 1] ]
    \o [ i \in 1 .. 8 |->
        "kappa_rel_abatement_"
        \o << "0.25", "0.4" >>[((i - 1) \div 4) + 1] \o "_"
        \o << "2030", "2050", "2070", "2100" >>[((i - 1) % 4) + 1] ]
    \o [ i \in 1 .. 6 |->
        "kappa_rel_abatement_"
        \o << "0.5", "0.75" >>[((i - 1) \div 3) + 1] \o "_"
        \o << "2050", "2070", "2100" >>[((i - 1) % 3) + 1] ]

Texts(seq) == [ i \in 1 .. Len(seq) |-> S(seq[i]) ]

Regions26 ==
    << "CAN", "USA", "MEX", "RCAM", "BRA", "RSAM", "NAF", "WAF", "EAF", "SAF", "WEU", "CEU",
       "TUR", "UKR", "STAN", "RUS", "ME", "INDIA", "KOR", "CHN", "SEAS", "INDO", "JAP", "OCE",
       "RSAS", "RSAF" >>

Source(variable, unit) ==
    Dict(<< << S("variable"), S(variable) >>, << S("unit"), S(unit) >>,
            << S("scenario"), S("{SSP}-Ref-SPA0-V17") >>, << S("model"), S("IMAGE") >>,
            << S("file"), S("inputdata/data/data_IMAGE_SSP.csv") >> >>)

FileOf(name, type) ==
    Dict(<< << S("filename"), S("inputdata/regionalparams/" \o name \o ".csv") >>,
            << S("regionstype"), S(type) >> >>)

MappingOf(other) ==
    Dict(<< << S("regionstype1"), S("IMAGE26") >>, << S("regionstype2"), S(other) >>,
            << S("conversiontable"), S("inputdata/regions/IMAGE26_" \o other \o ".csv") >> >>)

Options == <<
    Bounded(Opt("time - start", "int", I(2020)), 1900, 2100),
    Bounded(Opt("time - end", "int", I(2150)), 1901, 2300),
    Bounded(Opt("time - dt", "float", I(5)), R("0.5"), 20),
    OneOf("SSP", Texts(<< "SSP1", "SSP2", "SSP3", "SSP4", "SSP5" >>), S("SSP2")),
    Bounded(Opt("economics - PRTP", "float", F("0.015")), 0, R("0.2")),
    Bounded(Opt("economics - elasmu", "float", F("1.001")), R("0.1"), 10),
    Bounded(Opt("economics - inequal_aversion", "float", F("0.5")), 0, 3),
    Bounded(Opt("economics - GDP - alpha", "float", F("0.3")), 0, 1),
    Bounded(Opt("economics - GDP - depreciation of capital", "float", F("0.05")), 0, PInf),
    Bounded(Opt("economics - GDP - savings rate", "float", F("0.21")), 0, 1),
    Bounded(Opt("economics - MAC - beta", "float", I(3)), R("0.01"), 10),
    Quantity("economics - MAC - gamma", "currency_unit/emissionsrate_unit",
             S("2601 USD2005/tCO2"), R("2.601")),
    Bounded(Opt("economics - MAC - LBD_rate", "float", F("0.82")), R("0.1"), 1),
    Quantity("economics - MAC - LBD_scaling", "emissions_unit", S("40 GtCO2"), 40),
    Bounded(Opt("economics - MAC - LOT_rate", "float", I(0)), 0, PInf),
    OneOf("economics - MAC - regional calibration factor", Texts(Kappas),
          S("kappa_rel_abatement_0.75_2050")),
    Bounded(Opt("economics - MAC - rel_mitigation_costs_min_level", "float", I(0)), -2, 0),
    OrFalse(Bounded(Opt("economics - emission trade - min rel payment level", "float", B(FALSE)), 0, 1)),
    OrFalse(Bounded(Opt("economics - emission trade - max rel payment level", "float", B(FALSE)), 1, PInf)),
    Bounded(Opt("economics - damages - percentage reversible", "float", I(1)), 0, 1),
    Opt("economics - damages - scale factor", "float", I(1)),
    Opt("economics - damages - ignore damages", "bool", B(FALSE)),
    OneOf("economics - damages - quantile",
          << F("0.025"), F("0.05"), F("0.16"), F("0.25"), F("0.33"), F("0.5"), F("0.67"),
             F("0.75"), F("0.84"), F("0.95"), F("0.975") >>, F("0.5")),
    Opt("economics - damages - coacch_slr_withadapt", "bool", B(TRUE)),
    Opt("economics - damages - coacch_combined_slr_nonslr_damages", "bool", B(FALSE)),
    OrFalse(Quantity("emissions - carbonbudget", "emissions_unit", B(FALSE), 0)),
    OrFalse(Quantity("emissions - global min level", "emissionsrate_unit", S("-20 GtCO2/yr"), -20)),
    OrFalse(Quantity("emissions - regional min level", "emissionsrate_unit", S("-10 GtCO2/yr"), -10)),
    Opt("emissions - not positive after budget year", "bool", B(TRUE)),
    Opt("emissions - non increasing emissions after 2100", "bool", B(TRUE)),
    Opt("emissions - baseline carbon intensity", "bool", B(TRUE)),
    OrFalse(Bounded(Opt("emissions - inertia - global", "float", B(FALSE)), NInf, 0)),
    OrFalse(Bounded(Opt("emissions - inertia - regional", "float", F("-0.05")), NInf, 0)),
    Opt("emissions - cumulative_emissions_trapz", "bool", B(TRUE)),
    OneOf("effort sharing - regime",
          Texts(<< "noregime", "equal_mitigation_costs", "equal_total_costs", "per_cap_convergence" >>),
          S("noregime")),
    OrFalse(Bounded(Opt("effort sharing - percapconv_year", "float", I(2050)), 2020, 2200)),
    Quantity("temperature - initial", "temperature_unit", S("1.16 delta_degC"), R("1.16")),
    Quantity("temperature - TCRE", "(temperature_unit)/(emissions_unit)",
             S("0.62 delta_degC/(TtCO2)"), R("0.00062")),
    OrFalse(Quantity("temperature - target", "temperature_unit", B(FALSE), 0)),
    OneOf("model - damage module", Texts(<< "COACCH", "nodamage" >>), S("COACCH")),
    OneOf("model - emissiontrade module", Texts(<< "notrade", "emissiontrade", "globalcostpool" >>), S("notrade")),
    OneOf("model - financialtransfer module", Texts(<< "notransfer", "globaldamagepool" >>), S("notransfer")),
    OneOf("model - welfare module",
          Texts(<< "welfare_loss_minimising", "cost_minimising", "inequal_aversion_general" >>),
          S("welfare_loss_minimising")),
    OneOf("model - objective module", Texts(<< "utility", "globalcosts" >>), S("utility")),
    OneOf("regionstype", Texts(<< "IMAGE26", "SSP5", "World" >>), S("IMAGE26")),
    [Opt("regionsmappings", "list",
         List(<< MappingOf("COACCH"), MappingOf("ADRICE2010"), MappingOf("ADRICE2012") >>))
       EXCEPT !.values = << "dict" >>],
    [Opt("regional_parameter_files", "dict",
         Dict(<< << S("economics"), FileOf("economics", "IMAGE26") >>,
                 << S("MAC"), FileOf("mac", "IMAGE26") >>,
                 << S("COACCH"), FileOf("COACCH", "COACCH") >>,
                 << S("mortality"), FileOf("mortality", "IMAGE26") >> >>))
       EXCEPT !.values = << "str", "dict" >>],
    [Opt("regions", "dict",
         Dict([ i \in 1 .. Len(Regions26) |-> << S(Regions26[i]), Nil >> ]))
       EXCEPT !.values = << "str", "dict" >>],
    Opt("input - variables - GDP", "datasource", Source("GDP|PPP", "currency_unit")),
    Opt("input - variables - emissions", "datasource", Source("Emissions|CO2", "emissionsrate_unit")),
    Opt("input - variables - population", "datasource", Source("Population", "population_unit")),
    Opt("simulation - simulationmode", "bool", B(FALSE)),
    [Opt("simulation - constraint_variables", "dict", Nil) EXCEPT !.values = << "str", "str_or_plain_dict" >>],
    [Opt("simulation - deactivated_constraints", "list", Nil) EXCEPT !.values = << "str" >>],
    Opt("simulation - custom_mapping", "dict", Nil)
  >>

OptionIndex == [ p \in { Options[i].path : i \in 1 .. Len(Options) } |->
                   CHOOSE i \in 1 .. Len(Options) : Options[i].path = p ]
OptionOf(path) == Options[OptionIndex[path]]
Paths == DOMAIN OptionIndex
=============================================================================
