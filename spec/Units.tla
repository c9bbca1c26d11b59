-------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Quantities with units: what a text like "2601 US$2005/t CO2" means.       *)
(* A unit has a dimension (a kind and a power) and a size in base units       *)
(* (dollars of 2005, tonnes of CO2, years, kelvin, number).  An expression    *)
(* is a product of units raised to integer powers.                           *)
(***************************************************************************)
EXTENDS Real, Sequences, SeqFolds, FiniteSets, TLC

Kinds == << "currency", "co2", "time", "temperature" >>

U(name, kind, size) == [name |-> name, kind |-> kind, size |-> size]

UnitList == <<
    U("USD2005", "currency", 1), U("USD", "currency", 1), U("usd", "currency", 1), U("US$", "currency", 1),
    U("US$2005", "currency", 1), U("kUSD2005", "currency", R("1e3")), U("MUSD2005", "currency", R("1e6")),
    U("MUSD", "currency", R("1e6")), U("GUSD", "currency", R("1e9")), U("TUSD2005", "currency", R("1e12")),
    U("megaUSD2005", "currency", R("1e6")), U("USD2010", "currency", R("1.11")),
    U("US$2010", "currency", R("1.11")), U("kUSD2010", "currency", R("1110")), U("MUSD2010", "currency", R("1.11e6")),
    U("tCO2", "co2", 1), U("t CO2", "co2", 1), U("ktCO2", "co2", R("1e3")), U("kt CO2", "co2", R("1e3")),
    U("kilotCO2", "co2", R("1e3")), U("MtCO2", "co2", R("1e6")), U("Mt CO2", "co2", R("1e6")),
    U("megatCO2", "co2", R("1e6")), U("GtCO2", "co2", R("1e9")), U("Gt CO2", "co2", R("1e9")),
    U("gigatCO2", "co2", R("1e9")), U("TtCO2", "co2", R("1e12")), U("teratCO2", "co2", R("1e12")),
    U("yr", "time", 1), U("year", "time", 1), U("a", "time", 1), U("month", "time", R("1") / 12),
    U("week", "time", 7 / R("365.25")), U("day", "time", 1 / R("365.25")), U("hour", "time", 1 / R("8766")),
    U("delta_degC", "temperature", 1), U("K", "temperature", 1), U("kelvin", "temperature", 1),
    U("mK", "temperature", R("1e-3")), U("delta_degF", "temperature", R("5") / 9),
    U("thousand", "", R("1e3")), U("million", "", R("1e6")), U("billion", "", R("1e9")), U("trillion", "", R("1e12")) >>

OfKind(k) == SelectSeq(UnitList, LAMBDA u : u.kind = k)
UnitNamed(n) == LET i == CHOOSE j \in 1 .. Len(UnitList) : UnitList[j].name = n IN UnitList[i]

(* an expression: sequence of [u |-> name, e |-> power] *)
Power(kind, expr) ==
    Fold(LAMBDA acc, f : IF UnitNamed(f.u).kind = kind THEN acc + f.e ELSE acc, 0, expr)
Dimension(expr) == [ i \in 1 .. Len(Kinds) |-> Power(Kinds[i], expr) ]
Size(expr) == Fold(LAMBDA acc, f : acc * (ToReal(UnitNamed(f.u).size) ^ f.e), ToReal(1), expr)
Compatible(e1, e2) == Dimension(e1) = Dimension(e2)
(* x of e1 expressed in e2 *)
Convert(x, e1, e2) == (x * Size(e1)) / Size(e2)

fac(u, e) == [u |-> u, e |-> e]
(* the documented default units (docs: default_units.yaml) *)
Targets == <<
    [text |-> "currency_unit", expr |-> << fac("trillion", 1), fac("USD2005", 1), fac("yr", -1) >>],
    [text |-> "emissionsrate_unit", expr |-> << fac("GtCO2", 1), fac("yr", -1) >>],
    [text |-> "emissions_unit", expr |-> << fac("GtCO2", 1) >>],
    [text |-> "temperature_unit", expr |-> << fac("delta_degC", 1) >>],
    [text |-> "population_unit", expr |-> << fac("billion", 1) >>],
    [text |-> "currency_unit/emissionsrate_unit", expr |-> << fac("trillion", 1), fac("USD2005", 1), fac("GtCO2", -1) >>],
    [text |-> "(temperature_unit)/(emissions_unit)", expr |-> << fac("delta_degC", 1), fac("GtCO2", -1) >>] >>
TargetNamed(n) == LET i == CHOOSE j \in 1 .. Len(Targets) : Targets[j].text = n IN Targets[i].expr

----------------------------------------------------------------------------
(* Drawing an expression of a given dimension, and writing it down *)
PickU(seq, key) == seq[HashInt(Len(seq), key) + 1]

DrawFactors(dim, key) ==
    Fold(LAMBDA acc, i :
            IF dim[i] = 0 THEN acc
            ELSE Append(acc, fac(PickU(OfKind(Kinds[i]), << key, "unit", i >>).name, dim[i])),
         << >>, << 1, 2, 3, 4 >>)

(* a number word in front, units that cancel out *)
DrawExpr(dim, key) ==
    LET h == HashInt(10, << key, "extra" >>)
        word == << fac(PickU(OfKind(""), << key, "word" >>).name, 1) >>
        core == DrawFactors(dim, key)
        none == \A i \in 1 .. 4 : dim[i] = 0
    IN  (IF none \/ h \in {0, 1, 2} THEN word ELSE << >>)
        \o (IF h = 3 THEN << fac("yr", 1) >> ELSE << >>) \o core \o (IF h = 3 THEN << fac("yr", -1) >> ELSE << >>)

Spaced(name) == \E n \in {"t CO2", "Mt CO2", "Gt CO2", "kt CO2"} : n = name

(* styles: 0 "a b/c/d", 1 "a*b/(c*d)", 2 "a*b*c**-1", 3 "a b c^-1", 4 "(a*b)/c" *)
WriteExpr(expr, style) ==
    LET up == SelectSeq(expr, LAMBDA x : x.e > 0)
        down == SelectSeq(expr, LAMBDA x : x.e < 0)
        pow(x, n, op) == IF n = 1 THEN x.u ELSE x.u \o op \o ToString(n)
        join(seq, sep, op, sign) ==
            Fold(LAMBDA acc, x : IF acc = "" THEN pow(x, sign * x.e, op) ELSE acc \o sep \o pow(x, sign * x.e, op),
                 "", seq)
        top == IF up = << >> THEN "1" ELSE join(up, IF style \in {0, 3} THEN " " ELSE "*", "**", 1)
    IN  CASE style \in {0, 4} ->
               (IF style = 4 /\ up # << >> THEN "(" \o top \o ")" ELSE top)
               \o Fold(LAMBDA acc, x : acc \o "/" \o pow(x, 0 - x.e, "**"), "", down)
          [] style = 1 -> IF down = << >> THEN top ELSE top \o "/(" \o join(down, "*", "**", -1) \o ")"
          [] style = 2 -> IF down = << >> THEN top
                          ELSE (IF up = << >> THEN "" ELSE top \o "*") \o join(down, "*", "**", 1)
          [] OTHER -> IF down = << >> THEN top
                      ELSE (IF up = << >> THEN "" ELSE top \o " ") \o join(down, " ", "^", 1)

(* a dimension that differs from `dim` *)
OtherDim(dim, key) ==
    LET i == HashInt(4, << key, "which" >>) + 1
        d == IF HashInt(2, << key, "sign" >>) = 0 THEN 1 ELSE -1
    IN  IF HashInt(5, << key, "kind" >>) = 0 /\ (\E j \in 1 .. 4 : dim[j] # 0)
        THEN << 0, 0, 0, 0 >>
        ELSE [ dim EXCEPT ![i] = dim[i] + d ]

Number(key) ==
    LET h == HashInt(8, << key, "how" >>)
        x == HashInt(90000, << key, "n" >>) + 1
    IN  CASE h = 0 -> [text |-> NumText(x), x |-> ToReal(x)]
          [] h = 1 -> [text |-> NumText(x / 1000), x |-> x / 1000]
          [] h = 2 -> [text |-> NumText(0 - x / 100), x |-> 0 - x / 100]
          [] h = 3 -> [text |-> NumText(x) \o "e-3", x |-> x / 1000]
          [] h = 4 -> [text |-> NumText(x % 100) \o "e+2", x |-> ToReal((x % 100) * 100)]
          [] h = 5 -> [text |-> "0", x |-> ToReal(0)]
          [] OTHER -> [text |-> NumText(x / 10), x |-> x / 10]

(* one quantity for target n: compatible or not *)
DrawQuantity(n, compatible, key) ==
    LET dim == Dimension(TargetNamed(n))
        expr == DrawExpr(IF compatible THEN dim ELSE OtherDim(dim, key), key)
        num == Number(key)
        unit == WriteExpr(expr, HashInt(5, << key, "style" >>))
    IN  [ text |-> num.text \o " " \o unit, number |-> num.x, unit |-> unit, expr |-> expr,
          target |-> n, ok |-> Compatible(expr, TargetNamed(n)) ]
Meaning4(q) == Convert(q.number, q.expr, TargetNamed(q.target))
=============================================================================
