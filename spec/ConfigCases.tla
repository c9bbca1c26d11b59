----------------------------- MODULE ConfigCases -----------------------------
(***************************************************************************)
(* The settings the checks of the configuration range over: for every option  *)
(* every kind of value (exhaustively), and pseudo-random combinations of       *)
(* options, unknown options, and texts with references.                       *)
(***************************************************************************)
EXTENDS Config, Units

NaNv == [k |-> "float", v |-> R("NaN")]
InfV == [k |-> "float", v |-> R("Infinity")]
MInfV == [k |-> "float", v |-> R("-Infinity")]
Num(x) == IF IsInt(x) THEN I(x) ELSE [k |-> "float", v |-> ToReal(x)]

Common == << Nil, S("abc"), S(""), S("None"), List(<< >>), List(<< I(1) >>), Dict(<< >>),
             Dict(<< << S("a"), I(1) >> >>), NaNv, InfV, MInfV, S("nan"),
             [k |-> "str", v |-> "1 GtCO2", q |-> [unit |-> "emissions_unit", ok |-> TRUE]], S("{SSP}") >>

Eps == R("1e-9")
Near0 == << I(0), F("0.0"), F("1e-9"), F("-1e-9"), I(1), I(-1), F("0.5"), S("0"), S("1"), B(FALSE), B(TRUE), S("False"), S("no"),
            S("false"), S("yes"), S("True"), S("on"), S("FALSE"), I(2) >>

Edge(x) == IF ~IsFin(x) THEN << >>
           ELSE << Num(x), F(NumText(ToReal(x))), F(NumText(x - Eps)), F(NumText(x + Eps)), F(NumText(x - 1)),
                   F(NumText(x + 1)), S(NumText(x)), S(NumText(x - 1)), S(NumText(x + 1)) >>
Mid(o) == LET lo == IF IsFin(o.min) THEN o.min ELSE -5
              hi == IF IsFin(o.max) THEN o.max ELSE lo + 7
          IN  lo + (hi - lo) / 3
Whole(x) == Floor(x)

EdgeInt(x) == << I(x), I(x - 1), I(x + 1), F(NumText(ToReal(x))), F(NumText(x + R("0.75"))), F(NumText(x - R("1.25"))),
                 S(NumText(x)), S(NumText(x + 1)), S(NumText(x - 1)), S(NumText(x + R("0.5"))) >>

Qt(o, ok, key) == LET q == DrawQuantity(o.unit, ok, key)
                  IN [k |-> "str", v |-> q.text, q |-> [unit |-> o.unit, ok |-> q.ok]]
NaNq(o) == [k |-> "str", v |-> "nan " \o WriteExpr(TargetNamed(o.unit), 1), q |-> [unit |-> o.unit, ok |-> FALSE]]

Swap(text) == IF Len(Chars(text)) = 0 THEN "x" ELSE text \o "x"

SourceWithout(key) ==
    Dict(SelectSeq(Source("Population", "population_unit").v, LAMBDA e : e[1].v # key))

Deep == Dict(<< << S("a"), Dict(<< << S("b"), List(<< I(1), S("c"), Nil >>) >> >>) >> >>)

Cands(o) ==
    Common \o
    CASE o.type = "int" -> EdgeInt(o.min) \o EdgeInt(o.max) \o EdgeInt(Whole(Mid(o))) \o Near0
      [] o.type = "float" -> Edge(o.min) \o Edge(o.max) \o Edge(Mid(o)) \o Near0
      [] o.type = "bool" -> Near0
      [] o.type = "enum" ->
           o.values \o [ i \in 1 .. Len(o.values) |->
                           IF o.values[i].k = "str" THEN S(Swap(o.values[i].v)) ELSE S(NumText(o.values[i].v)) ]
           \o (IF o.values[1].k = "str" THEN << S("ssp2"), List(<< o.values[1] >>), Dict(<< << o.values[1], I(1) >> >>) >>
               ELSE << F("0.51"), F("0.024"), I(0), I(1) >>)
      [] o.type = "quantity" ->
           [ i \in 1 .. 6 |-> Qt(o, TRUE, << o.path, i >>) ] \o [ i \in 1 .. 5 |-> Qt(o, FALSE, << o.path, "x", i >>) ]
           \o << NaNq(o), I(0), I(5), F("2.5"), S("5"), B(FALSE), B(TRUE), S("False"), S("no"), S("False GtCO2") >>
      [] o.type = "list" -> << List(<< Nil >>), List(<< Dict(<< >>) >>), List(<< I(3), S("x"), B(TRUE) >>), List(<< Deep >>), S("a,b"),
                               B(FALSE), I(0) >>
      [] o.type = "dict" -> << Deep, Dict(<< << S("MEX"), Nil >> >>), Dict(<< << S("MEX"), Dict(<< >>) >>, << S("USA"), Deep >> >>),
                               Dict(<< << S("MEX"), I(5) >> >>), Dict(<< << S("MEX"), S("x") >> >>), Dict(<< << S("MEX"), List(<< >>) >> >>),
                               Dict(<< << I(7), Dict(<< >>) >> >>), B(FALSE), I(0) >>
      [] o.type = "datasource" -> << Source("Population", "population_unit"), Source("x", "y") >>
                                  \o [ i \in 1 .. 5 |-> SourceWithout(SourceKeys[i]) ] \o << Deep, B(FALSE) >>

AllCands == Force([ i \in 1 .. Len(Options) |-> Cands(Options[i]) ])

One(path, x) == << [path |-> path, val |-> x] >>
Singles ==
    Fold(LAMBDA acc, i : acc \o [ j \in 1 .. Len(AllCands[i]) |-> One(Options[i].path, AllCands[i][j]) ],
         << >>, [ i \in 1 .. Len(Options) |-> i ])

Groups == << "time", "economics", "economics - GDP", "economics - MAC", "economics - damages", "emissions", "emissions - inertia",
             "effort sharing", "temperature", "model", "input", "input - variables", "simulation" >>
GroupCases == Fold(LAMBDA acc, g : acc \o << One(g, I(5)), One(g, S("x")), One(g, List(<< I(1) >>)), One(g, B(FALSE)) >>, << >>, Groups)

Unknown == << "foo", "ssp", "Time - start", "time - begin", "time - start - x", "emissions - carbon budget", "economics - Damages - quantile",
              "economics - MAC - Beta", "economics - MAC - kappa - CAN", "model - welfare", "simulation - disabled_constraints",
              "input - variables - CO2", "input - GDP", "effort sharing - percapconv year", "temperature - TCRE - value", "SSP - x",
              "economics - PRTP ", "regions ", "emissions - inertia - region", "regional_parameter_file", "economics - damages" \o "s - quantile",
              "economics - GDP - alpha - x - y", "run - name", "start", "economics - damages - coacch_slr_withadapt - a" >>
UnknownVals == << I(1), S("x"), F("0.5"), List(<< I(1) >>), Dict(<< << S("a"), I(1) >> >>), B(TRUE), Nil, B(FALSE), I(0), S(""), List(<< >>), F("0.0"),
                  Dict(<< << S("a"), B(FALSE) >> >>), Dict(<< << S("a"), Nil >> >>) >>
UnknownCases == Fold(LAMBDA acc, i : acc \o [ j \in 1 .. Len(UnknownVals) |-> One(Unknown[i], UnknownVals[j]) ],
                     << >>, [ i \in 1 .. Len(Unknown) |-> i ])

----------------------------------------------------------------------------
(* Texts with references *)

Refs == << "SSP", "time - start", "time - end", "time - dt", "economics - MAC - beta", "economics - PRTP", "emissions - carbonbudget",
           "effort sharing - regime", "emissions - inertia - regional", "emissions - inertia - global", "temperature - TCRE",
           "economics - damages - quantile", "economics - damages - coacch_slr_withadapt", "model - welfare module",
           "economics - MAC - regional calibration factor", "regionstype", "simulation - simulationmode", "economics - MAC - gamma" >>
ChainRefs == << "input - variables - population - scenario", "input - variables - population - file", "input - variables - population - unit" >>
Odd == << "{nosuch}", "{timex{", "{}", "{{", "}}", "{SSP", "SSP}", "{ssp}", "{time-start}", "{time - begin}", "{SSP - x}", "{a.b}", "{ SSP}",
          "{SSP }", "{{SSP}}", "$", "100%", "{0}", "{economi-cs}-" >>
Literals == << "a", "-", " ", "scenario ", "x/y_", ".csv", "é", "", "SSP2" >>

Text(chain, key) ==
    LET n == HashInt(5, << key, "len" >>) + 1
        piece(i) == LET h == HashInt(10, << key, "piece", i >>)
                        pick(seq) == seq[HashInt(Len(seq), << key, "of", i >>) + 1]
                    IN  CASE h <= 4 -> "{" \o pick(Refs) \o "}"
                          [] h = 5 -> IF chain THEN "{" \o pick(ChainRefs) \o "}" ELSE pick(Literals)
                          [] h = 6 -> pick(Odd)
                          [] OTHER -> pick(Literals)
    IN  Fold(LAMBDA acc, i : acc \o piece(i), "", [ i \in 1 .. n |-> i ])

TextSource(chain, key) ==
    Dict([ i \in 1 .. 5 |-> << S(SourceKeys[i]), S(Text(chain, << key, i >>)) >> ])

(* an option with texts in it *)
TextOption(key) ==
    LET h == HashInt(8, << key, "option" >>)
        t(i) == S(Text(TRUE, << key, i >>))
    IN  CASE h = 0 -> [path |-> "input - variables - GDP", val |-> TextSource(TRUE, key)]
          [] h = 1 -> [path |-> "input - variables - population", val |-> TextSource(FALSE, key)]
          [] h = 2 -> [path |-> "input - variables - emissions", val |-> TextSource(TRUE, key)]
          [] h = 3 -> [path |-> "regional_parameter_files",
                       val |-> Dict(<< << S("MAC"), Dict(<< << S("filename"), t(1) >>, << S("regionstype"), t(2) >> >>) >>,
                                       << S("COACCH"), Dict(<< << S("filename"), t(3) >> >>) >> >>)]
          [] h = 4 -> [path |-> "regionsmappings",
                       val |-> List(<< Dict(<< << S("regionstype1"), t(1) >>, << S("conversiontable"), t(2) >> >>),
                                       Dict(<< << S("conversiontable"), t(3) >> >>) >>)]
          [] h = 5 -> [path |-> "regions",
                       val |-> Dict(<< << S("MEX"), Dict(<< << S("COACCH"), Dict(<< << S("NoSLR_form"), t(1) >>, << S("NoSLR_b1"), F("0.5") >> >>) >> >>) >>,
                                       << S("USA"), Dict(<< << S("economics"), Dict(<< << S("note"), List(<< t(2), List(<< t(3) >>) >>) >> >>) >> >>) >> >>)]
          [] h = 6 -> [path |-> "simulation - custom_mapping",
                       val |-> Dict(<< << S("a"), t(1) >>, << S("b"), Dict(<< << S("c"), t(2) >>, << S("d"), List(<< I(1), t(3), Dict(<< << S("e"), t(4) >> >>) >>) >> >>) >> >>)]
          [] OTHER -> [path |-> "simulation - deactivated_constraints", val |-> List(<< t(1), t(2), t(3) >>)]

----------------------------------------------------------------------------
(* Random combinations *)

Draws(o, st, key) ==
    LET i == OptionIndex[o.path]
        seq == SelectSeq(AllCands[i], LAMBDA x : Parse(o, x).st = st)
    IN  seq[HashInt(Len(seq), << key, o.path >>) + 1]

GoodValue(o, key) ==
    IF o.type \in {"float"} /\ HashInt(2, << key, "draw", o.path >>) = 0
    THEN LET lo == IF IsFin(o.min) THEN o.min ELSE -5
             hi == IF IsFin(o.max) THEN o.max ELSE lo + 9
         IN  F(NumText(Floor((lo + Hash01(<< key, "x", o.path >>) * (hi - lo)) * 1000) / 1000 + (IF IsFin(o.min) THEN R("0.001") ELSE 0)))
    ELSE Draws(o, "ok", key)

Mixed(seed, i) ==
    LET key == << seed, "mixed", i >>
        n == HashInt(9, << key, "n" >>)
        picked == { HashInt(Len(Options), << key, "option", j >>) + 1 : j \in 1 .. n }
        seqp == SelectSeq([ j \in 1 .. Len(Options) |-> j ], LAMBDA j : j \in picked)
        good0 == [ j \in 1 .. Len(seqp) |-> [path |-> Options[seqp[j]].path, val |-> GoodValue(Options[seqp[j]], << key, j >>)] ]
        good == SelectSeq(good0, LAMBDA e : Parse(OptionOf(e.path), e.val).st = "ok")
        h == HashInt(10, << key, "fault" >>)
        rest == { j \in 1 .. Len(Options) : j \notin picked }
        badopt == Options[CHOOSE j \in rest : \A k \in rest : HashInt(100000, << key, "b", j >>) <= HashInt(100000, << key, "b", k >>)]
        bad == << [path |-> badopt.path, val |-> Draws(badopt, "bad", << key, "bad" >>)] >>
        unk == << [path |-> Unknown[HashInt(Len(Unknown), << key, "unk" >>) + 1],
                   val |-> UnknownVals[HashInt(Len(UnknownVals), << key, "unkv" >>) + 1]] >>
        at == HashInt(Len(good) + 1, << key, "at" >>)
        insert(x) == SubSeq(good, 1, at) \o x \o SubSeq(good, at + 1, Len(good))
    IN  CASE h \in {0, 1} -> insert(bad)
          [] h = 2 -> insert(unk)
          [] OTHER -> good

Referring(seed, i) ==
    LET key == << seed, "ref", i >>
        n == HashInt(3, << key, "n" >>) + 1
        texts0 == [ j \in 1 .. n |-> TextOption(<< key, j >>) ]
        texts == Fold(LAMBDA acc, e : IF \E k \in 1 .. Len(acc) : acc[k].path = e.path THEN acc ELSE Append(acc, e), << >>, texts0)
        m == HashInt(4, << key, "m" >>)
        scal == SelectSeq([ j \in 1 .. m |-> OptionOf(Refs[HashInt(Len(Refs), << key, "set", j >>) + 1]) ],
                          LAMBDA o : o.type \in {"int", "float", "enum", "bool", "quantity"})
        simple(o) == CASE o.type = "float" -> IF o.canfalse THEN F("-0.25") ELSE Num(Floor(Mid(o) * 8) / 8 + R("0.125"))
                       [] o.type = "int" -> I(Whole(Mid(o)))
                       [] OTHER -> Draws(o, "ok", key)
        sets0 == [ j \in 1 .. Len(scal) |-> [path |-> scal[j].path, val |-> simple(scal[j])] ]
        sets1 == SelectSeq(sets0, LAMBDA e : Parse(OptionOf(e.path), e.val).st = "ok")
        sets == Fold(LAMBDA acc, e : IF \E k \in 1 .. Len(acc) : acc[k].path = e.path THEN acc ELSE Append(acc, e), << >>, sets1)
    IN  sets \o texts

(* the cases of a check: "C01" every value of every option, "C02" combinations *)
(* and unknown options, "C03" references                                       *)
Cases(kind, seed, n) ==
    CASE kind = "C01" -> << << >> >> \o Singles \o GroupCases \o [ i \in 1 .. n |-> Mixed(seed, i) ]
      [] kind = "C02" -> << << >> >> \o UnknownCases \o [ i \in 1 .. n |-> IF i % 4 = 0 THEN Referring(seed + 1000, i) ELSE Mixed(seed + 1000, i) ]
      [] kind = "C03" -> << << >> >> \o [ i \in 1 .. n |-> Referring(seed, i) ]
=============================================================================
