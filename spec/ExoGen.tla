-------------------------------- MODULE ExoGen --------------------------------
(* Draws grids, regions and input tables; checks on the specification that the  *)
(* curves go through the data, are smooth, and settle.                           *)
EXTENDS Exo, Schema
Seed == EnvInt("MV_SEED", 1)
N == EnvInt("MV_N", 20)
Out == Env("MV_OUT", "exo.json")
In == Env("MV_IN", "tables.json")        \* the shipped tables, by file name
Shipped == Force(ReadJson(In))

Pick1(seq, key) == seq[HashInt(Len(seq), key) + 1]
VarNames == << "GDP", "emissions", "population" >>
UnitFor == [GDP |-> "currency_unit", emissions |-> "emissionsrate_unit", population |-> "population_unit"]
VariableFor == [GDP |-> "GDP|PPP", emissions |-> "Emissions|CO2", population |-> "Population"]

YearSets == << << 2010, 2020, 2030, 2040, 2050, 2060, 2070, 2080, 2090, 2100 >>,
               << 2010, 2015, 2020, 2025, 2030, 2050, 2060, 2070, 2080, 2090, 2100 >>,
               << 2010, 2011, 2020, 2030, 2045, 2060, 2090, 2100 >>,
               << 2010, 2050, 2090, 2100 >>,
               << 2010, 2020, 2030, 2040, 2050, 2060, 2070, 2080, 2082, 2084, 2090, 2100 >> >>

Regs(key) ==
    LET n == << 1, 2, 3, 5, 26 >>[HashInt(5, << key, "nregions" >>) + 1]
        score(r) == HashInt(1000000, << key, "r", r >>)
        sorted == Fold(LAMBDA acc, r :
                         LET before == SelectSeq(acc, LAMBDA q : score(q) <= score(r))
                             after == SelectSeq(acc, LAMBDA q : score(q) > score(r))
                         IN  before \o << r >> \o after, << >>, Regions26)
    IN  SubSeq(sorted, 1, n)

(* Grids: dtm in thousandths.  Many of them divide the horizon exactly. *)
Steps == << 1999, 3001, 3331, 6667, 9999, 14286, 16667, 500, 570, 575, 625, 675, 690, 700, 750, 1000, 1100, 1140, 1400, 1500, 2000, 2280, 2500, 2800, 3000, 3333, 4000, 5000, 5000,
            5000, 6500, 7000, 7500, 10000, 12500, 15000, 20000 >>
Grid(key) ==
    LET start == << 2020, 2020, 2010, 2015, 2025, 2023, 2043, 2079, 2091, 2100 >>[HashInt(10, << key, "start" >>) + 1]
        dtm == IF HashInt(3, << key, "free" >>) = 0 THEN 500 + HashInt(19500, << key, "dt" >>) ELSE Pick1(Steps, << key, "dt" >>)
        most == IF dtm < 2000 THEN 60 ELSE 280
        h == HashInt(5, << key, "end" >>)
        free == start + 1 + HashInt(Min2(most, 2300 - start), << key, "len" >>)
        (* an end the steps reach exactly, if there is one *)
        exact == { e \in start + 1 .. Min2(start + most, 2300) : ((e - start) * 1000) % dtm = 0 }
        (* ends the steps miss by a hair *)
        hair == { e \in start + 1 .. Min2(start + most, 2300) :
                    LET over == ((e - start) * 1000) % dtm IN dtm > 1000 /\ (over \in 1 .. 3 \/ over >= dtm - 3) }
        anyOf(s) == CHOOSE e \in s : \A f \in s : HashInt(1000, << key, "e", e >>) <= HashInt(1000, << key, "e", f >>)
        end == CASE h \in {0, 1} /\ exact # {} -> anyOf(exact)
                 [] h \in {0, 1, 3} /\ hair # {} -> anyOf(hair)
                 [] h = 2 -> Min2(2300, start + Min2(most, 130))
                 [] OTHER -> free
    IN  [start |-> start, end |-> end, dtm |-> dtm]

Magnitude == [GDP |-> R("2"), emissions |-> R("1.2"), population |-> R("0.3")]
OwnTable(key, regions, names) ==
    LET years == Pick1(YearSets, << key, "years" >>)
        value(v, r, i) == Magnitude[v] * (R("0.2") + Hash01(<< key, v, r, "base" >>))
                          * (1 + (Hash01(<< key, v, r, "trend" >>) * (years[i] - 2010)) / 60 + R("0.3") * Hash01(<< key, v, r, i >>))
        expr(v, r) == DrawExpr(Dimension(TargetNamed(UnitFor[v])), << key, v, IF HashInt(2, << key, "perrow" >>) = 0 THEN r ELSE "all" >>)
        row(v, r, model, scenario, factor) ==
            LET e == Force(expr(v, r))
            IN  [ model |-> model, scenario |-> scenario, region |-> r, variable |-> names.variable[v],
                  unit |-> WriteExpr(e, HashInt(5, << key, v, r, "style" >>)), expr |-> e,
                  values |-> [ i \in 1 .. Len(years) |-> Convert(value(v, r, i) * factor, TargetNamed(UnitFor[v]), e) ] ]
        wanted == Fold(LAMBDA acc, v : acc \o [ i \in 1 .. Len(regions) |-> row(v, regions[i], names.model, names.scenario, 1) ],
                       << >>, VarNames)
        decoys == Fold(LAMBDA acc, v : acc \o << row(v, regions[1], names.model \o "x", names.scenario, 3),
                                                  row(v, regions[1], names.model, names.scenario \o "-old", 5),
                                                  row(v, "OTHER", names.model, names.scenario, 7) >>, << >>, VarNames)
        all == decoys \o wanted
        score(i) == HashInt(1000000, << key, "row", i >>)
        order == Fold(LAMBDA acc, i :
                         SelectSeq(acc, LAMBDA q : score(q) <= score(i)) \o << i >> \o SelectSeq(acc, LAMBDA q : score(q) > score(i)),
                      << >>, [ i \in 1 .. Len(all) |-> i ])
    IN  [years |-> years, rows |-> [ i \in 1 .. Len(order) |-> all[order[i]] ],
         header |-> Pick1(<< "Model,Scenario,Region,Variable,Unit", "model,scenario,region,variable,unit",
                             "MODEL,SCENARIO,REGION,VARIABLE,UNIT" >>, << key, "header" >>)]

Shippeds == << "inputdata/data/data_IMAGE_SSP.csv", "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv" >>
SSPs == << "SSP1", "SSP2", "SSP3", "SSP4", "SSP5" >>

Case(i) ==
    LET key == << Seed, "exo", i >>
        g == Grid(key)
        regions == Regs(key)
        kind == HashInt(5, << key, "kind" >>)
        ssp == Pick1(SSPs, << key, "ssp" >>)
        names == [model |-> Pick1(<< "IMAGE", "Own model" >>, << key, "m" >>), scenario |-> Pick1(<< "SSP2-Ref-SPA0-V17", "base" >>, << key, "s" >>),
                  variable |-> [ v \in {"GDP", "emissions", "population"} |->
                                  IF HashInt(2, << key, "own" >>) = 0 THEN VariableFor[v] ELSE v \o " of mine" ]]
        own == OwnTable(key, regions, names)
        missing == kind = 3 /\ HashInt(3, << key, "missing" >>) = 0
        gone == Pick1(VarNames, << key, "gone" >>)
        dropped == IF missing
                   THEN [own EXCEPT !.rows = SelectSeq(@, LAMBDA r : ~(r.region = regions[Len(regions)] /\ r.model = names.model
                                                                        /\ r.variable = names.variable[gone] /\ r.scenario = names.scenario))]
                   ELSE own
        source(v) ==
            LET f == CASE kind \in {0, 1} -> Shippeds[1]
                       [] kind = 2 -> Pick1(Shippeds, << key, "file", v >>)
                       [] kind = 3 -> "own"
                       [] OTHER -> IF HashInt(2, << key, "file", v >>) = 0 THEN "own" ELSE Pick1(Shippeds, << key, "which", v >>)
            IN  IF f = "own"
                THEN [file |-> f, variable |-> names.variable[v], scenario |-> names.scenario, model |-> names.model, unit |-> UnitFor[v]]
                ELSE [file |-> f, variable |-> VariableFor[v], scenario |-> ssp \o "-Ref-SPA0-V17", model |-> "IMAGE", unit |-> UnitFor[v]]
    IN  [ grid |-> g, regions |-> regions, ssp |-> ssp, byreference |-> kind = 0,
          sources |-> [ v \in {"GDP", "emissions", "population"} |-> source(v) ],
          own |-> IF kind \in {3, 4} THEN << dropped >> ELSE << >> ]

Batch == Force([ i \in 1 .. N |-> Case(i) ])
TableOf(c, v) == IF c.sources[v].file = "own" THEN c.own[1] ELSE Shipped[c.sources[v].file]
Complete5(c) == \A v \in {"GDP", "emissions", "population"} : \A j \in 1 .. Len(c.regions) : HasData(TableOf(c, v), c.sources[v], c.regions[j])

VARIABLES vI, vDone
Init == vI \in 1 .. N /\ vDone = FALSE
Next == /\ ~vDone /\ vDone' = TRUE /\ UNCHANGED vI
        /\ vI = 1 => WriteJson(Out, [ i \in 1 .. N |-> [ok |-> Complete5(Batch[i])] @@ Batch[i] ])
Spec == Init /\ [][Next]_<<vI, vDone>>

c == Batch[vI]
Ys == Force(Years(c.grid.start, c.grid.end, c.grid.dtm))
Pairs == { << v, c.regions[1] >> : v \in {"GDP", "emissions", "population"} }

(* the grid reaches the end, and would not without its last year *)
GridCovers == /\ Ys[1] = c.grid.start
              /\ Ys[Len(Ys)] >= c.grid.end
              /\ Len(Ys) > 1 => Ys[Len(Ys) - 1] < c.grid.end
              /\ \A i \in 1 .. Len(Ys) - 1 : Near(Ys[i + 1] - Ys[i], c.grid.dtm / 1000, 1)
CurvesRight == \A p \in Pairs :
    HasData(TableOf(c, p[1]), c.sources[p[1]], p[2]) =>
      LET k == Force(Curve(TableOf(c, p[1]), c.sources[p[1]], p[2]))
          n == Len(k.x)
          ys == TableOf(c, p[1]).years
          size == MaxOf([ i \in 1 .. n |-> Abs(k.y[i]) ])
      IN  /\ \A i \in 1 .. n : Near(At(k, k.x[i]), k.y[i], size)                \* through the points
          /\ \A i \in 1 .. n - 1 : At(k, k.x[i + 1] - R("1e-9")) - At(k, k.x[i + 1]) <= R("1e-6") * size
          (* the second derivative is continuous at the inner points *)
          /\ \A i \in 2 .. n - 1 :
                LET h0 == k.x[i] - k.x[i - 1]
                    h1 == k.x[i + 1] - k.x[i]
                    left == (2 * k.m[i - 1] + 4 * k.m[i] - (6 * (k.y[i] - k.y[i - 1])) / h0) / h0
                    right == ((6 * (k.y[i + 1] - k.y[i])) / h1 - 4 * k.m[i] - 2 * k.m[i + 1]) / h1
                IN  Abs(left - right) <= R("1e-7") * size
          (* it settles in 2150 *)
          /\ \A y \in 1 .. 14 : Abs(At(k, 2150 + 10 * y) - At(k, 2150)) <= R("1e-9") * size
          (* the growth rate falls linearly: 10 years of it at 100, 80, 60, 40, 20 per cent *)
          /\ \A j \in 0 .. 4 :
                LET l == Len(ys)
                    rate == (k.y[l] - k.y[l - 1]) / (ys[l] - ys[l - 1])
                IN  Near(At(k, 2110 + 10 * j) - At(k, 2100 + 10 * j), rate * (10 - 2 * j), size)
=============================================================================
