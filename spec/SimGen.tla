-------------------------------- MODULE SimGen --------------------------------
(* Draws settings of simulation mode; checks on the specification that the held  *)
(* paths go through the data, settle in 2150 and that nothing is held without it.  *)
EXTENDS SimMode, Schema
Seed == EnvInt("MV_SEED", 1)
N == EnvInt("MV_N", 20)
Out == Env("MV_OUT", "sim.json")
In == Env("MV_IN", "names.json")
(* per module choice: [modules, regional: names of variables, global: names, constraints: names] *)
Offered == Force(ReadJson(In))

Pick1(seq, key) == seq[HashInt(Len(seq), key) + 1]
Shuffle(seq, key) ==
    LET score == Force([ i \in 1 .. Len(seq) |-> HashInt(1000000, << key, "s", i >>) ])
        order == SortSeq([ i \in 1 .. Len(seq) |-> i ], LAMBDA p, q : score[p] < score[q])
    IN  [ i \in 1 .. Len(seq) |-> seq[order[i]] ]
Some(seq, n, key) == SubSeq(Shuffle(seq, key), 1, Min2(n, Len(seq)))

Every(from, to, by) == [ i \in 1 .. ((to - from) \div by) + 1 |-> from + (i - 1) * by ]
YearSets == << Every(2020, 2100, 10), Every(2025, 2150, 5), Every(2020, 2150, 5), Every(2020, 2050, 5), Every(2030, 2100, 10),
               Every(2020, 2148, 8), Every(2020, 2145, 5), Every(2020, 2144, 4),
               << 2020, 2025, 2030, 2040, 2060, 2100 >>, << 2015, 2050, 2075, 2100 >>, << 2010, 2020, 2100, 2140 >>,
               Every(2020, 2200, 20), << 2020, 2100 >>, << 2015, 2060 >>, << 2020, 2050, 2100 >> >>

Rounded(x) == Floor(x * 1000000) / 1000000
Values(years, key) ==
    LET base == R("0.2") + 2 * Hash01(<< key, "base" >>)
        trend == 2 * Hash01(<< key, "trend" >>) - 1
    IN  [ i \in 1 .. Len(years) |-> Rounded(base * (1 + (trend * (years[i] - 2010)) / 80 + R("0.15") * Hash01(<< key, i >>))) ]

Others == << "temperature", "GDP_net", "regional_emissions", "my own variable" >>
Case(i) ==
    LET key == << Seed, "sim", i >>
        o == Pick1(Offered, << key, "offer" >>)
        regions == Some(Regions26, IF i = 8 THEN 26 ELSE HashInt(4, << key, "n" >>) + 1, << key, "regions" >>)
        n == << 1, 1, 2, 3, 4, 0 >>[HashInt(6, << key, "pins" >>) + 1]
        nreg == HashInt(n + 1, << key, "nreg" >>)
        chosen == [ j \in 1 .. nreg |-> [v |-> Some(o.regional, nreg, << key, "r" >>)[j], regional |-> TRUE] ]
                  \o [ j \in 1 .. n - nreg |-> [v |-> Some(o.global, n - nreg, << key, "g" >>)[j], regional |-> FALSE] ]
        order == Shuffle(chosen, << key, "order" >>)
        fileYears == [A |-> Pick1(YearSets, << key, "A" >>), B |-> Pick1(YearSets, << key, "B" >>)]
        pin(j) ==
            LET p == order[j]
                from == << "A", "B", "dict", "dict" >>[HashInt(4, << key, "from", p.v >>) + 1]
                years == IF from = "dict" THEN Pick1(YearSets, << key, "years", p.v >>) ELSE fileYears[from]
                extra == Some(Regions26, 3, << key, "more", p.v >>)
                names == Elements(regions) \union (IF HashInt(2, << key, "more" >>) = 0 THEN Elements(extra) ELSE {})
            IN  [ v |-> p.v, regional |-> p.regional, from |-> from, years |-> years,
                  keys |-> Pick1(<< "int", "str", "float" >>, << key, "keys", p.v >>),
                  data |-> [ r \in (IF p.regional THEN names ELSE {"Global"}) |-> Values(years, << key, p.v, r >>) ] ]
        pins == [ j \in 1 .. n |-> pin(j) ]
        fileOf(f) ==
            LET rows == Fold(LAMBDA acc, p : acc \o (LET rs == AsSeq(DOMAIN p.data)
                                                     IN [ k \in 1 .. Len(rs) |-> << p.v, rs[k], p.data[rs[k]] >> ]),
                             << >>, SelectSeq(pins, LAMBDA p : p.from = f))
                have == { << rows[k][1], rows[k][2] >> : k \in 1 .. Len(rows) }
                decoyVars == Elements(Others) \ { pins[k].v : k \in { h \in 1 .. n : pins[h].from = f } }
                decoys == AsSeq({ << v, r, Values(fileYears[f], << key, f, "decoy", v, r >>) >> :
                                     v \in decoyVars, r \in Elements(regions) \union {"Global"} })
            IN  [ name |-> f, years |-> fileYears[f], rows |-> Shuffle(rows \o decoys, << key, f, "rows" >>),
                  unit |-> HashInt(2, << key, f, "unit" >>) = 0, glob |-> HashInt(3, << key, f, "glob" >>) = 0 ]
        noff == << 0, 1, 2, 4 >>[HashInt(4, << key, "noff" >>) + 1]
    IN  [ mode |-> HashInt(5, << key, "mode" >>) # 0, modules |-> o.modules, regions |-> regions,
          grid |-> [ start |-> Pick1(<< 2020, 2020, 2020, 2025, 2015 >>, << key, "start" >>),
                     end |-> Pick1(<< 2050, 2100, 2150, 2070, 2055 >>, << key, "end" >>),
                     dtm |-> Pick1(<< 5000, 10000, 5000, 2500, 7000 >>, << key, "dt" >>) ],
          pins |-> pins, files |-> << fileOf("A"), fileOf("B") >>,
          off |-> Some(o.constraints, noff, << key, "off" >>),
          custom |-> IF HashInt(5, << key, "custom" >>) = 0
                     THEN Some(<< [p |-> "TCRE", at |-> "", x |-> Rounded(Hash01(<< key, "x1" >>))],
                                  [p |-> "alpha", at |-> "", x |-> Rounded(Hash01(<< key, "x2" >>))],
                                  [p |-> "MAC_scaling_factor", at |-> "regions", x |-> Rounded(Hash01(<< key, "x3" >>))],
                                  [p |-> "population", at |-> "periods", x |-> Rounded(Hash01(<< key, "x4" >>))] >>,
                               2, << key, "customs" >>)
                     ELSE << >> ]

Batch == Force([ i \in 1 .. N |-> Case(i) ])

VARIABLES vI, vApplied, vHeld, vInactive
Init == vI \in 1 .. N /\ vApplied = FALSE /\ vHeld = {} /\ vInactive = {}
Next == /\ ~vApplied /\ vApplied' = TRUE
        /\ vHeld' = Pinned(Batch[vI]) /\ vInactive' = Off(Batch[vI])
        /\ UNCHANGED vI
        /\ vI = 1 => WriteJson(Out, Batch)
Spec == Init /\ [][Next]_<<vI, vApplied, vHeld, vInactive>>

c == Batch[vI]
NothingWithout == ~c.mode => vHeld = {} /\ vInactive = {}
PathsRight == \A i \in 1 .. Len(c.pins) :
    LET p == c.pins[i]
        r == CHOOSE x \in DOMAIN p.data : TRUE
        k == Force(SimCurve(p.years, p.data[r]))
        n == Len(k.x)
        size == MaxOf([ j \in 1 .. n |-> Abs(k.y[j]) ])
        last == p.years[Len(p.years)]
    IN  /\ \A j \in 1 .. Len(p.years) : Abs(At(k, p.years[j]) - p.data[r][j]) <= R("1e-9") * size
        /\ k.x[n] <= Max2(2150, last) /\ \A j \in 2 .. n : k.x[j - 1] < k.x[j]
        (* the growth beyond the data keeps the sign of the last growth and falls *)
        /\ \A j \in Len(p.years) + 1 .. n - 1 : Abs(k.y[j + 1] - k.y[j]) <= Abs(k.y[j] - k.y[j - 1]) * R("2.5") + R("1e-9")
        /\ \A j \in Len(p.years) + 1 .. n :
              (k.y[j] - k.y[j - 1]) * (p.data[r][Len(p.years)] - p.data[r][Len(p.years) - 1]) >= -R("1e-12")
=============================================================================
