-------------------------------- MODULE RegGen --------------------------------
(* Draws regional tables, conversions and overrides (C07); checks on the         *)
(* specification that values are means of their sources, that overrides win and    *)
(* touch nothing else.                                                             *)
EXTENDS Regional, Schema, SeqFolds, FiniteSets, TLC
Seed == EnvInt("MV_SEED", 1)
N == EnvInt("MV_N", 20)
Out == Env("MV_OUT", "reg.json")
Shipped == Force(ReadJson(Env("MV_IN", "tables.json")))

Pick1(seq, key) == seq[HashInt(Len(seq), key) + 1]
Shuffle(seq, key) ==
    LET score == Force([ i \in 1 .. Len(seq) |-> HashInt(1000000, << key, "s", i >>) ])
        order == SortSeq([ i \in 1 .. Len(seq) |-> i ], LAMBDA p, q : score[p] < score[q])
    IN  [ i \in 1 .. Len(seq) |-> seq[order[i]] ]
Some(seq, n, key) == SubSeq(Shuffle(seq, key), 1, Min2(n, Len(seq)))

Quantiles == << "0.025", "0.05", "0.16", "0.25", "0.33", "0.5", "0.67", "0.75", "0.84", "0.95", "0.975" >>
Prefixes == << "NoSLR", "SLR-NoAd", "SLR-Ad" >>
Coefs == << "_form", "_b1", "_b2", "_b3" >>
CoacchColumns ==
    Fold(LAMBDA acc, p : acc \o [ i \in 1 .. 4 |-> p \o Coefs[i] ]
                         \o [ i \in 1 .. 11 |-> p \o "_a (q=" \o Quantiles[i] \o ")" ], << >>, Prefixes)
    \o Fold(LAMBDA acc, a : acc \o [ i \in 1 .. 11 |-> "combined_b1_" \o a \o "-q" \o Quantiles[i] ]
                            \o [ i \in 1 .. 11 |-> "combined_b2_" \o a \o "-q" \o Quantiles[i] ], << >>, << "Ad", "NoAd" >>)
MortColumns == << "oldest_a", "oldest_b", "oldest_c", "older_a", "older_b", "older_c", "young_a", "young_b", "young_c" >>
ColumnsOf == [ economics |-> << "init_capital_factor" >>, MAC |-> Kappas, COACCH |-> CoacchColumns, mortality |-> MortColumns ]
Cats == << "economics", "MAC", "COACCH", "mortality" >>

Digits(x) == Floor(x * 100000) / 100000
Rand(lo, hi, key) == Digits(lo + (hi - lo) * Hash01(key))
IsForm(name) == \E p \in {"NoSLR", "SLR-NoAd", "SLR-Ad"} : name = p \o "_form"

----------------------------------------------------------------------------
(* Own tables: the model's regions, a coarser or finer classification, files in either *)
Names == << "North", "South", "East", "World", "X 1", "R-2" >>
Blocks == << "b1", "b2", "b3", "b4", "b5", "b6", "North" >>
Types == << "IMAGE26", "SSP5", "World" >>

OwnTables(key, regions, type) ==
    LET form == Pick1(<< "Robust-Quadratic", "Robust-Linear", "Robust-Logistic" >>, << key, "form" >>)
        pairs == Shuffle(
                   Fold(LAMBDA acc, r : acc \o [ i \in 1 .. HashInt(3, << key, "n", r >>) + 1 |->
                                                   << r, Some(Blocks, 3, << key, "to", r >>)[i] >> ], << >>, Names)
                   \o << << "Nowhere", "b1" >>, << "Nowhere", "b9" >> >>, << key, "pairs" >>)
        flipped == HashInt(2, << key, "flip" >>) = 0
        mapping == IF flipped THEN [a |-> type, b |-> "Blocks", pairs |-> pairs]
                   ELSE [a |-> "Blocks", b |-> type, pairs |-> [ i \in 1 .. Len(pairs) |-> << pairs[i][2], pairs[i][1] >> ]]
        (* the same blocks map to something else, too: not to be used *)
        decoy == [a |-> "Other", b |-> "Blocks", pairs |-> << << regions[1], "b6" >>, << regions[1], "b5" >> >>]
        decoy2 == [a |-> type, b |-> "Others", pairs |-> << << regions[1], "b6" >>, << regions[1], "b5" >> >>]
        cell(cat, name, row) ==
            IF IsForm(name) THEN form
            ELSE IF HashInt(12, << key, cat, name, row, "empty" >>) = 0 /\ (name = "NoSLR_b3" \/ name = "SLR-Ad_b3" \/ cat = "extra") THEN ""
            ELSE IF cat = "extra" /\ HashInt(5, << key, cat, name, row, "whole" >>) = 0 THEN HashInt(50, << key, cat, name, row >>)
            ELSE Rand(R("0.2"), 2, << key, cat, name, row >>)
        file(cat) ==
            LET own == HashInt(2, << key, cat, "type" >>) = 0
                rows == Shuffle(IF own THEN Names ELSE Blocks, << key, cat, "rows" >>)
                cols == IF cat = "extra" THEN << "one", "two (x)", "three" >> ELSE ColumnsOf[cat]
            IN  [ type |-> IF own THEN type ELSE "Blocks",
                  columns |-> Shuffle(cols, << key, cat, "cols" >>),
                  rows |-> [ i \in 1 .. Len(rows) |->
                              [ c \in {"region"} \union { cols[j] : j \in 1 .. Len(cols) } |->
                                  IF c = "region" THEN rows[i] ELSE cell(cat, c, rows[i]) ] ] ]
    IN  [ files |-> [ cat \in { Cats[i] : i \in 1 .. 4 } \union {"extra"} |-> file(cat) ],
          mappings |-> Shuffle(<< decoy, decoy2, mapping >>, << key, "mappings" >>) ]

----------------------------------------------------------------------------
Ask(key, own) ==
    LET pick(cat, n) == LET cs == IF cat = "extra" THEN << "one", "two (x)", "three" >> ELSE ColumnsOf[cat]
                        IN  Some([ j \in 1 .. Len(cs) |-> << cat, cs[j] >> ], n, << key, "ask", cat >>)
    IN  pick("economics", 1) \o pick("mortality", 9) \o pick("MAC", 8) \o pick("COACCH", 24)
        \o (IF own THEN pick("extra", 3) ELSE << >>)

(* values set for a region: some of the columns asked for, and some others *)
DrawOverrides(key, regions, ask) ==
    LET which == { r \in Elements(regions) : HashInt(2, << key, "over", r >>) = 0 }
        names(r) == LET k == HashInt(4, << key, "over", r, "n" >>) + 1
                    IN  Some(ask, k, << key, "over", r, "which" >>)
        val(r, cn) == IF IsForm(cn[2]) THEN "Robust-Linear"
                      ELSE CASE HashInt(6, << key, r, cn, "kind" >>) = 0 -> HashInt(4, << key, r, cn >>)      \* 0, 1, 2, 3
                             [] OTHER -> Rand(R("-1"), 3, << key, r, cn >>)
    IN  [ r \in which |->
            LET ns == { names(r)[i] : i \in 1 .. Len(names(r)) }
            IN  [ cat \in { n[1] : n \in ns } |-> [ name \in { n[2] : n \in { x \in ns : x[1] = cat } } |-> val(r, << cat, name >>) ] ] ]

(* categories a region mentions without setting anything in them: empty, or null *)
DrawBlanks(key, regions, overrides) ==
    [ r \in { x \in Elements(regions) : HashInt(3, << key, "blank", x >>) = 0 } |->
        LET cats == { cat \in Elements(Cats) : /\ ~(r \in DOMAIN overrides /\ cat \in DOMAIN overrides[r])
                                               /\ HashInt(2, << key, "blank", r, cat >>) = 0 }
        IN  [ cat \in cats |-> HashInt(2, << key, "null", r, cat >>) = 0 ] ]

Case(i) ==
    LET key == << Seed, "reg", i >>
        own == HashInt(3, << key, "own" >>) # 0
        type == IF own THEN Pick1(Types, << key, "type" >>) ELSE "IMAGE26"
        all == IF own THEN Names ELSE Regions26
        n == HashInt(IF HashInt(8, << key, "all" >>) = 0 THEN Len(all) ELSE 4, << key, "n" >>) + 1
        regions == Some(all, n, << key, "regions" >>)
        ask == Force(Ask(key, own))
        tables == IF own THEN << OwnTables(key, regions, type) >> ELSE << >>
        overrides == Force(DrawOverrides(key, regions, ask))
    IN  [ type |-> type, regions |-> regions, ask |-> ask, tables |-> tables, overrides |-> overrides,
          blanks |-> DrawBlanks(key, regions, overrides),
          quantile |-> Pick1(Quantiles, << key, "q" >>), adapt |-> HashInt(2, << key, "adapt" >>) = 0,
          combined |-> HashInt(4, << key, "combined" >>) = 0, kappa |-> Pick1(Kappas, << key, "kappa" >>),
          damage |-> IF HashInt(4, << key, "dmg" >>) = 0 THEN "nodamage" ELSE "COACCH" ]

Batch == Force([ i \in 1 .. N |-> Case(i) ])

VARIABLES vI, vDone
Init == vI \in 1 .. N /\ vDone = FALSE
Next == /\ ~vDone /\ vDone' = TRUE /\ UNCHANGED vI
        /\ vI = 1 => WriteJson(Out, Batch)
Spec == Init /\ [][Next]_<<vI, vDone>>

c == Batch[vI]
T == IF c.tables = << >> THEN Shipped ELSE c.tables[1]
NoOver == [ r \in {} |-> 0 ]
OverridesWin == \A r \in DOMAIN c.overrides : \A cat \in DOMAIN c.overrides[r] : \A name \in DOMAIN c.overrides[r][cat] :
                  RegionalValue(T, c.overrides, cat, name, r, c.type) = c.overrides[r][cat][name]
OthersKeep == \A i \in 1 .. Len(c.ask) : \A j \in 1 .. Len(c.regions) :
    LET cat == c.ask[i][1]
        name == c.ask[i][2]
        r == c.regions[j]
    IN  HasOverride(c.overrides, r, cat, name)
        \/ RegionalValue(T, c.overrides, cat, name, r, c.type) = RegionalValue(T, NoOver, cat, name, r, c.type)
MeansOfSources == \A i \in 1 .. Len(c.ask) : \A j \in 1 .. Len(c.regions) :
    LET cat == c.ask[i][1]
        name == c.ask[i][2]
        f == T.files[cat]
        src == SourceRegions(T, f.type, c.type, c.regions[j])
        rows == { k \in 1 .. Len(f.rows) : f.rows[k].region \in src /\ ~IsText(f.rows[k][name]) }
        x == FromFile(T, cat, name, c.regions[j], c.type)
    IN  rows # {} => /\ \E k \in rows : f.rows[k][name] <= x + R("1e-9")
                     /\ \E k \in rows : f.rows[k][name] >= x - R("1e-9")
=============================================================================
