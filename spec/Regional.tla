------------------------------ MODULE Regional ------------------------------
(***************************************************************************)
(* Regional parameters: a value set for the region in the configuration     *)
(* wins; otherwise the value comes from the parameter file, converted from   *)
(* the file's region definition to the model's (mean of the numbers, or the  *)
(* common text, of all source regions that map to the region).               *)
(*                                                                          *)
(* The harness hands over the raw input tables:                              *)
(*   T.files[category]  = [type |-> region definition of the file,           *)
(*                         rows |-> sequence of records column -> cell]      *)
(*   T.mappings         = sequence of [a, b, pairs |-> sequence of <<x, y>>] *)
(* Numeric cells are numbers, text cells strings, empty cells "".            *)
(***************************************************************************)
EXTENDS Real, Sequences

(* the source regions that map to region r of definition `to` *)
SourceRegions(T, from, to, r) ==
    IF from = to THEN {r}
    ELSE LET ms == { i \in 1 .. Len(T.mappings) :
                       \/ T.mappings[i].a = from /\ T.mappings[i].b = to
                       \/ T.mappings[i].a = to /\ T.mappings[i].b = from }
             i == CHOOSE j \in ms : \A h \in ms : h <= j     \* the last one wins
             m == T.mappings[i]
         IN  IF m.a = from
             THEN { m.pairs[j][1] : j \in { h \in 1 .. Len(m.pairs) : m.pairs[h][2] = r } }
             ELSE { m.pairs[j][2] : j \in { h \in 1 .. Len(m.pairs) : m.pairs[h][1] = r } }

HasMapping(T, from, to) ==
    from = to \/ \E i \in 1 .. Len(T.mappings) :
                    \/ T.mappings[i].a = from /\ T.mappings[i].b = to
                    \/ T.mappings[i].a = to /\ T.mappings[i].b = from

FromFile(T, cat, name, r, to) ==
    LET f == T.files[cat]
        src == SourceRegions(T, f.type, to, r)
        rows == { i \in 1 .. Len(f.rows) : f.rows[i].region \in src }
        full == { i \in rows : ~IsText(f.rows[i][name]) }
    IN  IF full # {}
        THEN Sum([ i \in full |-> f.rows[i][name] ]) / Sum([ i \in full |-> 1 ])
        ELSE f.rows[CHOOSE i \in rows : TRUE][name]

(* overrides: region -> category -> name -> value *)
HasOverride(O, r, cat, name) ==
    r \in DOMAIN O /\ cat \in DOMAIN O[r] /\ name \in DOMAIN O[r][cat]

RegionalValue(T, O, cat, name, r, to) ==
    IF HasOverride(O, r, cat, name) THEN O[r][cat][name] ELSE FromFile(T, cat, name, r, to)
=============================================================================
