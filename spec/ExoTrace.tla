------------------------------- MODULE ExoTrace -------------------------------
(* Judges the paths and the years of real models.  A record of the trace:       *)
(*  [built, years, v -> region -> sequence of values, queries]; queries are      *)
(*  values asked from the data store out of order: [v, r, i, value].             *)
EXTENDS Exo
Batch == Force(ReadJson(Env("MV_CASES", "exo.json")))
Shipped == Force(ReadJson(Env("MV_IN", "tables.json")))
Trace == Force(ReadJson(Env("MV_TRACE", "trace.json")))
Out == Env("MV_OUT", "verdict")

TableOf(c, v) == IF c.sources[v].file = "own" THEN c.own[1] ELSE Shipped[c.sources[v].file]
Vs == << "GDP", "emissions", "population" >>
Problem(i, what, v, r, year, want, got) ==
    << [i |-> i, what |-> what, v |-> v, r |-> r, year |-> year, want |-> want, got |-> got] >>

Judge(i) ==
    LET c == Batch[i]
        g == Trace[i]
        ys == Force(Years(c.grid.start, c.grid.end, c.grid.dtm))
    IN  IF g.built # c.ok THEN Problem(i, IF g.built THEN "built without data" ELSE "not built", "", "", 0, 0, 0)
        ELSE IF ~g.built THEN << >>
        ELSE IF Len(g.years) # Len(ys) \/ \E j \in 1 .. Len(ys) : Abs(g.years[j] - ys[j]) > R("1e-6")
        THEN Problem(i, "years", "", "", 0, ys, g.years)
        ELSE Fold(LAMBDA acc, v :
               acc \o Fold(LAMBDA a2, r :
                  LET k == Force(Curve(TableOf(c, v), c.sources[v], r))
                      size == MaxOf([ j \in 1 .. Len(k.y) |-> Abs(k.y[j]) ])
                      wrong == { j \in 1 .. Len(ys) : ~Close(g.paths[v][r][j], At(k, ys[j]), size) }
                      asked == { q \in 1 .. Len(g.queries) : g.queries[q].v = v /\ g.queries[q].r = r
                                     /\ ~Close(g.queries[q].value, At(k, ys[g.queries[q].i]), size) }
                  IN  a2 \o (IF wrong = {} THEN << >>
                             ELSE LET j == CHOOSE x \in wrong : \A y \in wrong : x <= y
                                  IN Problem(i, "path", v, r, ys[j], At(k, ys[j]), g.paths[v][r][j]))
                         \o (IF asked = {} THEN << >>
                             ELSE LET q == CHOOSE x \in asked : TRUE
                                  IN Problem(i, "query", v, r, ys[g.queries[q].i], At(k, ys[g.queries[q].i]), g.queries[q].value)),
                  << >>, c.regions), << >>, Vs)

VARIABLES vI, vBad
Init == vI \in 1 .. Len(Trace) /\ vBad = << >>
Next == /\ vBad = << >>
        /\ LET v == Judge(vI) IN
             /\ vBad' = << v >>
             /\ v # << >> => WriteJson(Out \o "-" \o ToString(vI) \o ".json", v)
        /\ UNCHANGED vI
Spec == Init /\ [][Next]_<<vI, vBad>>
=============================================================================
