------------------------------ MODULE SessionGen ------------------------------
(* Draws configurations that share files, names and regions as much as they can,  *)
(* and histories of operations; checks invariants of the specification along them.  *)
EXTENDS Session, Schema, Scenarios, FiniteSets
Seed == EnvInt("MV_SEED", 1)
N == EnvInt("MV_N", 40)                   \* histories
K == EnvInt("MV_K", 12)                   \* configurations
L == EnvInt("MV_L", 10)                   \* operations per history
Focus3 == Env("MV_FOCUS", "build")        \* build, solve, save
PairsToo == EnvInt("MV_PAIRS", 0) = 1      \* add the histories "build i, build j" for all i, j
Out == Env("MV_OUT", "session.json")

One(seq, key) == seq[HashInt(Len(seq), key) + 1]
Files == << "S1", "S2", "A", "B", "A" >>
RegionSets == << << "MEX" >>, << "MEX", "WEU" >>, << "WEU", "MEX" >>, << "WEU", "USA", "CHN" >> >>
Modules3 == << << "COACCH", "notrade", "notransfer", "welfare_loss_minimising", "utility" >>,
               << "nodamage", "notrade", "notransfer", "welfare_loss_minimising", "utility" >>,
               << "COACCH", "emissiontrade", "globaldamagepool", "cost_minimising", "globalcosts" >>,
               << "COACCH", "globalcostpool", "notransfer", "inequal_aversion_general", "utility" >> >>

Data == {"GDP", "emissions", "population"}
Config(i) ==
    LET key == << Seed, "session", Focus3, i >>
        f == One(Files, << key, "f" >>)
        mixed == HashInt(3, << key, "mixed" >>) = 0
        file(v) == IF mixed THEN One(Files, << key, "f", v >>) ELSE f
        (* the files of the user's own have data of two models and two variables of each kind *)
        other(v, what) == HashInt(4, << key, what, v >>) = 0 /\ file(v) \in {"A", "B"}
        wide == HashInt(3, << key, "wide" >>) = 0 /\ Focus3 # "solve"
    IN  [ ssp |-> One(<< "SSP1", "SSP2" >>, << key, "ssp" >>),
          files |-> [ v \in Data |-> file(v) ],
          twin |-> [ v \in Data |-> other(v, "twin") ], made |-> [ v \in Data |-> IF other(v, "made") THEN "OTHER" ELSE "IMAGE" ],
          regions |-> One(RegionSets, << key, "regions" >>),
          grid |-> One(<< [start |-> 2020, end |-> 2050, dt |-> 10], [start |-> 2020, end |-> 2050, dt |-> 5],
                          [start |-> 2025, end |-> 2065, dt |-> 10], [start |-> 2020, end |-> 2030, dt |-> 2] >>, << key, "grid" >>),
          modules |-> One(Modules3, << key, "modules" >>),
          over |-> HashInt(3, << key, "over" >>),
          regtable |-> One(<< "", "", "M1", "M2" >>, << key, "regtable" >>),
          sim |-> IF HashInt(3, << key, "sim" >>) = 0 THEN 1 + HashInt(2, << key, "simkind" >>) ELSE 0,
          budget |-> One(<< "1000 GtCO2", "500000 MtCO2", "600 GtCO2" >>, << key, "budget" >>),
          sc |-> IF wide THEN << Scenario(Seed, "any", i) >> ELSE << >> ]

(* One configuration, and for every option the same one with this option changed *)
Changed ==
    << "time - start" :> Val(2015), "time - end" :> Val(2060), "time - dt" :> Val(5), "time - dt" :> Val(R("7.5")),
       "model - emissiontrade module" :> Val("emissiontrade"), "model - emissiontrade module" :> Val("globalcostpool"),
       "model - financialtransfer module" :> Val("globaldamagepool"),
       "effort sharing - regime" :> Val("equal_mitigation_costs"), "effort sharing - regime" :> Val("equal_total_costs"),
       "economics - emission trade - min rel payment level" :> Val(R("0.4")), "economics - emission trade - max rel payment level" :> Val(3),
       "simulation - simulationmode" :> Val(TRUE), "simulation - deactivated_constraints" :> Val(<< "carbon_budget" >>) >>
    \o Fold(LAMBDA acc, path :
              LET default == OptionOf(path)
                  was == IF default.type = "quantity" /\ default.default.k # "bool" THEN default.default_val ELSE default.default.v
                  differs(k) == LET x == Draw(path, << "change", Seed, k >>).v
                                IN  ToString(x) # ToString(was) /\ ~(IsNum(x) /\ IsNum(was) /\ Abs(x - was) < R("1e-12"))
                  k == IF \E j \in 1 .. 30 : differs(j) THEN CHOOSE j \in 1 .. 30 : differs(j) /\ \A h \in 1 .. j - 1 : ~differs(h) ELSE 0
              IN  IF path = "SSP" \/ k = 0 THEN acc ELSE Append(acc, path :> Draw(path, << "change", Seed, k >>)),
            << >>, Drawn)
Plain == [ssp |-> "SSP2", files |-> [ v \in Data |-> "S1" ],
          twin |-> [ v \in Data |-> FALSE ], made |-> [ v \in Data |-> "IMAGE" ], regions |-> << "MEX", "WEU" >>,
          grid |-> [start |-> 2020, end |-> 2050, dt |-> 10], modules |-> << >>, over |-> 0, regtable |-> "", sim |-> 0, budget |-> "",
          sc |-> << [id |-> "changed", regions |-> << "MEX", "WEU" >>, overrides |-> << >>,
                     set |-> ("time - end" :> Val(2050)) @@ ("time - dt" :> Val(10)) @@ ("model - welfare module" :> Val("inequal_aversion_general"))] >>]
With(change) == [Plain EXCEPT !.sc[1].set = change @@ @]
Own == [Plain EXCEPT !.files = [ v \in Data |-> "A" ]]
OtherData == << Own >> \o Fold(LAMBDA acc, v :
                 acc \o << [Own EXCEPT !.files[v] = "B"], [Own EXCEPT !.twin[v] = TRUE], [Own EXCEPT !.made[v] = "OTHER"] >>,
               << >>, << "GDP", "emissions", "population" >>)
             \o << [Own EXCEPT !.twin["emissions"] = TRUE, !.made["emissions"] = "OTHER"], [Own EXCEPT !.ssp = "SSP1"] >>
Variants == << Plain >> \o [ j \in 1 .. Len(Changed) |-> With(Changed[j]) ]
            \o << [Plain EXCEPT !.ssp = "SSP3"], [Plain EXCEPT !.files.GDP = "S2"], [Plain EXCEPT !.files.emissions = "S2"],
                  [Plain EXCEPT !.files.population = "S2"], [Plain EXCEPT !.sc[1].regions = << "MEX", "USA" >>],
                  [Plain EXCEPT !.sc[1].regions = << "MEX", "WEU", "USA" >>], [Plain EXCEPT !.sc[1].regions = << "MEX" >>], [Plain EXCEPT !.sc[1].regions = AllRegions],
                  [Plain EXCEPT !.sc[1].overrides = "WEU" :> ("economics" :> ("init_capital_factor" :> R("2.2")))],
                  [Plain EXCEPT !.sc[1].overrides = "MEX" :> ("economics" :> ("init_capital_factor" :> R("2.2")))],
                  [Plain EXCEPT !.sc[1].overrides = "MEX" :> ("COACCH" :> ("NoSLR_b1" :> R("0.77")))] >>
            \o OtherData

Cfgs == Force([ i \in 1 .. K |-> Config(i) ] \o (IF Focus3 \in {"build", "save"} THEN Variants ELSE << >>))

----------------------------------------------------------------------------
Weights == [ build |-> << "build", "build", "build", "build", "bad", "rewrite", "rewrite", "solve", "save", "query", "edit" >>,
             solve |-> << "build", "solve", "solve", "solve", "solve", "solve", "solve", "query", "save" >>,
             save |-> << "build", "build", "solve", "save", "save", "save", "save", "reload", "reload", "rewrite", "edit" >> ]
BadKinds == << "unknown key", "missing region", "missing scenario", "bad number", "missing file" >>
Folders == << "output", "out put", "deep/er/folder", "output" >>
Names3 == << "run", "run", "run 2", "a.b", "cb_500.0" >>

OptionsOf(key, kind) ==
    [ halt |-> One(<< "", "", "yes", "no" >>, << key, "halt" >>), maxiter |-> One(<< -1, -1, 0, 1, 500 >>, << key, "iter" >>),
      output |-> One(<< "", "", "ipopt.out" >>, << key, "outp" >>), verbose |-> HashInt(2, << key, "verbose" >>) = 0,
      neos |-> IF kind = "stub" THEN One(<< "", "", "", "", "a@b.c", "-" >>, << key, "neos" >>) ELSE "" ]

DrawOp(s, key, kind) ==
    LET what == IF Len(s.models) = 0 THEN One(<< "build", "build", "bad", "rewrite" >>, << key, "first" >>)
                ELSE One(Weights[Focus3], << key, "what" >>)
        m == HashInt(Len(s.models), << key, "m" >>) + 1
        savedOnes == { s.saved[i].m : i \in 1 .. Len(s.saved) }
    IN  CASE what = "build" \/ (what = "reload" /\ savedOnes = {}) ->
               [op |-> "build", c |-> HashInt(K, << key, "c" >>) + 1]
          [] what = "reload" -> [op |-> "reload", m |-> CHOOSE x \in savedOnes : \A y \in savedOnes :
                                    HashInt(1000, << key, "re", x >>) <= HashInt(1000, << key, "re", y >>)]
          [] what = "bad" -> [op |-> "bad", c |-> HashInt(K, << key, "c" >>) + 1, kind |-> One(BadKinds, << key, "kind" >>)]
          [] what = "rewrite" -> [op |-> "rewrite", f |-> One(Owned, << key, "f" >>)]
          [] what = "solve" -> [op |-> "solve", m |-> m, outcome |-> One(IF kind = "exe" THEN << "ok", "ok", "warning", "error", "crash" >> ELSE << "ok", "ok" >> \o Outcomes,
                                               << key, "outcome" >>),
                                loads |-> kind = "exe" \/ HashInt(4, << key, "loads" >>) # 0, point |-> HashInt(5, << key, "p" >>),
                                options |-> OptionsOf(key, kind)]
          [] what = "save" -> [op |-> "save", m |-> m, name |-> One(Names3, << key, "name" >>), hash |-> HashInt(2, << key, "hash" >>) = 0,
                               folder |-> One(Folders, << key, "folder" >>)]
          [] what = "query" -> [op |-> "query", m |-> m]
          [] OTHER -> [op |-> "edit", c |-> HashInt(K, << key, "c" >>) + 1]

History(i) ==
    LET key == << Seed, "history", Focus3, i >>
        kind == IF HashInt(4, << key, "kind" >>) = 0 /\ Focus3 # "build" THEN "exe" ELSE "stub"
        all == Fold(LAMBDA acc, k :
                      LET op == Force(DrawOp(acc.s, << key, k >>, kind))
                      IN  [s |-> Force(Apply(Cfgs, acc.s, op)), ops |-> Append(acc.ops, op)],
                    [s |-> Start, ops |-> << >>], [ k \in 1 .. L |-> k ])
    IN  [kind |-> kind, ops |-> all.ops]
PairHistories ==
    IF ~PairsToo THEN << >>
    ELSE [ j \in 1 .. K * K |->
             [kind |-> "stub", ops |-> << [op |-> "build", c |-> ((j - 1) \div K) + 1], [op |-> "build", c |-> ((j - 1) % K) + 1] >>] ]
(* build, change a file that is read, build again, change it back, build *)
Uses == Fold(LAMBDA acc, i : Fold(LAMBDA got, f : IF UsesFile(Cfgs[i], f) THEN Append(got, << i, f >>) ELSE got, acc, Owned),
             << >>, [ i \in 1 .. K |-> i ])
RewriteHistories ==
    IF Focus3 # "build" THEN << >>
    ELSE [ j \in 1 .. Len(Uses) |->
             LET b == [op |-> "build", c |-> Uses[j][1]]
                 w == [op |-> "rewrite", f |-> Uses[j][2]]
             IN  [kind |-> "stub", ops |-> << b, w, b, w, b >>] ]
(* everything saved beside everything else *)
TagHistory ==
    IF Focus3 # "save" THEN << >>
    ELSE << [kind |-> "stub",
             ops |-> [ j \in 1 .. 2 * K |-> IF j <= K THEN [op |-> "build", c |-> j]
                                           ELSE [op |-> "save", m |-> j - K, name |-> "run", hash |-> TRUE, folder |-> "output"] ]] >>
(* the plain configuration, some with an option changed, and the plain one again *)
Chunk == 7
VariantHistories ==
    IF Focus3 = "solve" THEN << >>
    ELSE LET n == Len(Cfgs) - K - 1                        \* the plain one is number K + 1
             Build(c) == [op |-> "build", c |-> c]
             Save(m) == [op |-> "save", m |-> m, name |-> "run", hash |-> TRUE, folder |-> "output"]
             Part(j) == LET first == (j - 1) * Chunk + 1
                            cs == << K + 1 >> \o [ h \in 1 .. Min2(Chunk, n - first + 1) |-> K + first + h ]
                        IN  IF Focus3 = "build" THEN [ h \in 1 .. Len(cs) |-> Build(cs[h]) ] \o << Build(K + 1), Build(cs[2]) >>
                            ELSE [ h \in 1 .. Len(cs) |-> Build(cs[h]) ] \o [ h \in 1 .. Len(cs) |-> Save(h) ]
                                 \o [ h \in 1 .. Len(cs) - 1 |-> [op |-> "reload", m |-> h + 1] ]
         IN  [ j \in 1 .. (n + Chunk - 1) \div Chunk |-> [kind |-> "stub", ops |-> Part(j)] ]
(* every outcome after every other, on one model *)
OutcomeHistories ==
    IF Focus3 # "solve" THEN << >>
    ELSE [ j \in 1 .. Len(Outcomes) |->
             LET Sv(o, k) == [op |-> "solve", m |-> 1, outcome |-> o, loads |-> TRUE, point |-> k,
                             options |-> [halt |-> "", maxiter |-> -1, output |-> "", verbose |-> FALSE, neos |-> ""]]
             IN  [kind |-> "stub",
                  ops |-> << [op |-> "build", c |-> ((j - 1) % K) + 1] >>
                          \o [ k \in 1 .. 2 * Len(Outcomes) |->
                                 IF k % 2 = 1 THEN Sv(Outcomes[j], k) ELSE Sv(Outcomes[k \div 2], k) ]] ]
Batch == Force([ i \in 1 .. N |-> History(i) ] \o PairHistories \o RewriteHistories \o TagHistory \o VariantHistories \o OutcomeHistories)

VARIABLES vI, vK, vS
Init == vI \in 1 .. Len(Batch) /\ vK = 0 /\ vS = Start
Next == /\ vK < Len(Batch[vI].ops)
        /\ Enabled(vS, Batch[vI].ops[vK + 1])
        /\ vS' = Apply(Cfgs, vS, Batch[vI].ops[vK + 1])
        /\ vK' = vK + 1 /\ UNCHANGED vI
        /\ (vI = 1 /\ vK = 0) => WriteJson(Out, [cfgs |-> Cfgs, histories |-> Batch])
Spec == Init /\ [][Next]_<<vI, vK, vS>>

(* a model is what it was built from, whatever happens later *)
Stays == [][\A j \in 1 .. Len(vS.models) : vS'.models[j].ref = vS.models[j].ref]_<<vI, vK, vS>>
(* the status is that of the latest solve; without one there is none *)
StatusOfLatest == \A j \in 1 .. Len(vS.models) :
    LET mine == { k \in 1 .. vK : Batch[vI].ops[k].op = "solve" /\ Batch[vI].ops[k].m = j }
    IN  IF mine = {} THEN vS.models[j].status = "none"
        ELSE vS.models[j].status = StatusAfter(Batch[vI].ops[CHOOSE k \in mine : \A h \in mine : h <= k].outcome)
SilentOnlyIfOk == \A o \in Elements(Outcomes) : (RaisedBy(o) = "no") <=> (StatusAfter(o) = "ok")
(* every operation of a history can be done *)
Possible == vK < Len(Batch[vI].ops) => Enabled(vS, Batch[vI].ops[vK + 1])
=============================================================================
