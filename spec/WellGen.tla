------------------------------- MODULE WellGen -------------------------------
(* Draws the configurations C24 ranges over: every combination of modules and of effort-sharing regimes     *)
(* (quick: each combination of modules with one regime, thorough: all), with further options drawn, from     *)
(* the values of Scenarios and from the edges of the schema.                                                 *)
EXTENDS Scenarios, Schema, SeqFolds
Seed == EnvInt("MV_SEED", 1)
N == EnvInt("MV_N", 100)               \* how many
From == EnvInt("MV_FROM", 0)
Full == EnvInt("MV_FULL", 0) = 1       \* all regimes of each combination in turn
Out == Env("MV_OUT", "well.json")

Prod(seqs, i) ==                        \* the i-th element of a product (i from 0)
    LET step(acc, s) == [i |-> acc.i \div Len(s), out |-> acc.out \o << s[(acc.i % Len(s)) + 1] >>]
    IN  Fold(step, [i |-> i, out |-> << >>], seqs).out
Values(path) == [ k \in 1 .. Len(OptionOf(path).values) |-> OptionOf(path).values[k].v ]
ModulePaths == << "model - damage module", "model - emissiontrade module", "model - financialtransfer module",
                  "model - welfare module", "model - objective module" >>
Seqs == [ k \in 1 .. 5 |-> Values(ModulePaths[k]) ]
Regimes(trade) == IF trade = "emissiontrade"
                  THEN << "noregime", "equal_mitigation_costs", "equal_total_costs", "per_cap_convergence" >>
                  ELSE << "noregime", "equal_mitigation_costs", "equal_total_costs" >>

(* the edges of what the schema accepts, apart from values that make no sense in an equation of their own    *)
(* (elasticities of exactly one) and the known findings, which are probed one by one below                   *)
Edges == << << "economics - elasmu", << R("0.1"), 10 >> >>, << "economics - inequal_aversion", << 0, 3 >> >>,
            << "economics - PRTP", << 0, R("0.2") >> >>,
            << "economics - GDP - alpha", << 0, 1 >> >>, << "economics - GDP - depreciation of capital", << 0, 1 >> >>,
            << "economics - GDP - savings rate", << 0, 1 >> >>, << "economics - MAC - beta", << R("0.01"), 10 >> >>,
            << "economics - MAC - LBD_rate", << R("0.1"), 1 >> >>, << "economics - MAC - LOT_rate", << 0, 5 >> >>,
            << "economics - MAC - rel_mitigation_costs_min_level", << -2, 0 >> >>,
            << "economics - damages - scale factor", << 0, -100 >> >>,
            << "emissions - inertia - global", << 0, -5 >> >>, << "emissions - inertia - regional", << 0, -5 >> >>,
            << "effort sharing - percapconv_year", << 2020, 2200 >> >>,
            << "economics - emission trade - min rel payment level", << FALSE, 0, R("0.5") >> >>,
            << "economics - emission trade - max rel payment level", << FALSE, 1, R("1.5") >> >> >>
SmallGrids == << << 2020, 2100, 20 >>, << 2020, 2140, R("30.0") / 2 >>, << 2090, 2115, R("2.5") * 2 >>, << 2099, 2103, 1 >>,
                 << 2050, 2110, 20 >>, << 2020, 2021, R("0.5") >>, << 2100, 2140, 20 >>, << 2010, 2150, 20 >> >>

Config(i) ==
    LET key == << Seed, "well", i >>
        combo == Prod(Seqs, IF Full THEN i \div 4 ELSE i)
        regs == Regimes(combo[2])
        regime == IF Full THEN regs[((i % 4) % Len(regs)) + 1] ELSE PickFrom(regs, << key, "regime" >>)
        grid == PickFrom(SmallGrids, << key, "grid" >>)
        often == PickFrom(<< 15, 50, 90 >>, << key, "often" >>)
        free == { k \in 1 .. Len(Drawn) : ~\E j \in 1 .. 5 : ModulePaths[j] = Drawn[k] }
        drawn == [ path \in { Drawn[k] : k \in { k \in free : HashInt(100, << key, "set", Drawn[k] >>) < often } } |->
                     Draw(path, << key, "draw", path >>) ]
        edges == [ path \in { Edges[k][1] : k \in { k \in 1 .. Len(Edges) : HashInt(100, << key, "edge", k >>) < 15 } } |->
                     LET e == (CHOOSE k \in 1 .. Len(Edges) : Edges[k][1] = path)
                     IN  Val(PickFrom(Edges[e][2], << key, "edge value", path >>)) ]
        modules == [ path \in { ModulePaths[k] : k \in 1 .. 5 } |->
                       Val(combo[CHOOSE k \in 1 .. 5 : ModulePaths[k] = path]) ]
        time == ("time - start" :> Val(grid[1])) @@ ("time - end" :> Val(grid[2])) @@ ("time - dt" :> Val(grid[3]))
                @@ ("effort sharing - regime" :> Val(regime))
        nreg == IF i = 17 THEN 26 ELSE PickFrom(<< 1, 2, 2, 3 >>, << key, "nreg" >>)
        budget == "emissions - carbonbudget" \in DOMAIN drawn /\ ~IsBool(drawn["emissions - carbonbudget"].v)
        rev == IF budget \/ HashInt(2, << key, "rev" >>) = 0 THEN << >>
               ELSE "economics - damages - percentage reversible" :> Val(PickFrom(<< 0, R("0.5"), 1 >>, << key, "rev" >>))
    IN  [ id |-> "combination-" \o ToString(i), set |-> time @@ modules @@ rev @@ edges @@ drawn,
          regions |-> SomeRegions(nreg, AllRegions, key), overrides |-> << >>, probe |-> "" ]

(* configurations that are accepted and cannot be built: see known_findings.json *)
Probe(name, set) ==
    [ id |-> "probe: " \o name, regions |-> << "USA", "INDIA" >>, overrides |-> << >>, probe |-> name,
      set |-> set @@ ("time - start" :> Val(2020)) @@ ("time - end" :> Val(2110)) @@ ("time - dt" :> Val(15)) ]
Probes == <<
    Probe("percentage reversible below one with a carbon budget",
          ("economics - damages - percentage reversible" :> Val(R("0.5")))
          @@ ("emissions - carbonbudget" :> [py |-> "700 GtCO2", v |-> 700])),
    Probe("elasmu of one", "economics - elasmu" :> Val(1)),
    Probe("inequal_aversion of one", ("economics - inequal_aversion" :> Val(1))
          @@ ("model - welfare module" :> Val("inequal_aversion_general"))),
    Probe("LBD_scaling of zero", "economics - MAC - LBD_scaling" :> [py |-> "0 GtCO2", v |-> 0]) >>
ASSUME WriteJson(Out, TLCEval([ i \in 1 .. N |-> Config(From + i - 1) ] \o (IF From = 0 THEN Probes ELSE << >>)))
=============================================================================
