---------------------------- MODULE GenScenarios ----------------------------
(* Writes the scenarios of a family to the file the harness asks for.        *)
EXTENDS Scenarios
Seed == EnvInt("MV_SEED", 1)
N == EnvInt("MV_N", 20)
Family == Env("MV_FAMILY", "any")
Out == Env("MV_OUT", "scenarios.json")
ASSUME WriteJson(Out, TLCEval([ i \in 1 .. N |-> Scenario(Seed, Family, i) ]))
=============================================================================
