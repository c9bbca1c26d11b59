------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A process that works with MIMOSA: it builds models from configurations,    *)
(* solves them, saves them, builds models from saved settings; in between the  *)
(* input files change on disk and constructions fail.                          *)
(*                                                                          *)
(* State:  disk    versions of the input files the user owns                   *)
(*         models  what each model was built from, the status of its latest      *)
(*                 solve and the point the solver left its variables at          *)
(*         saved   what was written where                                        *)
(* `Apply(s, op)` is the state after an operation and the result it must have.   *)
(* The content of a model is its reference: the configuration and the versions    *)
(* of the files it reads at the time of construction - nothing else.              *)
(***************************************************************************)
EXTENDS Real, Sequences, SeqFolds

(* files the user owns: two data files, the tables of regional parameters, a simulation result *)
Owned == << "A", "B", "M", "T" >>
Outcomes == << "ok", "warning", "error", "aborted", "unknown", "crash" >>
Start == [disk |-> [A |-> 1, B |-> 1, M |-> 1, T |-> 1], models |-> << >>, saved |-> << >>]

UsesFile(cfg, f) ==
    CASE f \in {"A", "B"} -> \E v \in {"GDP", "emissions", "population"} : cfg.files[v] = f
      [] f = "M" -> cfg.sc = << >> /\ cfg.regtable # ""
      [] OTHER -> cfg.sc = << >> /\ cfg.sim = 2
Ref(cfgs, c, disk) == LET ver(f) == IF UsesFile(cfgs[c], f) THEN disk[f] ELSE 0
                      IN  [c |-> c, A |-> ver("A"), B |-> ver("B"), M |-> ver("M"), T |-> ver("T")]

----------------------------------------------------------------------------
(* The outcome of a solve *)
RaisedBy(outcome) == CASE outcome = "ok" -> "no" [] outcome = "warning" -> "warning" [] OTHER -> "failure"
StatusAfter(outcome) == IF outcome = "crash" THEN "none" ELSE outcome
(* options: [halt, maxiter, output, verbose, neos]; "" and -1 stand for options not given *)
SolverOptions(o) ==
    LET halt == << << "halt_on_ampl_error", IF o.halt = "" THEN "no" ELSE o.halt >> >>
        iter == IF o.maxiter < 0 THEN << >> ELSE << << "max_iter", NumText(o.maxiter) >> >>
        outp == IF o.output = "" THEN << >> ELSE << << "output_file", o.output >> >>
    IN  Elements(halt \o iter \o outp)

(* Names of saved files.  The tag stands for the settings: the same for the same settings only. *)
SavedName(op, tag) == op.folder \o "/" \o op.name \o (IF op.hash THEN "_" \o tag ELSE "") \o ".csv"

----------------------------------------------------------------------------
Model(ref) == [ref |-> ref, status |-> "none", solves |-> 0]
Apply(cfgs, s, op) ==
    CASE op.op = "build" -> LET r == Ref(cfgs, op.c, s.disk) IN [s EXCEPT !.models = Append(@, Model(r))]
      [] op.op = "reload" -> LET r == Ref(cfgs, s.models[op.m].ref.c, s.disk) IN [s EXCEPT !.models = Append(@, Model(r))]
      [] op.op = "rewrite" -> [s EXCEPT !.disk[op.f] = 3 - @]
      [] op.op = "solve" -> [s EXCEPT !.models[op.m].status = StatusAfter(op.outcome), !.models[op.m].solves = @ + 1]
      [] op.op = "save" -> [s EXCEPT !.saved = Append(@, [m |-> op.m, name |-> op.name])]
      [] OTHER -> s           \* constructions that fail, queries, edits of the caller's settings

(* operations that make sense in a state *)
Enabled(s, op) ==
    CASE op.op \in {"solve", "save", "query"} -> op.m \in 1 .. Len(s.models)
      [] op.op = "reload" -> \E i \in 1 .. Len(s.saved) : s.saved[i].m = op.m
      [] OTHER -> TRUE
=============================================================================
