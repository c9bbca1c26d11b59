----------------------------- MODULE SessionTrace -----------------------------
(* Replays the operations of recorded histories as transitions of Session and    *)
(* compares each result with the one the state demands.                            *)
EXTENDS Session, Reported, TLC
In == Force(ReadJson(Env("MV_CASES", "session.json")))
Cfgs == In.cfgs
Batch == In.histories
Trace == Force(ReadJson(Env("MV_TRACE", "trace.json")))     \* [results: per operation, end: refs of the models]
Out == Env("MV_OUT", "verdict")
Focus == Env("MV_FOCUS", "build")

Problem(what, want, got) == << [what |-> what, want |-> want, got |-> got] >>
IfNot(ok, what, want, got) == IF ok THEN << >> ELSE Problem(what, want, got)

SameSettings(x, y) == ToString(x) = ToString(y)          \* (values of any type)
SameRef(x, ref) == (x.c = ref.c \/ SameSettings(Cfgs[x.c], Cfgs[ref.c])) /\ \A j \in 1 .. Len(Owned) : x[Owned[j]] = ref[Owned[j]]
Is(refs, ref) == \E j \in 1 .. Len(refs) : SameRef(refs[j], ref)

Modules(cfg) == IF cfg.sc = << >> THEN << cfg.modules[1], cfg.modules[2] >>
                ELSE LET M(k, default) == IF k \in DOMAIN cfg.sc[1].set THEN cfg.sc[1].set[k].v ELSE default
                     IN  << M("model - damage module", "COACCH"), M("model - emissiontrade module", "notrade") >>
RegionsOf(cfg) == IF cfg.sc = << >> THEN cfg.regions ELSE cfg.sc[1].regions

SixDigits(text, x) == Abs(R(text) - x) <= R("5.000001e-6") * Abs(x) + R("1e-300")
RowsRight(cfg, g) ==
    LET m == Modules(cfg)
        rep == Force(ReportedBy(m[1], m[2]))
        rs == RegionsOf(cfg)
        want == Fold(LAMBDA acc, x : acc \o (IF x.regional THEN [ j \in 1 .. Len(rs) |-> << x.v, rs[j] >> ] ELSE << << x.v, "Global" >> >>),
                     << >>, rep)
        have == [ j \in 1 .. Len(g.rows) |-> << g.rows[j].v, g.rows[j].r >> ]
        missing == Elements(want) \ Elements(have)
        extra == Elements(have) \ Elements(want)
        unitOf(v) == rep[CHOOSE j \in 1 .. Len(rep) : rep[j].v = v].unit
        wrongUnits == IF extra # {} THEN {}
                      ELSE { j \in 1 .. Len(g.rows) : Elements(g.rows[j].unit) # Elements(unitOf(g.rows[j].v)) }
        wrongValues == { j \in 1 .. Len(g.rows) :
                           \/ Len(g.rows[j].cells) # Len(g.rows[j].values)
                           \/ \E h \in 1 .. Len(g.rows[j].cells) : ~SixDigits(g.rows[j].cells[h], g.rows[j].values[h]) }
        wrongYears == \/ Len(g.header) # Len(g.years)
                      \/ \E j \in 1 .. Len(g.header) : Abs(R(g.header[j]) - g.years[j]) > R("1e-5") * g.years[j]
    IN  IfNot(missing = {}, "row missing", IF missing = {} THEN "" ELSE CHOOSE x \in missing : TRUE, "")
        \o IfNot(extra = {}, "row of no reported variable", "", IF extra = {} THEN "" ELSE CHOOSE x \in extra : TRUE)
        \o IfNot(Len(have) = Len(want) \/ missing # {} \/ extra # {}, "rows repeated", Len(want), Len(have))
        \o (IF wrongUnits = {} THEN << >>
            ELSE LET j == CHOOSE x \in wrongUnits : TRUE IN Problem("unit of " \o g.rows[j].v, unitOf(g.rows[j].v), g.rows[j].unit))
        \o (IF wrongValues = {} THEN << >>
            ELSE LET j == CHOOSE x \in wrongValues : TRUE
                 IN  Problem("values of " \o g.rows[j].v \o " of " \o g.rows[j].r, g.rows[j].values, g.rows[j].cells))
        \o IfNot(~wrongYears, "years", g.years, g.header)

(* tags seen so far: sequence of << configuration, tag >>.  Whether the order of the regions is a setting is left open. *)
NoRegions(cfg) == [cfg EXCEPT !.regions = << >>, !.sc = [ j \in 1 .. Len(@) |-> [@[j] EXCEPT !.regions = << >>] ]]
RegionSetsOf(cfg) == << Elements(cfg.regions), [ j \in 1 .. Len(cfg.sc) |-> Elements(cfg.sc[j].regions) ] >>
UpToOrder(x, y) == SameSettings(NoRegions(x), NoRegions(y)) /\ RegionSetsOf(x) = RegionSetsOf(y)
TagRight(tags, c, tag) == \A j \in 1 .. Len(tags) : /\ SameSettings(Cfgs[tags[j][1]], Cfgs[c]) => (tags[j][2] = tag)
                                                    /\ (tags[j][2] = tag) => UpToOrder(Cfgs[tags[j][1]], Cfgs[c])

Judge(s, op, g, tags) ==
    CASE op.op \in {"build", "reload"} ->
           LET c == IF op.op = "build" THEN op.c ELSE s.models[op.m].ref.c
           IN  IF ~g.built THEN Problem(op.op \o ": not built", "", g.error)
               ELSE IfNot(g.status = "none", "status before any solve", "none", g.status) \o IfNot(Is(g.refs, Ref(Cfgs, c, s.disk)), op.op \o ": another model than in a fresh process",
                          Ref(Cfgs, c, s.disk), g.refs)
      [] op.op = "bad" -> IfNot(~g.built, "built from settings with " \o op.kind, "", "")
      [] op.op = "solve" ->
           IfNot(g.raised = RaisedBy(op.outcome), "solve raised", RaisedBy(op.outcome), g.raised)
           \o IfNot(\/ g.status = StatusAfter(op.outcome)
                    \/ RaisedBy(op.outcome) = "failure" /\ g.status = "none", "status", StatusAfter(op.outcome), g.status)
           \o IfNot(g.calls = 1, "calls of the solver", 1, g.calls)
           \o (IF g.calls # 1 THEN << >>
               ELSE IfNot(g.neos = (op.options.neos # ""), "solved on NEOS", op.options.neos # "", g.neos)
                    \o IfNot(g.neos \/ Elements(g.options) = SolverOptions(op.options), "options", SolverOptions(op.options), g.options)
                    \o IfNot(g.neos \/ g.tee = op.options.verbose, "output shown", op.options.verbose, g.tee)
                    \o IfNot(~g.neos \/ op.options.neos = "-" \/ g.email = op.options.neos, "email", op.options.neos, g.email)
                    \o IfNot(g.own, "the model solved is not this one", "", ""))
           \o IfNot(g.consistent = << >>, "values that do not fit together", "", g.consistent)
      [] op.op = "save" ->
           IF g.error # "" THEN Problem("save failed", "", g.error)
           ELSE LET c == s.models[op.m].ref.c
                    path == SavedName(op, g.tag)
                IN  IfNot(Elements(g.created) = {path, path \o ".params.json"}, "files written", path, g.created)
                    \o IfNot(~op.hash \/ TagRight(tags, c, g.tag), "tag of the settings", tags, g.tag)
                    \o IfNot(g.same, "saving changed the model", "", "")
                    \o (IF path \in Elements(g.created) THEN RowsRight(Cfgs[c], g) ELSE << >>)
      [] OTHER -> << >>

(* what each of the three properties is about: the others' problems are theirs *)
Concerns == [ build |-> {"build", "reload", "bad"}, solve |-> {"solve"}, save |-> {"save", "reload"} ][Focus]
Mine(op, p) == IF op.op \in Concerns THEN p ELSE << >>

VARIABLES vI, vK, vS, vTags, vBad
Init == vI \in 1 .. Len(Trace) /\ vK = 0 /\ vS = Start /\ vTags = << >> /\ vBad = << >>
Step == /\ vK < Len(Batch[vI].ops)
        /\ LET op == Batch[vI].ops[vK + 1]
               g == Trace[vI].results[vK + 1]
           IN  /\ vBad' = LET p == Mine(op, Judge(vS, op, g, vTags))
                          IN  vBad \o [ j \in 1 .. Len(p) |-> [k |-> vK + 1, what |-> p[j].what, want |-> p[j].want, got |-> p[j].got] ]
               /\ vS' = Apply(Cfgs, vS, op)
               /\ vTags' = IF op.op = "save" /\ op.hash /\ g.error = "" THEN Append(vTags, << vS.models[op.m].ref.c, g.tag >>) ELSE vTags
        /\ vK' = vK + 1 /\ UNCHANGED vI
(* at the end every model still is what it was when it was built *)
Finish == /\ vK = Len(Batch[vI].ops)
          /\ LET p == Fold(LAMBDA acc, j :
                             acc \o IfNot(Trace[vI].kept[j], "a model has changed meanwhile", vS.models[j].ref, ""),
                           << >>, [ j \in 1 .. Len(vS.models) |-> j ])
             IN  vBad' = vBad \o [ j \in 1 .. Len(p) |-> [k |-> vK + 1, what |-> p[j].what, want |-> p[j].want, got |-> p[j].got] ]
          /\ vBad' # << >> => WriteJson(Out \o "-" \o ToString(vI) \o ".json", [i |-> vI, problems |-> vBad'])
          /\ vK' = vK + 1 /\ UNCHANGED << vI, vS, vTags >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<vI, vK, vS, vTags, vBad>>
=============================================================================
