------------------------------ MODULE PreTrace ------------------------------
(***************************************************************************)
(* Judges recorded solves of real models: the problem handed to the solver      *)
(* against the model as its equations are written, and the values of all          *)
(* variables afterwards.  State: the point last loaded (0: none yet).               *)
(***************************************************************************)
EXTENDS Session, FiniteSets, TLC
Cases == Force(ReadJson(Env("MV_CASES", "pre.json")))
Dir == Env("MV_DIR", ".")
Out == Env("MV_OUT", "verdict")
N == Len(Cases)
Undefined == R("1e300")

VARIABLES vI, vK, vObs, vLast, vBad
File(i) == Force(ReadJson(Dir \o "/obs-" \o ToString(i) \o ".json"))

(* residuals << lower, body, upper, scale >>; -1e301 and 1e301 stand for no limit *)
Def(c) == c[2] # Undefined
Violated(c) == ~Def(c) \/ c[2] < c[1] - (R("1e-8") * c[4] + R("1e-12")) \/ c[2] > c[3] + (R("1e-8") * c[4] + R("1e-12"))
SameNumber(x, y, s) == x = y \/ Abs(x - y) <= R("1e-9") * (s + Abs(x) + Abs(y)) + R("1e-15")
(* the same restriction: the distances to the limits are the same *)
SameCon(c, d) == /\ Def(c) = Def(d)
                 /\ Def(c) => /\ SameNumber(c[2] - c[1], d[2] - d[1], c[4]) /\ SameNumber(c[3] - c[2], d[3] - d[2], c[4])

Problem(what, which, want, got) == << [what |-> what, which |-> which, want |-> want, got |-> got] >>
FirstOf(S, what, which(_), want(_), got(_)) ==
    IF S = {} THEN << >> ELSE LET j == CHOOSE x \in S : \A y \in S : x <= y IN Problem(what, which(j), want(j), got(j))

(* h: header of the case [vars, cons, ...]; o: one observation *)
Judge(h, o, prev, op) ==
    LET nv == 1 .. Len(h.vars)
        loaded == op.loads
        idx == { j \in 1 .. Len(o.cons) : TRUE }
        lost == { j \in idx : o.cons[j].pre = << >> /\ Violated(o.cons[j].raw) }
        changed == { j \in idx : o.cons[j].pre # << >> /\ ~SameCon(o.cons[j].raw, o.cons[j].pre) }
        added == IF op.at = "specified" THEN { j \in 1 .. Len(o.extra) : Violated(o.extra[j].pre) } ELSE {}
        notgiven == { v \in nv : h.vars[v].rep # "" /\ v \in DOMAIN o.got /\ o.given[v] # Undefined
                                  /\ ~SameNumber(o.given[v], o.got[v], 0) }
        bounds == { v \in nv : \/ o.got[v] < h.vars[v].lo - R("1e-8") * (1 + Abs(o.got[v]))
                               \/ o.got[v] > h.vars[v].hi + R("1e-8") * (1 + Abs(o.got[v])) }
        unlike == IF op.at = "specified" THEN { v \in nv : h.vars[v].used /\ ~(Abs(o.want[v] - o.got[v]) <= R("1e-6") * Abs(o.want[v]) + R("1e-9")) } ELSE {}
    IN  IF o.error # "" THEN Problem("cannot be solved", "", "", o.error)
        ELSE IF ~loaded THEN
            LET moved == { v \in nv : o.got[v] # prev[v] }
            IN  FirstOf(moved, "value changed without a result", LAMBDA v : h.vars[v].n, LAMBDA v : prev[v], LAMBDA v : o.got[v])
        ELSE FirstOf(notgiven, "variable has not the value of the solver", LAMBDA v : h.vars[v].n, LAMBDA v : o.given[v], LAMBDA v : o.got[v])
             \o FirstOf(lost, "the values break an equation the solver was not given", LAMBDA j : o.cons[j].n, LAMBDA j : o.cons[j].raw, LAMBDA j : "")
             \o FirstOf(changed, "the solver is given another restriction", LAMBDA j : o.cons[j].n, LAMBDA j : o.cons[j].raw, LAMBDA j : o.cons[j].pre)
             \o FirstOf(added, "an additional restriction", LAMBDA j : o.extra[j].n, LAMBDA j : "", LAMBDA j : o.extra[j].pre)
             \o FirstOf(unlike, "value is not the one the equations give", LAMBDA v : h.vars[v].n, LAMBDA v : o.want[v], LAMBDA v : o.got[v])
             \o (IF o.inbounds THEN FirstOf(bounds, "value outside its bounds", LAMBDA v : h.vars[v].n, LAMBDA v : << h.vars[v].lo, h.vars[v].hi >>,
                                            LAMBDA v : o.got[v]) ELSE << >>)
             \o (IF o.obj[1] = o.obj[2] \/ SameNumber(o.obj[1], o.obj[2], 0) THEN << >> ELSE Problem("another objective", "", o.obj[1], o.obj[2]))
             \o (IF o.sense[1] = o.sense[2] THEN << >> ELSE Problem("another sense of the objective", "", o.sense[1], o.sense[2]))

(* the bounds of what the solver sees are those of the variables it stands for *)
JudgeReduction(h) ==
    LET members(s) == { v \in 1 .. Len(h.vars) : h.vars[v].rep = s.n }
        bad == { j \in 1 .. Len(h.surv) :
                   LET m == members(h.surv[j])
                   IN  \/ m = {}
                       \/ h.surv[j].lo # MaxOf([ v \in m |-> h.vars[v].lo ])
                       \/ h.surv[j].hi # MinOf([ v \in m |-> h.vars[v].hi ]) }
    IN  FirstOf(bad, "bounds of what the solver sees", LAMBDA j : h.surv[j].n, LAMBDA j : [ v \in members(h.surv[j]) |-> h.vars[v] ], LAMBDA j : h.surv[j])

Tell(p, i, k) == p # << >> => WriteJson(Out \o "-" \o ToString(i) \o "-" \o ToString(k) \o ".json", [i |-> i, k |-> k, problems |-> p])
Init == /\ vI \in 1 .. N /\ vK = 0 /\ vLast = 0
        /\ vObs = << >> /\ vBad = FALSE
Open == /\ vK = 0 /\ vObs = << >>
        /\ LET f == File(vI)
               p == IF f.error # "" THEN Problem("not built", "", "", f.error) ELSE JudgeReduction(f)
           IN  vObs' = << f >> /\ Tell(p, vI, 0) /\ vBad' = (p # << >> )
        /\ vK' = 1 /\ UNCHANGED << vI, vLast >>
Step == /\ vK >= 1 /\ vObs[1].error = "" /\ vK <= Len(Cases[vI].ops)
        /\ LET h == vObs[1]
               op == Cases[vI].ops[vK]
               prev == IF vK = 1 THEN h.start ELSE h.obs[vK - 1].got
               p == Judge(h, h.obs[vK], prev, op)
           IN  /\ Tell(p, vI, vK) /\ vBad' = (p # << >>)
               /\ vLast' = IF op.loads THEN vK ELSE vLast
        /\ vK' = vK + 1 /\ UNCHANGED << vI, vObs >>
Next == Open \/ Step
Spec == Init /\ [][Next]_<< vI, vK, vObs, vLast, vBad >>
View == << vI, vK, vLast, vBad >>
=============================================================================
