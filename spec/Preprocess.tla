------------------------------ MODULE Preprocess ------------------------------
(***************************************************************************)
(* Reduction of a problem before it goes to a solver, and restoring the        *)
(* eliminated variables afterwards.                                            *)
(*                                                                          *)
(* A problem: variables with bounds; equations x = y; equations x = c; one       *)
(* inequality and an objective, linear in the variables.  The reduction            *)
(*   aggregates variables linked by x = y to one variable z,                        *)
(*   fixes variables with x = c, or with equal bounds, and drops the equation,        *)
(*   passes fixed values on along x = y.                                                *)
(* A solver then sees the representatives that are not fixed, leaves any values             *)
(* (or fails and leaves none), and Restore sets every eliminated variable.                    *)
(* All small problems are enumerated: the reduced problem has the same feasible                 *)
(* states and objective, and after any number of solves with any result every                     *)
(* variable has the value the eliminated equations give it.                                        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Vars, Dom, None
Pairs == { p \in SUBSET Vars : Cardinality(p) = 2 }
Bounds == { <<lo, hi>> \in Dom \X Dom : lo <= hi }

VARIABLES vP,        \* the problem
          vRep,      \* variable -> the variable standing for its class
          vFixed,    \* variable -> value or None
          vDropped,  \* the equations x = c dropped
          vPhase,    \* raw, reduced, solved, restored
          vVal,      \* values of the variables
          vSolved    \* values the solver left (of representatives); None if none yet
vars == << vP, vRep, vFixed, vDropped, vPhase, vVal, vSolved >>

Problems == [ eqs : SUBSET Pairs, const : [ Vars -> Dom \cup {None} ], bounds : [ Vars -> Bounds ],
              ineq : SUBSET Vars ]     \* sum of these variables at least 1 (if any)

SumAtLeast(S, f) == S = {} \/ \E x \in S : f[x] >= 1
Feasible(p, f) ==
    /\ \A e \in p.eqs : \A x, y \in e : f[x] = f[y]
    /\ \A x \in Vars : p.const[x] # None => f[x] = p.const[x]
    /\ \A x \in Vars : p.bounds[x][1] <= f[x] /\ f[x] <= p.bounds[x][2]
    /\ SumAtLeast(p.ineq, f)

(* connected classes of the equations x = y *)
RECURSIVE Grow(_, _)
Grow(p, S) == LET T == S \cup UNION { e \in p.eqs : e \cap S # {} } IN IF T = S THEN S ELSE Grow(p, T)
Class(p, x) == Grow(p, {x})
RepOf(p, x) == CHOOSE r \in Class(p, x) : \A s \in Class(p, x) : TRUE

(* values fixed within a class; several different ones: the problem is infeasible and rejected *)
FixedIn(p, fx, x) == { fx[y] : y \in Class(p, x) } \ {None}
Lo(p, x) == CHOOSE m \in { p.bounds[y][1] : y \in Class(p, x) } : \A y \in Class(p, x) : p.bounds[y][1] <= m
Hi(p, x) == CHOOSE m \in { p.bounds[y][2] : y \in Class(p, x) } : \A y \in Class(p, x) : m <= p.bounds[y][2]

Init == /\ vP \in Problems
        /\ vRep = [ x \in Vars |-> x ] /\ vFixed = [ x \in Vars |-> None ] /\ vDropped = {}
        /\ vPhase = "raw" /\ vVal = [ x \in Vars |-> None ] /\ vSolved = None
Drop == LET fx == [ x \in Vars |-> vP.const[x] ]
        IN  /\ vPhase = "raw"
            /\ \A x \in Vars : vP.const[x] # None => vP.bounds[x][1] <= vP.const[x] /\ vP.const[x] <= vP.bounds[x][2]
            /\ \A x \in Vars : Cardinality(FixedIn(vP, fx, x)) <= 1 /\ Lo(vP, x) <= Hi(vP, x)
            /\ vFixed' = [ x \in Vars |-> IF FixedIn(vP, fx, x) # {} THEN CHOOSE c \in FixedIn(vP, fx, x) : TRUE
                                         ELSE IF Lo(vP, x) = Hi(vP, x) THEN Lo(vP, x) ELSE None ]
            /\ vRep' = [ x \in Vars |-> RepOf(vP, x) ]
            /\ vDropped' = { x \in Vars : vP.const[x] # None }
            /\ vVal' = [ x \in Vars |-> IF vFixed'[x] # None THEN vFixed'[x] ELSE vP.bounds[x][1] ]
            /\ vPhase' = "reduced" /\ UNCHANGED << vP, vSolved >>
Survivors == { vRep[x] : x \in { y \in Vars : vFixed[y] = None } }
Expand(g) == [ x \in Vars |-> IF vFixed[x] # None THEN vFixed[x] ELSE g[vRep[x]] ]
FeasibleReduced(g) ==
    /\ \A r \in Survivors : Lo(vP, r) <= g[r] /\ g[r] <= Hi(vP, r)
    /\ \A x \in Vars : vFixed[x] # None => Lo(vP, x) <= vFixed[x] /\ vFixed[x] <= Hi(vP, x)
    /\ SumAtLeast(vP.ineq, Expand(g))
Solve == /\ vPhase \in {"reduced", "restored"}
         /\ \E g \in [ Survivors -> Dom ] : vSolved' = g
         /\ vPhase' = "solved" /\ UNCHANGED << vP, vRep, vFixed, vDropped, vVal >>
Fail == /\ vPhase \in {"reduced", "restored"} /\ UNCHANGED vars      \* nothing is loaded, nothing is restored
Restore == /\ vPhase = "solved"
           /\ vVal' = Expand(vSolved)
           /\ vPhase' = "restored" /\ UNCHANGED << vP, vRep, vFixed, vDropped, vSolved >>
Next == Drop \/ Solve \/ Fail \/ Restore
Spec == Init /\ [][Next]_vars

SameFeasible == vPhase = "reduced" =>
    { f \in [ Vars -> Dom ] : Feasible(vP, f) } = { Expand(g) : g \in { h \in [ Survivors -> Dom ] : FeasibleReduced(h) } }
Rejected == (vPhase = "raw" /\ ~ENABLED Drop) => \A f \in [ Vars -> Dom ] : ~Feasible(vP, f)
Restored == vPhase = "restored" =>
    /\ \A e \in vP.eqs : \A x, y \in e : vVal[x] = vVal[y]
    /\ \A x \in vDropped : vVal[x] = vP.const[x]
    /\ \A r \in Survivors : vVal[r] = vSolved[r]
    /\ FeasibleReduced(vSolved) <=> Feasible(vP, vVal)
=============================================================================
