----------------------------- MODULE MCTransport -----------------------------
(* The optimality certificate of Transport, checked by exhaustion on small     *)
(* instances: N particles at integer positions, weights in units of 1/(N*N).   *)
(* A plan is optimal (no plan costs less) exactly when integer potentials      *)
(* within the range of the costs certify it; mass is counted in the same units *)
(* so that column sums are N.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS N, Span
VARIABLES x, w, plan
vars == <<x, w, plan>>
P == 1..N
Unit == N                              \* units per column
Abs(a) == IF a < 0 THEN -a ELSE a
Cost(i, j) == Abs(x[i] - x[j])
Sum(S, f(_)) == FoldSet(LAMBDA e, a : a + f(e), 0, S)
Row(p, i) == Sum(P, LAMBDA j : p[<<i, j>>])
Col(p, j) == Sum(P, LAMBDA i : p[<<i, j>>])
Columns == {c \in [P -> 0..Unit] : Sum(P, LAMBDA i : c[i]) = Unit}
AllPlans == {[e \in P \X P |-> cs[e[2]][e[1]]] : cs \in [P -> Columns]}
Plans(ww) == {p \in AllPlans : \A i \in P : Row(p, i) = ww[i]}
PlanCost(p) == Sum(P \X P, LAMBDA e : p[e] * Cost(e[1], e[2]))
Potentials == [P -> (-Span)..Span]
Dual(u, v) == Sum(P, LAMBDA i : u[i] * w[i]) + Sum(P, LAMBDA j : v[j] * Unit)
Certified(p) == \E u \in Potentials :
  \* the best v for u is the largest feasible one
  LET v == [j \in P |-> Min({Cost(i, j) - u[i] : i \in P})] IN Dual(u, v) = PlanCost(p)
Init == /\ x \in [P -> 0..Span] /\ x[1] = 0
        /\ plan \in AllPlans
        /\ w = [i \in P |-> Row(plan, i)]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Best == Min({PlanCost(p) : p \in Plans(w)})
CertificateExact == Certified(plan) <=> PlanCost(plan) = Best
(* the image of the ensemble under N*plan keeps the weighted mean                *)
Image(j) == Sum(P, LAMBDA i : plan[<<i, j>>] * x[i])       \* times 1/Unit
MeanKept == Sum(P, Image) = Sum(P, LAMBDA i : w[i] * x[i])
(* uniform weights: the identity is the only optimal plan of distinct particles   *)
UniformIdentity ==
  (\A i \in P : w[i] = Unit) /\ (\A i, j \in P : i # j => x[i] # x[j]) /\ PlanCost(plan) = Best
     => \A i, j \in P : plan[<<i, j>>] = IF i = j THEN Unit ELSE 0
=============================================================================
