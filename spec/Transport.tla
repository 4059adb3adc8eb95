------------------------------ MODULE Transport ------------------------------
(* Transport plans between weighted particles.                                *)
(* A plan is a sequence of entries [i, j, v]: mass v moves from particle i    *)
(* (which has weight w_i) to particle j (which gets mass 1/N).                *)
(* Optimality is certified by dual potentials (weak duality): if              *)
(* u_i + v_j <= c_ij for all i, j, every plan costs at least                  *)
(* sum_i w_i u_i + sum_j v_j / N.                                             *)
EXTENDS Fix

Plan(s) == s
RowSum(plan, i) == VSum([q \in 1..Len(plan) |-> IF plan[q].i = i THEN plan[q].v ELSE Zero])
ColSum(plan, j) == VSum([q \in 1..Len(plan) |-> IF plan[q].j = j THEN plan[q].v ELSE Zero])

Feasible(plan, w, tol) ==
  LET n == Len(w) IN
  /\ \A q \in 1..Len(plan) : plan[q].v[1] >= 0 /\ plan[q].i \in 1..n /\ plan[q].j \in 1..n
  /\ \A i \in 1..n : Close(RowSum(plan, i), w[i], tol)
  /\ \A j \in 1..n : Close(ColSum(plan, j), FInv(n), tol)

(* squared distance and distance of points *)
SqDist(x, y) == LET d == TLCEval([i \in 1..Len(x) |-> BSub(x[i], y[i])]) IN FDot(d, d)
Dist(x, y) == \* square root taken with twice the digits
  LET d == TLCEval([i \in 1..Len(x) |-> BSub(x[i], y[i])])
  IN BSqrt(VSum([i \in 1..Len(x) |-> BMul(d[i], d[i])]))
Costs(X, metric) ==
  TLCEval([i \in 1..Len(X) |-> TLCEval([j \in 1..Len(X) |->
     IF metric = "sq" THEN SqDist(X[i], X[j]) ELSE Dist(X[i], X[j])])])
MaxCost(c) == VMax([i \in 1..Len(c) |-> VMax(c[i])])
PlanCost(plan, c) == VSum([q \in 1..Len(plan) |-> FMul(plan[q].v, c[plan[q].i][plan[q].j])])
DualBound(u, v, w) == BAdd(FDot(u, w), BQuo(VSum(v), BInt(Len(v))))
DualFeasible(u, v, c, tol) ==
  \A i \in 1..Len(u), j \in 1..Len(v) : BLe(BAdd(u[i], v[j]), BAdd(c[i][j], tol))
(* the plan costs no more than any other, up to tol times the largest cost      *)
Optimal(plan, u, v, w, c, tol) ==
  LET t == FMul(tol, MaxCost(c)) IN
  /\ DualFeasible(u, v, c, t)
  /\ BLe(PlanCost(plan, c), BAdd(DualBound(u, v, w), FScale(t, 2)))

(* image of the particles: particle j becomes N sum_i x_i plan_ij, where the     *)
(* sum over i of plan_ij is 1/N; positions are taken relative to the first        *)
(* particle, so that rounding of the column sums is not magnified                *)
Image(X, plan) == \* sequence of points
  LET n == Len(X)
      dim == Len(X[1])
      col(j) == SelectSeq(plan, LAMBDA e : e.j = j)
      one(j, d) == LET s == col(j)
                   IN BAdd(X[1][d], BMul(FDot([q \in 1..Len(s) |-> s[q].v],
                                              [q \in 1..Len(s) |-> BSub(X[s[q].i][d], X[1][d])]), BInt(n)))
  IN TLCEval([j \in 1..n |-> TLCEval([d \in 1..dim |-> one(j, d)])])

(* weights proportional to exp(a), a finite                                     *)
SoftMax(a) ==
  LET m == VMax(a)
      e == TLCEval([i \in 1..Len(a) |-> FExp(BSub(a[i], m))])
      s == VSum(e)
  IN TLCEval([i \in 1..Len(a) |-> FDiv(e[i], s)])
=============================================================================
