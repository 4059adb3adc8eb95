------------------------------- MODULE TraceMap -------------------------------
(* Recorded results of the reweighting function against Transport (P08): the   *)
(* matrix T moves weighted samples X (weights w) to equally weighted ones.      *)
(* u, v are dual potentials found outside and verified here.                    *)
EXTENDS Transport, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, bad, fin
vars == <<tid, bad, fin>>
tr == Traces[tid]
N == Len(tr.X)
Is == 1..N
E10 == Eps(10)
TPlan == TLCEval(FoldLeft(LAMBDA a, i : a \o SelectSeq([j \in Is |-> [i |-> i, j |-> j, v |-> BQuo(tr.T[i][j], BInt(N))]],
                                              LAMBDA e : e.v[1] # 0), <<>>, [i \in Is |-> i]))
Square == Len(tr.T) = N /\ \A i \in Is : Len(tr.T[i]) = N
NonNegative == \A i, j \in Is : tr.T[i][j][1] >= 0
Columns == \A j \in Is : Close(VSum([i \in Is |-> tr.T[i][j]]), One, E10)
RowsOK == \A i \in Is : Close(VSum(tr.T[i]), FScale(tr.w[i], N), E10)
MeanKept ==
  \A d \in 1..Len(tr.X[1]) :
    LET sp == VMaxAbs([i \in Is |-> tr.X[i][d]])
        old == VSum([i \in Is |-> FMul(tr.w[i], tr.X[i][d])])
        new == BQuo(VSum([j \in Is |-> VSum([i \in Is |-> FMul(tr.T[i][j], tr.X[i][d])])]), BInt(N))
    IN Close(old, new, FMul(E9, BAdd(sp, E9)))
OptimalT == LET c == Costs(tr.X, "eu")
                p == TPlan
                tol == FMul(E9, BAdd(MaxCost(c), E9))
            IN DualFeasible(tr.u, tr.v, c, tol) /\ BLe(PlanCost(p, c), BAdd(DualBound(tr.u, tr.v, tr.w), FScale(tol, 2)))
Identity == tr.uniform => \A i, j \in Is : Close(tr.T[i][j], IF i = j THEN One ELSE Zero, E9)
Clause(name, ok) == IF ok THEN {} ELSE {name}
Verdict ==
  IF tr.err THEN {"raised"} ELSE IF ~Square THEN {"shape"} ELSE IF ~MNum(tr.T) THEN {"nonfinite"}
  ELSE Clause("nonnegative", NonNegative) \cup Clause("columns", Columns) \cup Clause("rows", RowsOK)
       \cup Clause("mean", MeanKept) \cup Clause("optimal", OptimalT) \cup Clause("identity", Identity)
Init == tid \in 1..Len(Traces) /\ bad = {} /\ fin = 0
Next == \/ fin = 0 /\ bad' = {<<c, 0>> : c \in Verdict} /\ fin' = 1 /\ UNCHANGED tid
        \/ fin = 1 /\ PrintT(<<"VERDICT", tid, 1, bad>>) /\ fin' = 2 /\ UNCHANGED <<tid, bad>>
Spec == Init /\ [][Next]_vars
=============================================================================
