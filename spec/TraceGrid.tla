------------------------------ MODULE TraceGrid -------------------------------
(* Recorded grids and flow shapes of constructed objects (P02).                  *)
EXTENDS Fix, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, at, bad, fin
vars == <<tid, at, bad, fin>>
View == <<tid, at, fin>>
tr == Traces[tid]
Step1 == Milli
Slack == FMul(E9, BAdd(One, BAdd(FAbs(tr.t1), FAbs(tr.t2))))
LastPt == tr.grid[Len(tr.grid)]
Clause(name, ok) == IF ok THEN {} ELSE {name}
Flow(nm) == {q \in 1..Len(tr.flows) : tr.flows[q].name = nm}
ShapeOK(nm) == \E q \in Flow(nm) : tr.flows[q].shape = <<tr.dim, tr.N, Len(tr.grid)>>
DoubleOK(nm) == \A q \in Flow(nm) : tr.flows[q].dtype = "float64"
Names == {"Z", "B"} \cup (IF tr.rw /\ tr.bb THEN {"Ztr"} ELSE {})
Verdict == IF tr.err THEN {"raised"} ELSE IF tr.grid = <<>> \/ ~VNum(tr.grid) THEN {"grid.nonfinite"} ELSE
  Clause("grid.start", tr.grid[1] = tr.t1)
  \cup Clause("grid.steps", \A i \in 1..(Len(tr.grid) - 1) :
                 /\ Close(BSub(tr.grid[i + 1], tr.grid[i]), Step1, Slack)
                 /\ Close(tr.grid[i + 1], BAdd(tr.t1, FScale(Step1, i)), BAdd(Slack, Slack)))
  \cup Clause("grid.end", BLe(FAbs(BSub(LastPt, tr.t2)), BAdd(FHalf(Step1), Slack)))
  \cup Clause("number", tr.k = Len(tr.grid))
  \cup Clause("shape", \A nm \in Names : ShapeOK(nm))
  \cup Clause("double", \A nm \in Names : DoubleOK(nm))
Init == tid \in 1..Len(Traces) /\ at = 0 /\ bad = {} /\ fin = FALSE
Step == /\ at = 0 /\ bad' = {<<c, 1>> : c \in Verdict} /\ at' = 1 /\ UNCHANGED <<tid, fin>>
End == at = 1 /\ ~fin /\ PrintT(<<"VERDICT", tid, at, bad>>) /\ fin' = TRUE /\ UNCHANGED <<tid, at, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
