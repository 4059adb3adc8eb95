------------------------------ MODULE TraceCdist ------------------------------
(* Recorded calls of the compiled pairwise-distance routine (P17): two point     *)
(* sets r and y, the different outputs seen (outs), and the calls, each naming   *)
(* its output and what happened to the memory around it and to its inputs.       *)
EXTENDS Score, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, at, bad, fin
vars == <<tid, at, bad, fin>>
View == <<tid, at, fin>>
tr == Traces[tid]
Rows == Len(tr.r)
Cols == Len(tr.y)
Df(i, j) == TLCEval([d \in 1..Len(tr.r[1]) |-> BSub(tr.r[i][d], tr.y[j][d])])
(* the root is taken of the square with all its 48 decimals: distances may be tiny *)
Exact(i, j) == LET df == Df(i, j) IN
  IF tr.dist = "euclidean" THEN BSqrt(FoldLeft(LAMBDA a, x : BAdd(a, BMul(x, x)), Zero, df)) ELSE FDot(df, df)
Tiny == BAdd(Eps(22), Zero)
Cell(o, i, j) == LET e == Exact(i, j) IN
  IsNum(o[i][j]) /\ Close(o[i][j], e, BAdd(FMul(E11, e), Tiny)) /\ BLe(Zero, o[i][j])
Shape(o) == Len(o) = Rows /\ \A i \in 1..Len(o) : Len(o[i]) = Cols
Zeros(o) == \A i \in 1..Rows, j \in 1..Cols : tr.r[i] = tr.y[j] => o[i][j] = Zero
Clause(name, ok) == IF ok THEN {} ELSE {name}
OutVerdict(o) == IF ~Shape(o) THEN {"shape"}
  ELSE Clause("distance", \A i \in 1..Rows, j \in 1..Cols : Cell(o, i, j)) \cup Clause("zero", Zeros(o))
(* first the outputs, then the calls                                              *)
Total == Len(tr.outs) + Len(tr.calls)
CallVerdict(c) == IF c.err THEN {"raised"} ELSE
  Clause("output", c.out \in 1..Len(tr.outs)) \cup Clause("margin", c.margin) \cup Clause("inputs", c.inputs)
Verdict(n) == IF n <= Len(tr.outs) THEN OutVerdict(tr.outs[n]) ELSE CallVerdict(tr.calls[n - Len(tr.outs)])
Init == tid \in 1..Len(Traces) /\ at = 0 /\ bad = {} /\ fin = FALSE
Step == /\ at < Total
        /\ bad' = bad \cup {<<c, at + 1>> : c \in Verdict(at + 1)}
        /\ at' = at + 1 /\ UNCHANGED <<tid, fin>>
End == at = Total /\ ~fin /\ PrintT(<<"VERDICT", tid, at, bad>>) /\ fin' = TRUE /\ UNCHANGED <<tid, at, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
