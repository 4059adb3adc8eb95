----------------------------- MODULE TraceKernel ------------------------------
(* Recorded sessions with kernel objects (P16).  Objects: sv (signal variance)  *)
(* and ell (length scale per dimension).                                        *)
EXTENDS Score, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, at, bad, fin
vars == <<tid, at, bad, fin>>
View == <<tid, at, fin>>
tr == Traces[tid]
dim == Len(tr.sets[1][1])
Sub(a) == [x |-> tr.sets[a.x], y |-> IF a.y = 0 THEN tr.sets[a.x] ELSE tr.sets[a.y]]
Obj(a) == tr.objects[a.o]
Ell2(o) == TLCEval([d \in 1..dim |-> FSq(o.ell[d])])
Exact(a) == LET s == Sub(a) o == Obj(a) h == HalfInv(Ell2(o))
            IN TLCEval([i \in 1..Len(s.x) |-> TLCEval([j \in 1..Len(s.y) |-> FMul(o.sv, Kern(s.x[i], s.y[j], h))])])
ValueOK(a) == LET e == Exact(a) o == Obj(a) IN
  \A i \in 1..Len(e), j \in 1..Len(e[1]) : Close(a.val[i][j], e[i][j], FMul(E11, BAdd(o.sv, E6)))
AtMost(a) == \A i \in 1..Len(a.val), j \in 1..Len(a.val[1]) : BLe(a.val[i][j], Obj(a).sv) /\ BLe(Zero, a.val[i][j])
Diagonal(a) == a.y \in {0, a.x} => \A i \in 1..Len(a.val) : a.val[i][i] = Obj(a).sv
Symmetric(a) == a.y \in {0, a.x} => \A i, j \in 1..Len(a.val) : Close(a.val[i][j], a.val[j][i], FMul(E12, Obj(a).sv))
(* gradient as the library defines it: (x - y)/ell^2 times the kernel             *)
GradOK(a) == LET s == Sub(a) o == Obj(a) e == Exact(a) l2 == Ell2(o) IN
  \A i \in 1..Len(s.x), j \in 1..Len(s.y), d \in 1..dim :
    LET df == FDiv(BSub(s.x[i][d], s.y[j][d]), l2[d])
    IN Close(a.val[i][j][d], FMul(df, e[i][j]), FMul(E11, BAdd(FMul(o.sv, FAbs(df)), E6)))
Shape(a) == LET s == Sub(a) IN
  /\ Len(a.val) = Len(s.x) /\ \A i \in 1..Len(s.x) : Len(a.val[i]) = Len(s.y)
  /\ a.op = "gradient" => \A i \in 1..Len(s.x), j \in 1..Len(s.y) : Len(a.val[i][j]) = dim
Clause(name, ok) == IF ok THEN {} ELSE {name}
Verdict(a) ==
  IF a.err THEN {a.op \o ".raised"} ELSE IF ~Shape(a) THEN {a.op \o ".shape"}
  ELSE IF a.op = "value" THEN
    IF ~MNum(a.val) THEN {"value.nonfinite"}
    ELSE Clause("value", ValueOK(a)) \cup Clause("bound", AtMost(a)) \cup Clause("diagonal", Diagonal(a)) \cup Clause("symmetry", Symmetric(a))
  ELSE IF \E i \in 1..Len(a.val) : ~MNum(a.val[i]) THEN {"gradient.nonfinite"}
  ELSE Clause("gradient", GradOK(a))
Init == tid \in 1..Len(Traces) /\ at = 0 /\ bad = {} /\ fin = FALSE
Step == /\ at < Len(tr.log)
        /\ bad' = bad \cup {<<c, at + 1>> : c \in Verdict(tr.log[at + 1])}
        /\ at' = at + 1 /\ UNCHANGED <<tid, fin>>
End == at = Len(tr.log) /\ ~fin /\ PrintT(<<"VERDICT", tid, at, bad>>) /\ fin' = TRUE /\ UNCHANGED <<tid, at, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
