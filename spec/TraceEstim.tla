------------------------------ MODULE TraceEstim ------------------------------
(* Recorded sessions with the gradient estimators.  A trace is one problem     *)
(* (samples, inducing points, length scales, constant, query sets) with the    *)
(* answers that sessions of Estim got for it.                                  *)
(*   "form"  (P14)  an answer is the closed form of Score                      *)
(*   "agree" (P15)  an answer equals every earlier answer about the same        *)
(*                  dimension and query set, whoever gave it                    *)
EXTENDS Score, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, sc, seen, at, bad, fin
vars == <<tid, sc, seen, at, bad, fin>>
View == <<tid, at, fin>>
tr == Traces[tid]
dim == Len(tr.ell)
Offset(q) == IF q = 0 THEN 0 ELSE Len(tr.X) + FoldLeft(LAMBDA a, j : a + Len(tr.Q[j]), 0, [j \in 1..(q - 1) |-> j])
Size(q) == IF q = 0 THEN Len(tr.X) ELSE Len(tr.Q[q])
AllPoints == FoldLeft(LAMBDA a, s : a \o s, tr.X, tr.Q)
Estimate == \* with the largest magnitude of every dimension
  LET e == ScoreAt(tr.X, tr.S, [d \in 1..dim |-> FSq(tr.ell[d])], tr.C, AllDims(dim), AllPoints)
  IN [val |-> e.val, mag |-> e.mag, top |-> TLCEval([d \in 1..dim |-> VMax(e.mag[d])])]

Rows(a) == IF a.d = 0 THEN AllDims(dim) ELSE <<a.d>>
ShapeOK(a) == Len(a.val) = Len(Rows(a)) /\ \A r \in 1..Len(a.val) : Len(a.val[r]) = Size(a.q)
RelTol(a) == IF a.impl = "tor" THEN E6 ELSE E8
Tol(a, d, n) == BAdd(FMul(E12, BAdd(One, sc.top[d])), FMul(RelTol(a), sc.mag[d][Offset(a.q) + n]))
FormOK(a) == \A r \in 1..Len(a.val), n \in 1..Size(a.q) :
  Close(a.val[r][n], sc.val[Rows(a)[r]][Offset(a.q) + n], Tol(a, Rows(a)[r], n))
Key(d, q) == <<d, q>>
(* earlier answers: key -> set of [impl, row]                                   *)
Agrees(a) == \A r \in 1..Len(a.val) :
  LET k == Key(Rows(a)[r], a.q) IN
  k \in DOMAIN seen => \A o \in seen[k] : \A n \in 1..Size(a.q) :
     Close(a.val[r][n], o.row[n], FScale(Tol(IF o.impl = "tor" THEN o ELSE a, Rows(a)[r], n), 2))
Remember(a) == LET ks == {Key(Rows(a)[r], a.q) : r \in 1..Len(a.val)}
                   row(k) == a.val[CHOOSE r \in 1..Len(a.val) : Rows(a)[r] = k[1]]
                   new(k) == [impl |-> a.impl, q |-> a.q, row |-> row(k)]
               IN [k \in DOMAIN seen \cup ks |->
                     IF k \notin ks THEN seen[k]
                     ELSE IF k \notin DOMAIN seen THEN {new(k)}
                     ELSE IF \E o \in seen[k] : o.impl = a.impl THEN seen[k] ELSE seen[k] \cup {new(k)}]
Verdict(a) ==
  IF a.err THEN {a.impl \o "." \o a.op \o ".raised"}
  ELSE IF ~ShapeOK(a) THEN {a.impl \o "." \o a.op \o ".shape"}
  ELSE IF ~MNum(a.val) THEN {a.impl \o "." \o a.op \o ".nonfinite"}
  ELSE (IF tr.want.form /\ a.impl # "tor" /\ ~FormOK(a) THEN {a.impl \o "." \o a.op \o ".closed-form"} ELSE {})
       \cup (IF tr.want.agree /\ ~Agrees(a) THEN {a.impl \o "." \o a.op \o ".agree"} ELSE {})
Relevant(a) == tr.want.agree \/ a.impl # "tor"

Init == /\ tid \in 1..Len(Traces)
        /\ sc = <<>> /\ seen = <<>> /\ at = -1 /\ bad = {} /\ fin = FALSE
Solved == /\ at = -1 /\ sc' = Estimate /\ at' = 0 /\ UNCHANGED <<tid, seen, bad, fin>>
Step == /\ at >= 0 /\ at < Len(tr.ans)
        /\ LET a == tr.ans[at + 1]
               v == IF Relevant(a) THEN Verdict(a) ELSE {}
           IN /\ bad' = bad \cup {<<c, a.i>> : c \in v}
              /\ seen' = IF Relevant(a) /\ v = {} /\ tr.want.agree THEN Remember(a) ELSE seen
        /\ at' = at + 1 /\ UNCHANGED <<tid, sc, fin>>
End == /\ at = Len(tr.ans) /\ ~fin
       /\ PrintT(<<"VERDICT", tid, at, bad>>)
       /\ fin' = TRUE /\ UNCHANGED <<tid, sc, seen, at, bad>>
Next == Solved \/ Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
