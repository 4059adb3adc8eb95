----------------------------- MODULE TraceSession ------------------------------
(* Recorded histories of Session on real controllers (P12, P18, P19, P22, P23) and   *)
(* of overlapping constructions of Interleave (P24).  Every *)
(* event carries digests: of the random stream before and after, of every object's *)
(* flows and grid (objs), of every array the caller owns (bufs).  The clauses are  *)
(* the properties of Session, read off the recorded values; tr.ask selects those   *)
(* of the property in question.                                                    *)
EXTENDS Fix, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, at, bad, fin
vars == <<tid, at, bad, fin>>
View == <<tid, at, fin>>
tr == Traces[tid]
Ev(n) == tr.log[n]
Asks(c) == c \in {tr.ask[q] : q \in 1..Len(tr.ask)}
Clause(name, ok) == IF ok THEN {} ELSE {name}
(* --- frames ------------------------------------------------------------------- *)
(* first: a new process (the questions of a history asked again in another order)   *)
(* objs: sequence of [o, gen, d], gen counts the constructions in this history      *)
ObjsKept(n) == n = 1 \/ \A a \in 1..Len(Ev(n - 1).objs), b \in 1..Len(Ev(n).objs) :
                  (Ev(n - 1).objs[a].o = Ev(n).objs[b].o /\ Ev(n - 1).objs[a].gen = Ev(n).objs[b].gen)
                     => Ev(n - 1).objs[a].d = Ev(n).objs[b].d
(* bufs: sequence of digests, appended to; the caller writes only into tgt           *)
BufsKept(n) == Ev(n).first \/ \A a \in 1..Len(Ev(n - 1).bufs) : a = Ev(n).tgt \/ Ev(n - 1).bufs[a] = Ev(n).bufs[a]
(* --- constructions -------------------------------------------------------------- *)
Comparable(m, n) == Ev(m).op = "build" /\ Ev(m).c = Ev(n).c /\ Ev(m).before = Ev(n).before /\ ~Ev(m).err
BuildVerdict(n) ==
  LET e == Ev(n) IN
  IF e.err THEN {"construction.raised"} ELSE
  (IF Asks("reproducible") THEN
     Clause("equal states, different flows", \A m \in 1..(n - 1) : Comparable(m, n) => Ev(m).flows = e.flows)
     \cup Clause("equal states, different states afterwards", \A m \in 1..(n - 1) : Comparable(m, n) => Ev(m).after = e.after) ELSE {})
  \cup (IF Asks("arguments") THEN Clause("construction changed its arguments", e.argsok) ELSE {})
  \cup (IF Asks("sharing") THEN Clause("flows share memory with the caller", ~e.shares) ELSE {})
  \cup (IF Asks("held") THEN Clause("argument of a callback changed while it was running", e.held) ELSE {})
  \cup (IF Asks("options") THEN Clause("no warning", e.periodic => e.warned) \cup Clause("trajectories removed", e.complete) ELSE {})
(* --- queries ---------------------------------------------------------------------- *)
SameFlows(m, n) == Ev(m).flows = Ev(n).flows /\ Ev(m).i = Ev(n).i
NoDraws(n) == Ev(n).before = Ev(n).after
SameDraws(m, n) == Ev(m).before = Ev(n).before \/ (NoDraws(m) /\ NoDraws(n))
PointTol(x, y) == FMul(E7, BAdd(One, BAdd(FAbs(x), FAbs(y))))
SameNum(x, y) == IF IsNum(x) /\ IsNum(y) THEN Close(x, y, PointTol(x, y)) ELSE x = y
Asked(m, op) == Ev(m).op = op /\ ~Ev(m).err
PerPoint(n) == \A m \in 1..n : (Asked(m, "control") /\ SameFlows(m, n) /\ SameDraws(m, n)) =>
   \A a \in 1..Len(Ev(m).b), c \in 1..Len(Ev(n).b) : Ev(m).b[a] = Ev(n).b[c] =>
      \A d \in 1..Len(Ev(n).res) : SameNum(Ev(m).res[d][a], Ev(n).res[d][c])
ShapeOK(n) == Len(Ev(n).res) = tr.dim /\ \A d \in 1..tr.dim : Len(Ev(n).res[d]) = Len(Ev(n).b)
ControlVerdict(n) ==
  LET e == Ev(n) IN
  IF e.err THEN {"control.raised"} ELSE IF ~ShapeOK(n) THEN {"control.shape"} ELSE
  (IF Asks("pointwise") THEN Clause("answer depends on history or batch", PerPoint(n)) ELSE {})
  \cup (IF Asks("reproducible") THEN Clause("equal states, different answers",
          \A m \in 1..(n - 1) : (Asked(m, "control") /\ SameFlows(m, n) /\ Ev(m).b = e.b /\ Ev(m).before = e.before)
             => Ev(m).digest = e.digest /\ Ev(m).after = e.after) ELSE {})
  \cup (IF Asks("arguments") THEN Clause("query changed its arguments", e.argsok) ELSE {})
  \cup (IF Asks("sharing") THEN Clause("answer shares memory", ~e.shares) ELSE {})
CoverVerdict(n) ==
  LET e == Ev(n) IN
  IF e.err THEN {"cover.raised"} ELSE
  (IF Asks("pointwise") \/ Asks("reproducible") THEN Clause("coverage depends on history",
      \A m \in 1..(n - 1) : (Asked(m, "cover") /\ SameFlows(m, n) /\ Ev(m).b = e.b) => Ev(m).cov = e.cov) ELSE {})
  \cup (IF Asks("arguments") THEN Clause("query changed its arguments", e.argsok) ELSE {})
(* forces: a function of the configuration, the batch, the time and the draws, not of  *)
(* the object                                                                          *)
SameForce(m, n) == Ev(m).op = "force" /\ ~Ev(m).err /\ Ev(m).c = Ev(n).c /\ Ev(m).fn = Ev(n).fn /\ Ev(m).t = Ev(n).t
                     /\ Ev(m).b = Ev(n).b /\ Ev(m).before = Ev(n).before
ForceVerdict(n) ==
  LET e == Ev(n) IN
  IF e.err THEN {"force.raised"} ELSE
  (IF Asks("reproducible") \/ Asks("pointwise") THEN Clause("equal states, different forces",
      \A m \in 1..(n - 1) : SameForce(m, n) => Ev(m).digest = e.digest /\ Ev(m).after = e.after) ELSE {})
  \cup (IF Asks("arguments") THEN Clause("query changed its arguments", e.argsok) ELSE {})
  \cup (IF Asks("sharing") THEN Clause("answer shares memory", ~e.shares) ELSE {})
(* --- other public calls (estimators, kernels, transport map, distances) ----------- *)
CallVerdict(n) == LET e == Ev(n) IN
  IF e.err THEN {e.fn \o ".raised"} ELSE
  (IF Asks("arguments") THEN Clause(e.fn \o " changed its arguments", e.argsok) ELSE {})
  \cup (IF Asks("sharing") THEN Clause(e.fn \o ": result shares memory", ~e.shares) ELSE {})
(* --- failures --------------------------------------------------------------------- *)
FailVerdict(n) == LET e == Ev(n) IN
  IF e.err THEN {"construction.raised"} ELSE
  (IF Asks("failures") THEN
     Clause("error of " \o e.kind \o " did not reach the caller", e.thrown => e.reached = "same")
     \cup Clause("a function was called after an error", e.later = 0)
     \cup Clause("function not called as before", e.thrown) ELSE {})
  \cup Clause("failed construction changed its arguments", e.argsok)
BadVerdict(n) == LET e == Ev(n) IN
  (IF Asks("failures") THEN Clause(IF e.what = "force" THEN "error of a drift in a force wrapper did not reach the caller" ELSE e.what \o " beyond the grid did not raise", e.raised) ELSE {})
  \cup Clause("failed query changed its arguments", e.argsok)
(* --- settings of the process: only the user changes them, also as seen by the user's   *)
(* functions; nothing is printed, diagnostics are well formed                            *)
SettingsVerdict(n) == LET e == Ev(n) IN
  IF e.first \/ e.op = "configure" THEN {} ELSE
  {"setting changed: " \o tr.names[q] : q \in {q \in 1..Len(e.set) : e.set[q] # Ev(n - 1).set[q]}}
  \cup {"setting different inside of a callback: " \o tr.names[q] :
          q \in {q \in 1..Len(e.set) : \E a \in 1..Len(e.inside) : e.inside[a][q] # Ev(n - 1).set[q]}}
  \cup Clause("printed something", ~e.out) \cup Clause("malformed diagnostic", ~e.badlog)
Verdict(n) ==
  LET e == Ev(n) IN
  (IF e.op = "build" THEN BuildVerdict(n) ELSE IF e.op = "control" THEN ControlVerdict(n)
   ELSE IF e.op = "cover" THEN CoverVerdict(n) ELSE IF e.op = "call" THEN CallVerdict(n)
   ELSE IF e.op = "force" THEN ForceVerdict(n) ELSE IF e.op = "fail" THEN FailVerdict(n) ELSE IF e.op = "badquery" THEN BadVerdict(n) ELSE {})
  \cup (IF Asks("settings") THEN SettingsVerdict(n) ELSE {})
  \cup Clause(e.op \o " changed the flows of an object", ObjsKept(n))
  \cup (IF Asks("arguments") \/ Asks("failures") THEN Clause(e.op \o " changed an array of the caller", BufsKept(n)) ELSE {})
Init == tid \in 1..Len(Traces) /\ at = 0 /\ bad = {} /\ fin = FALSE
Step == /\ at < Len(tr.log)
        /\ bad' = bad \cup {<<c, at + 1>> : c \in Verdict(at + 1)}
        /\ at' = at + 1 /\ UNCHANGED <<tid, fin>>
End == at = Len(tr.log) /\ ~fin /\ PrintT(<<"VERDICT", tid, at, bad>>) /\ fin' = TRUE /\ UNCHANGED <<tid, at, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
