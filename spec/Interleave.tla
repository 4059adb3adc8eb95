------------------------------ MODULE Interleave -------------------------------
(* Constructions and queries that overlap (P24): the user's functions are called   *)
(* in the middle of a construction and may themselves construct and query, or the  *)
(* process has several threads.  A construction calls the user Steps times; before *)
(* each call it puts the particles it works on into a work area and afterwards     *)
(* makes the next column of them.  Every task has random numbers of its own (the   *)
(* harness sees to that), so its flows have to be those of a construction that ran *)
(* alone.  Mistake switches on one of the classical ways of getting this wrong.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tasks, Steps, MaxQueries, MaxRaises, Mistake
VARIABLES st, pc, body, work, memo, busy, queries, raises, sched
vars == <<st, pc, body, work, memo, busy, queries, raises, sched>>

W(t) == IF Mistake \in {"scratch", "queryscratch"} THEN 0 ELSE t
Alone(t) == [n \in 1..Steps |-> <<t, n>>]
Note(a, t) == sched' = Append(sched, <<a, t>>)
Put(t, n) == work' = [work EXCEPT ![W(t)] = <<t, n>>]
Init == /\ st = [t \in Tasks |-> "idle"] /\ pc = [t \in Tasks |-> 0] /\ body = [t \in Tasks |-> <<>>]
        /\ work = [w \in {0} \cup Tasks |-> <<0, 0>>] /\ memo = [n \in 1..Steps |-> <<0, 0>>]
        /\ busy = 0 /\ queries = 0 /\ raises = 0 /\ sched = <<>>
(* the construction starts and runs to its first call of the user                    *)
Start(t) == /\ st[t] = "idle" /\ st' = [st EXCEPT ![t] = "inside"] /\ pc' = [pc EXCEPT ![t] = 1]
            /\ Put(t, 1) /\ busy' = busy + 1 /\ Note("start", t) /\ UNCHANGED <<body, memo, queries, raises>>
(* the call returns, the construction goes on to the next one or to its end           *)
Column(t) == LET v == work[W(t)] n == pc[t] IN
  IF Mistake = "memo" /\ memo[n] # <<0, 0>> THEN memo[n]
  ELSE IF Mistake = "guard" /\ busy > 1 THEN <<v[1], 0 - v[2]>> ELSE v
Return(t) == /\ st[t] = "inside"
             /\ body' = [body EXCEPT ![t] = Append(@, Column(t))]
             /\ memo' = [memo EXCEPT ![pc[t]] = Column(t)]
             /\ IF pc[t] = Steps
                THEN st' = [st EXCEPT ![t] = "done"] /\ busy' = busy - 1 /\ UNCHANGED <<pc, work>>
                ELSE pc' = [pc EXCEPT ![t] = @ + 1] /\ Put(t, pc[t] + 1) /\ UNCHANGED <<st, busy>>
             /\ Note("return", t) /\ UNCHANGED <<queries, raises>>
(* the call raises                                                                     *)
Raise(t) == /\ st[t] = "inside" /\ raises < MaxRaises /\ st' = [st EXCEPT ![t] = "failed"]
            /\ busy' = IF Mistake = "guard" THEN busy ELSE busy - 1
            /\ raises' = raises + 1 /\ Note("raise", t) /\ UNCHANGED <<pc, body, work, memo, queries>>
(* a question to a finished object                                                     *)
Query(t) == /\ st[t] = "done" /\ queries < MaxQueries /\ queries' = queries + 1
            /\ work' = IF Mistake = "queryscratch" THEN [work EXCEPT ![0] = <<t, 99>>] ELSE work
            /\ Note("query", t) /\ UNCHANGED <<st, pc, body, memo, busy, raises>>
Next == \E t \in Tasks : Start(t) \/ Return(t) \/ Raise(t) \/ Query(t)
Spec == Init /\ [][Next]_vars

(* finished flows are those of a construction that ran alone                           *)
Isolated == \A t \in Tasks : st[t] = "done" => body[t] = Alone(t)
(* what a function was called with stays as it is while the function runs              *)
ArgumentHeld == \A t \in Tasks : st[t] = "inside" => work[W(t)] = <<t, pc[t]>>
(* a finished flow is never written again                                              *)
Frozen == [][\A t \in Tasks : st[t] = "done" => body'[t] = body[t]]_vars
Over == \A t \in Tasks : st[t] \in {"done", "failed"}
(* schedules of a single thread: the calls are nested                                  *)
Last(s, t) == Cardinality({n \in 1..Len(s) : s[n] = <<"return", t>>}) = 1 /\ \A n \in 1..Len(s) : s[n] # <<"raise", t>>
RECURSIVE Nested(_, _)
Nested(s, open) ==
  IF s = <<>> THEN TRUE
  ELSE LET a == Head(s)
           n == Len(open) IN
       IF a[1] = "start" THEN Nested(Tail(s), Append(open, a[2]))
       ELSE IF a[1] = "query" THEN Nested(Tail(s), open)
       ELSE IF n = 0 THEN FALSE
       ELSE IF open[n] # a[2] THEN FALSE
       ELSE Nested(Tail(s), IF a[1] = "raise" \/ Last(s, a[2]) THEN SubSeq(open, 1, n - 1) ELSE open)
=============================================================================
