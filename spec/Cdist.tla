-------------------------------- MODULE Cdist ---------------------------------
(* The parallel loop behind the pairwise distances (P17).  Workers take cells    *)
(* of the output in any order and add one coordinate at a time; an accumulator   *)
(* belongs to the worker (Private), to everybody, or is the output cell itself   *)
(* ("inplace").  The last two are the classical mistakes and have to fail.       *)
(* The term added for coordinate k of cell c is Term(c, k) > 0; memory outside   *)
(* the output (margin) and the initial content of the output (junk) are visible. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Rows, Cols, Dims, Workers, Accumulator
VARIABLES free, job, acc, out, margin
vars == <<free, job, acc, out, margin>>
Cells == (1..Rows) \X (1..Cols)
Term(c, k) == (c[1] * 7 + c[2] * 3 + k) * (c[1] + 2 * c[2] + k)
RECURSIVE Sum(_, _)
Sum(c, k) == IF k = 0 THEN 0 ELSE Term(c, k) + Sum(c, k - 1)
Nobody == <<0, 0>>
Junk == {-1, 5}
Slot(w) == IF Accumulator = "private" THEN w ELSE 0
Init == /\ free = Cells /\ job = [w \in Workers |-> [cell |-> Nobody, k |-> 0]]
        /\ acc = [s \in Workers \cup {0} |-> 5]
        /\ out \in [Cells -> Junk] /\ margin = 9
Take(w) == /\ job[w].cell = Nobody /\ free # {}
           /\ \E c \in free : /\ free' = free \ {c}
                              /\ job' = [job EXCEPT ![w] = [cell |-> c, k |-> 0]]
           /\ acc' = IF Accumulator = "inplace" THEN acc ELSE [acc EXCEPT ![Slot(w)] = 0]
           /\ UNCHANGED <<out, margin>>
Add(w) == LET c == job[w].cell IN
          /\ c # Nobody /\ job[w].k < Dims
          /\ job' = [job EXCEPT ![w].k = @ + 1]
          /\ IF Accumulator = "inplace"
             THEN out' = [out EXCEPT ![c] = @ + Term(c, job[w].k + 1)] /\ UNCHANGED acc
             ELSE acc' = [acc EXCEPT ![Slot(w)] = @ + Term(c, job[w].k + 1)] /\ UNCHANGED out
          /\ UNCHANGED <<free, margin>>
Put(w) == LET c == job[w].cell IN
          /\ c # Nobody /\ job[w].k = Dims
          /\ out' = IF Accumulator = "inplace" THEN out ELSE [out EXCEPT ![c] = acc[Slot(w)]]
          /\ job' = [job EXCEPT ![w] = [cell |-> Nobody, k |-> 0]]
          /\ UNCHANGED <<free, acc, margin>>
Done == free = {} /\ \A w \in Workers : job[w].cell = Nobody
Next == (\E w \in Workers : Take(w) \/ Add(w) \/ Put(w)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Take(w) \/ Add(w) \/ Put(w))
(* every schedule ends with every cell written exactly and nothing else touched  *)
Filled == Done => \A c \in Cells : out[c] = Sum(c, Dims)
Untouched == margin = 9
OneOwner == \A v, w \in Workers : v # w /\ job[v].cell # Nobody => job[v].cell # job[w].cell
OnlyOwnersWrite == [][\A c \in Cells : out'[c] # out[c] => \E w \in Workers : job[w].cell = c]_vars
Ends == <>Done
=============================================================================
