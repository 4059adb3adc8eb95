--------------------------------- MODULE Grid ---------------------------------
(* The time grid (P02), in exact integer arithmetic: Unit time units make one    *)
(* step of the grid.  Points are appended from the initial time on while the     *)
(* next one lies nearer to the end time; half-way both choices are allowed.      *)
EXTENDS Integers, Sequences
CONSTANTS Unit, Starts, Spans
VARIABLES t1, t2, pts, stop
vars == <<t1, t2, pts, stop>>
Abs(x) == IF x < 0 THEN -x ELSE x
Last(s) == s[Len(s)]
Init == /\ t1 \in Starts /\ \E s \in Spans : t2 = t1 + s
        /\ pts = <<t1>> /\ stop = FALSE
Nearer == Abs(Last(pts) + Unit - t2) < Abs(Last(pts) - t2)
Tie == Abs(Last(pts) + Unit - t2) = Abs(Last(pts) - t2)
Extend == ~stop /\ (Nearer \/ Tie) /\ pts' = Append(pts, Last(pts) + Unit) /\ stop' = Tie /\ UNCHANGED <<t1, t2>>
Finish == ~stop /\ ~Nearer /\ stop' = TRUE /\ UNCHANGED <<t1, t2, pts>>
Next == Extend \/ Finish \/ (stop /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
StartsAtInitialTime == pts[1] = t1
EqualSteps == \A i \in 1..(Len(pts) - 1) : pts[i + 1] - pts[i] = Unit
(* no grid point, present or possible, is nearer to the end time than the last    *)
EndsNearest == stop => \A j \in 0..(Len(pts) + 1) : Abs(Last(pts) - t2) <= Abs(t1 + j * Unit - t2)
WithinHalfStep == stop => 2 * Abs(Last(pts) - t2) <= Unit
(* the arithmetic of the implementation, all numbers below t2 + Unit/2, exactly   *)
LikeArange == stop /\ 2 * Abs(Last(pts) - t2) # Unit =>
   Len(pts) = (2 * (t2 - t1) + Unit + 2 * Unit - 1) \div (2 * Unit)
Ends == <>stop
=============================================================================
