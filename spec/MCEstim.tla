------------------------------- MODULE MCEstim -------------------------------
(* All sessions with two calls, for the harness, which lets the two stand for  *)
(* every pair of calls it wants to compare; and the list of all calls.         *)
EXTENDS Estim, TLC, Json, FiniteSetsExt, SequencesExt
TwoCalls == {Call("sep", "float", "array", 1), Call("all", "list", "view", 0)}
ASSUME TwoCalls \subseteq AllCalls
ASSUME \A c \in AllCalls : PrintT("CALL " \o ToJson(c))
Emit == (n = MaxLen /\ log[n].op # "make") => PrintT("CASE " \o ToJson(log))
=============================================================================
