----------------------------- MODULE MCInterleave ------------------------------
EXTENDS Interleave, Json
(* complete schedules, for the replay                                                 *)
Show == Over => PrintT("CASE " \o ToJson([sched |-> sched, nested |-> Nested(sched, <<>>)]))
=============================================================================
