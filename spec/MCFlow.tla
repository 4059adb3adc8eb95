------------------------------- MODULE MCFlow -------------------------------
(* Exhaustive check of Flow for all mode flags and grid lengths 2..KMax.       *)
EXTENDS Flow
CONSTANT KMax
AllConfigs == [be : {"np", "th"}, det : BOOLEAN, rw : BOOLEAN, bb : BOOLEAN, k : 2..KMax]
=============================================================================
