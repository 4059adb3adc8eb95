------------------------------ MODULE MCImports -------------------------------
(* Every environment and every history of MaxHist imports; prints the complete  *)
(* histories as cases for the replay.                                           *)
EXTENDS Imports, Json
CONSTANTS MaxHist
VARIABLES hist,      \* imports so far: [entry, ok]
          cur        \* import under way, or ""
vars == <<env, loaded, stack, exc, live, exports, hist, cur>>
Init == IInit /\ hist = <<>> /\ cur = ""
Start(e) == /\ cur = "" /\ Len(hist) < MaxHist /\ cur' = e /\ hist' = hist
            /\ IF Missing(Path(e)) # {} THEN Begin(e) ELSE UNCHANGED <<env, loaded, stack, live, exports>> /\ exc' = ""
More == cur # "" /\ stack = <<>> /\ ~Complete(cur) /\ Begin(cur) /\ UNCHANGED <<hist, cur>>
Finish == /\ cur # "" /\ Complete(cur)
          /\ hist' = Append(hist, [entry |-> cur, ok |-> exc = ""]) /\ cur' = ""
          /\ UNCHANGED ivars
Done == /\ cur = "" /\ Len(hist) = MaxHist
        /\ PrintT("CASE " \o ToJson([env |-> env, entries |-> [i \in 1..Len(hist) |-> hist[i].entry]]))
        /\ UNCHANGED vars
Proceed == cur # "" /\ Internal /\ UNCHANGED <<hist, cur>>
Next == \/ \E e \in Entries : Start(e)
        \/ More \/ Finish
        \/ Proceed
        \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(\E e \in Entries : Start(e)) /\ WF_vars(Proceed \/ More \/ Finish)

(* P01 *)
ImportsSucceed == \A i \in 1..Len(hist) : (env.torch \/ ~NeedsTorch(hist[i].entry)) => hist[i].ok
TorchPartsNeedTorch == \A i \in 1..Len(hist) : (~env.torch /\ NeedsTorch(hist[i].entry)) => ~hist[i].ok
ExportsFit == ("main" \in loaded /\ stack = <<>>) => exports = (IF env.torch THEN {"DPFC", "torched_DPFC"} ELSE {"DPFC"})
CitationFits == ("due" \in loaded /\ stack = <<>>) => (live <=> env.due = "usable")
Bounded == Len(stack) <= 8
NoEndlessImport == <>(cur = "" /\ Len(hist) = MaxHist)
=============================================================================
