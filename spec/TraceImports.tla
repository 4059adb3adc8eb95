----------------------------- MODULE TraceImports -----------------------------
(* Recorded imports (P01): the interpreter of Imports.tla is run along with the  *)
(* record; afterwards what the imported parts do is compared.                    *)
EXTENDS Imports, Fix, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, at, cur, bad, fin
vars == <<env, loaded, stack, exc, live, exports, tid, at, cur, bad, fin>>
tr == Traces[tid]
Set(s) == {s[i] : i \in 1..Len(s)}
Init == /\ tid \in 1..Len(Traces) /\ at = 1 /\ cur = "" /\ bad = {} /\ fin = FALSE
        /\ IInit /\ env = [torch |-> tr.env.torch, ot |-> tr.env.ot, due |-> tr.env.due, root |-> tr.env.root]
Keep == UNCHANGED <<tid, at, cur, bad, fin>>
Start == /\ cur = "" /\ at <= Len(tr.log) /\ cur' = tr.log[at].entry /\ UNCHANGED <<tid, at, bad, fin>>
         /\ IF Missing(Path(cur')) # {} THEN Begin(cur') ELSE UNCHANGED <<env, loaded, stack, live, exports>> /\ exc' = ""
More == cur # "" /\ stack = <<>> /\ ~Complete(cur) /\ Begin(cur) /\ Keep
Proceed == cur # "" /\ Internal /\ Keep
Clause(name, ok) == IF ok THEN {} ELSE {name}
(* a part that needs torch may also be importable and empty without torch        *)
Verdict(a) ==
  LET free == NeedsTorch(cur) /\ ~env.torch
  IN Clause("import", IF free THEN a.ok \/ a.err = "ImportError" ELSE a.ok)
     \cup Clause("exports", a.ok => Names(cur) \subseteq Set(a.names))
     \cup Clause("exports.torch", (Set(a.names) \cap TorchNames) \subseteq Names(cur))
     \cup Clause("model", (exc = "") = (a.ok /\ (~free \/ a.names # <<>>)) \/ free)
Finish == /\ cur # "" /\ Complete(cur) /\ cur' = "" /\ at' = at + 1
          /\ bad' = bad \cup {<<c, at>> : c \in Verdict(tr.log[at])}
          /\ UNCHANGED <<env, loaded, stack, exc, live, exports, tid, fin>>
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
  IF IsNum(a[i]) /\ IsNum(b[i]) THEN Close(a[i], b[i], FMul(E9, BAdd(One, FAbs(b[i])))) ELSE a[i] = b[i]
Effects ==
  Clause("citation", tr.live = IF live THEN 1 ELSE 0)
  \cup Clause("standin", Set(tr.stub) \subseteq {"ok"} /\ (live \/ Len(tr.stub) > 0))
  \cup Clause("device", (env.torch => Len(tr.device) > 0) /\ \A i \in 1..Len(tr.device) :
                           tr.device[i].answer = IF tr.device[i].cuda THEN "cuda" ELSE "cpu")
  \cup Clause("numpy.result", Same(tr.values, tr.ref))
  \cup Clause("torch.result", env.torch => Same(tr.torchvalues, tr.torchref))
End == /\ cur = "" /\ at > Len(tr.log) /\ ~fin /\ fin' = TRUE
       /\ bad' = bad \cup {<<c, at>> : c \in Effects}
       /\ PrintT(<<"VERDICT", tid, at, bad'>>) /\ UNCHANGED <<env, loaded, stack, exc, live, exports, tid, at, cur>>
Next == Start \/ More \/ Proceed \/ Finish \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
