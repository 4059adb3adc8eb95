------------------------------- MODULE SimSession -----------------------------
(* Random histories of Session for the replay (tlc -simulate).  The kind of the    *)
(* next operation is drawn first, so that seeding and building stay frequent.      *)
EXTENDS MCSession
CONSTANTS Weights       \* sequence of kinds
VARIABLES turn
svars == <<vars, turn>>
SimInit == Init /\ turn = 0
Pick == turn = 0 /\ Len(log) < MaxLen /\ turn' \in 1..Len(Weights) /\ UNCHANGED vars
Kind == Weights[turn]
JustSeeded == IF log = <<>> THEN FALSE ELSE log[Len(log)].op = "seed"
Turn == turn > 0 /\ turn' = 0
Do == /\ Turn
      /\ \/ Kind = "seed" /\ ~JustSeeded /\ \E s \in Seeds : Seed(s)
         \/ Kind = "build" /\ \E o \in Objs, c \in Configs, v \in Variants : Build(o, c, v)
         \/ Kind = "control" /\ \E o \in Objs, i \in Indices, b \in Batches : Control(o, i, b)
         \/ Kind = "cover" /\ \E o \in Objs, i \in Indices, b \in Batches : Cover(o, i, b[1])
         \/ Kind = "force" /\ \E o \in Objs, b \in {c \in Batches : Cardinality({c[n] : n \in 1..Len(c)}) > 1} : Force(o, b)
         \/ Kind = "scribble" /\ \E x \in 1..Len(heap) : Scribble(x)
         \/ Kind = "fail" /\ \E o \in Objs, c \in Configs, n \in 1..3 : Fail(o, c, n)
         \/ Kind = "badquery" /\ \E o \in Objs, w \in {"control", "cover", "force"} : BadQuery(o, w)
         \/ Kind = "configure" /\ \E v \in Variants : Configure(v)
         \/ ((Kind = "seed" /\ JustSeeded) \/ (Kind \in {"control", "cover", "force", "badquery"} /\ Have = {}) \/ (Kind = "scribble" /\ owned = {})) /\ UNCHANGED vars
(* how often an earlier question or construction comes back                          *)
KeysOf(n) == IF log[n].op = "build" THEN {<<"build", log[n].key>>}
             ELSE IF log[n].op \in {"control", "cover", "force"} THEN {<<"ask", log[n].key[m]>> : m \in 1..Len(log[n].key)} ELSE {}
Again == Cardinality({n \in 1..Len(log) : \E m \in 1..(n - 1) : log[m].op = log[n].op /\ KeysOf(m) \cap KeysOf(n) # {}})
Show == /\ turn = 0 /\ Len(log) = MaxLen
        /\ PrintT("CASE " \o ToJson([again |-> Again, ops |-> [n \in 1..Len(log) |-> Op(log[n])]]))
        /\ turn' = -1 /\ UNCHANGED vars
SimNext == Pick \/ Do \/ Show
SimSpec == SimInit /\ [][SimNext]_svars
WP12 == <<"seed", "seed", "seed", "seed", "seed", "build", "build", "control", "control", "control", "control", "control", "control", "control", "control", "cover", "cover", "force">>
WP18 == <<"seed", "seed", "seed", "seed", "build", "build", "build", "build", "control", "control", "control", "control", "control", "cover", "scribble", "scribble", "scribble", "scribble">>
WP19 == <<"seed", "seed", "seed", "seed", "seed", "seed", "build", "build", "build", "build", "build", "build", "build", "control", "control", "control", "control", "cover", "force">>
WP22 == <<"seed", "seed", "seed", "seed", "build", "build", "build", "build", "fail", "fail", "fail", "fail", "fail", "badquery", "badquery", "control", "control", "control", "control", "cover", "force">>
WP23 == <<"seed", "seed", "seed", "seed", "build", "build", "build", "build", "fail", "badquery", "configure", "configure", "configure", "control", "control", "control", "control", "cover", "force">>
=============================================================================
