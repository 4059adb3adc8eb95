-------------------------------- MODULE Session -------------------------------
(* Histories with several controller objects (P12, P18, P19, P22, P23): seeding the random  *)
(* stream, building objects, asking for controls and coverage in batches, and the  *)
(* caller writing into memory of its own.  Memory is explicit: the heap is a       *)
(* sequence of buffers, objects refer to buffers, answers are delivered in         *)
(* buffers.  The value of a flow is a term made of its configuration and of the    *)
(* random stream it was built from; the value of an answer is a term made of the   *)
(* flow's value, the grid index, the point and the stream.  Callbacks may raise at *)
(* any of their calls (Fail), queries may be asked beyond the grid (BadQuery), and *)
(* the caller may change settings of the process (Configure).  Mistake switches on *)
(* one of the classical ways of getting this wrong.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objs, Configs, Variants, Seeds, Indices, Batches, Ops, MaxLen, Mistake
VARIABLES stream, obj, heap, owned, cache, shared, settings, log
vars == <<stream, obj, heap, owned, cache, shared, settings, log>>

NoObj == [cfg |-> 0]
Have == {o \in Objs : obj[o] # NoObj}
New == Len(heap) + 1
(* what a flow is made of                                                         *)
FlowTerm(c, s) == <<"flow", c, s>>
Value(o) == <<heap[obj[o].body], heap[obj[o].pin]>>
Inner == {"inner", "inner2"}
Draws(i) == IF i \in Inner THEN 1 ELSE 0
(* stream after n draws: later draws of the same seed are different from earlier    *)
After(s, n) == <<s[1], s[2] + n>>
Answer(v, i, p, s) == <<"answer", v, i, p, IF i \in Inner THEN s ELSE <<-1, 0>>>>

Init == /\ stream = <<0, 0>> /\ obj = [o \in Objs |-> NoObj] /\ heap = <<>> /\ owned = {}
        /\ cache = [o \in Objs |-> <<>>] /\ shared = <<>> /\ settings = 1 /\ log = <<>>
Note(r) == log' = Append(log, r)

Seed(s) == /\ "seed" \in Ops /\ stream' = <<s, 0>>
           /\ Note([op |-> "seed", s |-> s])
           /\ UNCHANGED <<obj, heap, owned, cache, shared, settings>>

(* the caller's states y (buffer New), the propagated columns (New+1) and the       *)
(* pinned columns (New+2); the construction uses 3 draws                            *)
Build(o, c, v) ==
  LET s == IF Mistake = "entropy" THEN <<Len(log), 7>> ELSE IF Mistake = "shared" /\ shared # <<>> THEN shared ELSE stream
      t == IF Mistake = "variant" THEN FlowTerm(100 * c + v, s)
           ELSE IF Mistake = "sensitive" THEN FlowTerm(100 * c + settings, s)
           ELSE IF Mistake = "poison" /\ shared = <<"left">> THEN FlowTerm(100 * c, s) ELSE FlowTerm(c, s)
      pin == IF Mistake = "aliasy" THEN New ELSE New + 2
  IN /\ "build" \in Ops
     /\ heap' = heap \o << <<"y", c, 0>>, t, <<"y", c, 0>> >>
     /\ owned' = owned \cup {New}
     /\ obj' = [obj EXCEPT ![o] = [cfg |-> c, y |-> New, body |-> New + 1, pin |-> pin, value |-> <<t, <<"y", c, 0>>>>]]
     /\ cache' = [cache EXCEPT ![o] = <<>>]
     /\ shared' = stream
     /\ stream' = After(stream, 3)
     /\ settings' = IF Mistake = "settings" /\ v = 2 THEN 0 ELSE settings
     /\ Note([op |-> "build", o |-> o, c |-> c, v |-> v, key |-> <<c, stream>>, value |-> <<t, <<"y", c, 0>>>>])

(* a batch of points (buffer New, the caller's) and the answer (New+1)               *)
Control(o, i, b) ==
  LET s == IF Mistake = "stale" /\ i \in Inner /\ cache[o] # <<>> THEN cache[o] ELSE stream
      val(n) == IF Mistake = "batch" THEN Answer(Value(o), i, 100 * b[n] + b[1], s) ELSE Answer(Value(o), i, b[n], s)
      ans == [n \in 1..Len(b) |-> val(n)]
      key == [n \in 1..Len(b) |-> <<Value(o), i, b[n], IF i \in Inner THEN stream ELSE <<-1, 0>>>>]
      h1 == heap \o << <<"points", b>>, ans >>
  IN /\ "control" \in Ops /\ o \in Have
     /\ heap' = IF Mistake = "writes" /\ i = "edge" THEN [h1 EXCEPT ![obj[o].body] = <<"centred", @>>]
                ELSE IF Mistake = "writesarg" THEN [h1 EXCEPT ![New] = <<"shifted", b>>] ELSE h1
     /\ owned' = owned \cup {New, IF Mistake = "aliasanswer" THEN obj[o].body ELSE New + 1}
     /\ cache' = IF i \in Inner THEN [cache EXCEPT ![o] = s] ELSE cache
     /\ stream' = After(stream, Draws(i))
     /\ Note([op |-> "control", o |-> o, i |-> i, b |-> b, key |-> key, value |-> ans, arg |-> New])
     /\ UNCHANGED <<obj, shared, settings>>
Cover(o, i, p) ==
  /\ "cover" \in Ops /\ o \in Have
  /\ heap' = Append(heap, <<"points", <<p>>>>) /\ owned' = owned \cup {New}
  /\ Note([op |-> "cover", o |-> o, i |-> i, b |-> <<p>>, key |-> << <<Value(o), i, p, <<-2, 0>>>> >>,
           value |-> << <<"cover", Value(o), i, p, <<-2, 0>>>> >>, arg |-> New])
  /\ UNCHANGED <<stream, obj, cache, shared, settings>>
(* the force of a batch: made of the configuration and the batch alone               *)
Force(o, b) ==
  LET val == IF Mistake = "forceflow" THEN <<"force", Value(o), b, stream>> ELSE <<"force", obj[o].cfg, b, stream>>
  IN /\ "force" \in Ops /\ o \in Have
     /\ heap' = heap \o << IF Mistake = "writesarg" THEN <<"shifted", b>> ELSE <<"points", b>>, <<val>> >>
     /\ owned' = owned \cup {New, New + 1}
     /\ stream' = After(stream, 1)
     /\ Note([op |-> "force", o |-> o, i |-> "any", b |-> b, key |-> << <<obj[o].cfg, b, stream>> >>, value |-> <<val>>, arg |-> New])
     /\ UNCHANGED <<obj, cache, shared, settings>>
(* the caller writes into one of its buffers                                         *)
Scribble(x) == /\ "scribble" \in Ops /\ x \in owned
               /\ heap' = [heap EXCEPT ![x] = <<"scribble", Len(log)>>]
               /\ Note([op |-> "scribble", x |-> x, rank |-> Cardinality({y \in owned : y <= x})])
               /\ UNCHANGED <<stream, obj, owned, cache, shared, settings>>
(* a callback raises at its n-th call: the construction ends there, the error        *)
(* reaches the caller, who keeps the states it passed                                *)
Fail(o, c, n) ==
  /\ "fail" \in Ops
  /\ heap' = IF Mistake = "half" /\ o \in Have THEN [Append(heap, <<"y", c, 0>>) EXCEPT ![obj[o].body] = <<"half", c, n>>]
             ELSE Append(heap, <<"y", c, 0>>)
  /\ owned' = owned \cup {New}
  /\ stream' = After(stream, n)
  /\ shared' = IF Mistake = "poison" THEN <<"left">> ELSE shared
  /\ settings' = IF Mistake = "leak" THEN 0 ELSE settings
  /\ Note([op |-> "fail", o |-> o, c |-> c, n |-> n, outcome |-> IF Mistake = "swallow" /\ n = 2 THEN "returned" ELSE "raised"])
  /\ UNCHANGED <<obj, cache>>
(* a question about a grid point that does not exist, or for a force whose drift      *)
(* raises (before or after the inducing points are drawn)                            *)
BadQuery(o, what) ==
  /\ "badquery" \in Ops /\ o \in Have
  /\ stream' \in {stream} \cup (IF what = "force" THEN {After(stream, 1)} ELSE {})
  /\ Note([op |-> "badquery", o |-> o, what |-> what, outcome |-> "raised"])
  /\ UNCHANGED <<obj, heap, owned, cache, shared, settings>>
(* the caller changes settings of the process                                        *)
Configure(v) == /\ "configure" \in Ops /\ v # settings /\ settings' = v
                /\ Note([op |-> "configure", v |-> v])
                /\ UNCHANGED <<stream, obj, heap, owned, cache, shared>>
Next == Len(log) < MaxLen /\
  \/ \E s \in Seeds : Seed(s)
  \/ \E o \in Objs, c \in Configs, v \in Variants : Build(o, c, v)
  \/ \E o \in Objs, i \in Indices, b \in Batches : Control(o, i, b)
  \/ \E o \in Objs, i \in Indices, b \in Batches : Cover(o, i, b[1])
  \/ \E o \in Objs, b \in Batches : Force(o, b)
  \/ \E x \in 1..Len(heap) : Scribble(x)
  \/ \E o \in Objs, c \in Configs, n \in 1..3 : Fail(o, c, n)
  \/ \E o \in Objs, w \in {"control", "cover", "force"} : BadQuery(o, w)
  \/ \E v \in Variants : Configure(v)
Spec == Init /\ [][Next]_vars

(* --- what has to hold --------------------------------------------------------- *)
(* flows keep the value they were built with                                         *)
FlowsStable == \A o \in Have : Value(o) = obj[o].value
(* equal random state and configuration give equal flows                             *)
Reproducible == \A a, b \in 1..Len(log) : log[a].op = "build" /\ log[b].op = "build" /\ log[a].key = log[b].key
                  => log[a].value = log[b].value
(* the answer for a point is a function of flow, index, point and draws              *)
Asked == {a \in 1..Len(log) : log[a].op \in {"control", "cover", "force"}}
Functional == \A a, b \in Asked : \A m \in 1..Len(log[a].key), n \in 1..Len(log[b].key) :
                  log[a].key[m] = log[b].key[n] => log[a].value[m] = log[b].value[n]
(* only the caller writes into its buffers: the arguments keep their values           *)
ArgumentsKept == \A a \in Asked : heap[log[a].arg] = <<"points", log[a].b>>
                   \/ \E c \in a..Len(log) : log[c].op = "scribble" /\ log[c].x = log[a].arg
(* no buffer is both the caller's and part of an object                               *)
NoSharing == \A o \in Have : obj[o].body \notin owned /\ obj[o].pin \notin owned
(* what fails says so                                                                 *)
FailuresSurface == \A a \in 1..Len(log) : log[a].op \in {"fail", "badquery"} => log[a].outcome = "raised"
(* only the caller changes settings                                                   *)
SettingsKept == [][settings' = settings \/ log'[Len(log')].op = "configure"]_vars
QueriesKeepFlows == [][\A o \in Have : (obj'[o] = obj[o]) => Value(o)' = Value(o)]_vars
=============================================================================
