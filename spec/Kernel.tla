-------------------------------- MODULE Kernel --------------------------------
(* Sessions with Gaussian kernel objects.  An object has parameters (length     *)
(* scale, signal variance) and remembers the last kernel matrix it computed;    *)
(* no answer may come from that memory.  Point set 0 as second argument means   *)
(* that it is left out (the first one is used).                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Objects, Sets, MaxLen
VARIABLES memory, log
vars == <<memory, log>>
Ask(op, o, x, y) == [op |-> op, o |-> o, x |-> x, y |-> y]
(* the pair of sets an answer has to belong to                                    *)
Subject(a) == <<a.x, IF a.y = 0 THEN a.x ELSE a.y>>
Init == memory = [o \in Objects |-> <<>>] /\ log = <<>>
Value(o, x, y) == /\ log' = Append(log, [ask |-> Ask("value", o, x, y), about |-> Subject(Ask("value", o, x, y))])
                  /\ memory' = [memory EXCEPT ![o] = Subject(Ask("value", o, x, y))]
(* the gradient computes its own kernel matrix, which is then the remembered one  *)
Gradient(o, x, y) == /\ memory' = [memory EXCEPT ![o] = Subject(Ask("gradient", o, x, y))]
                     /\ log' = Append(log, [ask |-> Ask("gradient", o, x, y), about |-> memory'[o]])
Next == Len(log) < MaxLen /\ \E o \in Objects, x \in Sets, y \in Sets \cup {0} : Value(o, x, y) \/ Gradient(o, x, y)
Spec == Init /\ [][Next]_vars
(* no earlier call shows in an answer                                             *)
NoMemory == \A i \in 1..Len(log) : log[i].about = Subject(log[i].ask)
MemoryIsLast == \A o \in Objects : memory[o] # <<>> =>
  LET s == {i \in 1..Len(log) : log[i].ask.o = o}
      m == CHOOSE i \in s : \A j \in s : j <= i
  IN memory[o] = Subject(log[m].ask)
=============================================================================
