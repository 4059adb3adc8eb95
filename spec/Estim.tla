-------------------------------- MODULE Estim --------------------------------
(* A session with the gradient estimators on one set of samples and inducing  *)
(* points.  A handle is an estimate in functional form; it may be evaluated    *)
(* at any of the query sets, any number of times, interleaved with other       *)
(* handles and with direct calls.  Query set 0 is the sample set itself.       *)
(*                                                                            *)
(* Every question asks for a (dimension, query set) pair; dimension 0 means    *)
(* all dimensions at once.  The meaning of a question is the closed form of    *)
(* Score.tla at that pair, whatever implementation, container, form or         *)
(* history it was asked with.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS
  Dims,        \* dimensions
  Sets,        \* query sets (without 0)
  Calls,       \* calls of the session, a subset of AllCalls
  MaxLen       \* length of a session
Single == {"sep", "old", "leg"}          \* one dimension per call
All    == {"all", "tor"}                 \* all dimensions in one call
Impls  == Single \cup All
Equal  == {"float", "int", "npfloat", "tensor0"}    \* one length scale for every dimension
Vector == {"list", "tuple", "array", "view", "intlist", "intarray", "tensor"}   \* int...: of whole numbers
Forms(impl) == (Equal \cup Vector) \ (IF impl = "tor" THEN {} ELSE {"tensor", "tensor0"})
Boxes(impl) == {"array", "fortran", "view"} \cup (IF impl = "tor" THEN {"tensor"} ELSE {})
Selections(impl) == IF impl \in Single THEN Dims ELSE {0}

VARIABLES handles, log, n
vars == <<handles, log, n>>
Call(impl, form, box, d) == [impl |-> impl, form |-> form, box |-> box, d |-> d]
AllCalls == {c \in [impl : Impls, form : Equal \cup Vector, box : {"array", "fortran", "view", "tensor"}, d : Dims \cup {0}] :
            c.form \in Forms(c.impl) /\ c.box \in Boxes(c.impl) /\ c.d \in Selections(c.impl)}
Question(c, q) == <<c.d, q>>
Init == handles = <<>> /\ log = <<>> /\ n = 0
Direct(c) == /\ log' = Append(log, [op |-> "direct", h |-> 0, call |-> c, q |-> 0])
             /\ UNCHANGED handles
Make(c) == /\ handles' = Append(handles, c)
           /\ log' = Append(log, [op |-> "make", h |-> Len(handles) + 1, call |-> c, q |-> 0])
Eval(h, q) == /\ h \in 1..Len(handles)
              /\ log' = Append(log, [op |-> "eval", h |-> h, call |-> handles[h], q |-> q])
              /\ UNCHANGED handles
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \/ \E c \in Calls : Direct(c) \/ Make(c)
           \/ \E h \in 1..Len(handles), q \in Sets \cup {0} : Eval(h, q)
Spec == Init /\ [][Next]_vars
(* questions that have been answered so far, and that an evaluation concerns    *)
(* the estimate its handle was made for, however many calls lie between         *)
Answered == {i \in 1..Len(log) : log[i].op # "make"}
HandlesStable == \A i \in 1..Len(log) : log[i].op = "eval" =>
  \E j \in 1..(i - 1) : log[j].op = "make" /\ log[j].h = log[i].h /\ log[j].call = log[i].call
SelectionOK == \A i \in Answered : (log[i].call.d = 0) <=> (log[i].call.impl \in All)
HandlesFixed == [][\A h \in 1..Len(handles) : handles'[h] = handles[h]]_vars
=============================================================================
