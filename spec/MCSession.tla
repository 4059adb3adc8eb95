------------------------------- MODULE MCSession ------------------------------
EXTENDS Session, Json
(* an operation of a history, for the replay on the real code                        *)
Op(r) == IF r.op = "seed" THEN [op |-> "seed", s |-> r.s]
  ELSE IF r.op = "build" THEN [op |-> "build", o |-> r.o, c |-> r.c, v |-> r.v]
  ELSE IF r.op = "fail" THEN [op |-> "fail", o |-> r.o, c |-> r.c, n |-> r.n]
  ELSE IF r.op = "badquery" THEN [op |-> "badquery", o |-> r.o, what |-> r.what]
  ELSE IF r.op = "configure" THEN [op |-> "configure", v |-> r.v]
  ELSE IF r.op = "scribble" THEN [op |-> "scribble", rank |-> r.rank]
  ELSE IF r.op = "force" THEN [op |-> "force", o |-> r.o, b |-> r.b]
  ELSE [op |-> r.op, o |-> r.o, i |-> r.i, b |-> r.b]
OneBatch == {<<1>>}
SmallBatches == {<<1>>, <<1, 2>>, <<2, 1>>}
AllBatches == {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<1, 2, 3>>, <<3, 3, 1>>, <<2, 3, 1, 4>>, <<4, 4>>, <<5, 1, 2, 3, 4>>, <<4, 1, 3, 5, 2, 2, 1>>, <<5>>, <<5, 1>>, <<1, 2, 2, 4, 1, 1, 2, 4, 3, 1, 2, 2, 4, 1, 5, 2, 1>>}
=============================================================================
