-------------------------------- MODULE Flow --------------------------------
(* The flows of one controller object and the queries on it.                  *)
(*                                                                            *)
(* A flow is a column of particles per grid point 0..k-1: "Z" the forward     *)
(* flow, "T" the true-drift flow of a Brownian bridge (only with path weights *)
(* and a bridge), "B" the backward flow.  A cell is <<flow, grid index>>.     *)
(* What is written into a cell is described by a step record, which says from *)
(* which cells, callback, time, random block and density gradients the new    *)
(* particles are made; TraceFlow.tla gives these records their numerical      *)
(* meaning.  The actions follow the loops of the implementation; Rule says,   *)
(* independently of any order, what each cell must be made from, and          *)
(* RulesHold states that the loops do exactly that.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS
  Configs,     \* set of records [be, det, rw, bb, k]; be is "np" or "th"
  MaxQueries   \* bound on the number of queries (model checking only)

VARIABLES
  cfg,         \* configuration of the object
  pc,          \* "fwd", "weigh", "true", "bwd", "ready"
  ti,          \* loop counter of the current loop
  val,         \* cell -> step record, for the cells written so far
  pend,        \* propagated, not yet reweighted column (a singleton or empty)
  nblk, ublk,  \* blocks of normal / uniform random numbers drawn so far
  last         \* the latest write or query

vars == <<cfg, pc, ti, val, pend, nblk, ublk, last>>

(* ------------------------------------------------------------------------ *)
(* vocabulary                                                                *)
(* ------------------------------------------------------------------------ *)
k == cfg.k
Bridge(c) == c.rw /\ c.bb                 \* a true-drift flow exists
Flows(c)  == {"Z", "B"} \cup (IF Bridge(c) THEN {"T"} ELSE {})
Cells(c)  == Flows(c) \X (0..(c.k - 1))
Reference(c) == IF Bridge(c) THEN "T" ELSE "Z"    \* flow the controls are relative to
Edge(c, i)  == i <= 5 \/ i >= c.k - 5

NoDrift == [fn |-> "none", t |-> -1, sign |-> 0]
Drift(fn, t, sign) == [fn |-> fn, t |-> t, sign |-> sign]
(* gradient of the log density of the particles in cell data, at the particles *)
(* of cell at; inducing points uniform in the box of the flows in box, at the  *)
(* grid index of data; it enters with h/2 g^2                                  *)
Grad(data, at, box, h) == [data |-> data, at |-> at, box |-> box, h |-> h]

(* kind: "pin", "launch" (noisy first step), "flow" (deterministic step),      *)
(* "noisy" (stochastic mode)                                                   *)
Pin(cell, v) == [tgt |-> cell, kind |-> "pin", pin |-> v, base |-> cell, drift |-> NoDrift,
                 noise |-> FALSE, grads |-> <<>>, weigh |-> FALSE]
Move(cell, kind, base, drift, noise, grads, weigh) ==
  [tgt |-> cell, kind |-> kind, pin |-> "none", base |-> base, drift |-> drift,
   noise |-> noise, grads |-> grads, weigh |-> weigh]

(* ------------------------------------------------------------------------ *)
(* what every cell has to be made from                                       *)
(* ------------------------------------------------------------------------ *)
FwdKind(c, i) == IF ~c.det THEN "noisy" ELSE IF i = 1 THEN "launch" ELSE "flow"
BwdKind(c, i) == IF ~c.det THEN "noisy" ELSE IF i = c.k - 2 THEN "launch" ELSE "flow"
TruKind(i)    == IF i = 1 THEN "launch" ELSE "flow"
Own(f, i, h)  == Grad(<<f, i>>, <<f, i>>, {f}, h)

Rule(c, f, i) ==
  CASE f = "Z" /\ i = 0 -> Pin(<<"Z", 0>>, "y1")
    [] f = "Z" /\ i > 0 ->
         Move(<<"Z", i>>, FwdKind(c, i), <<"Z", i - 1>>, Drift("f", i - 1, 1),
              FwdKind(c, i) # "flow",
              IF FwdKind(c, i) = "flow" THEN << Own("Z", i - 1, -1) >> ELSE <<>>,
              c.rw)
    [] f = "T" /\ i = 0 -> Pin(<<"T", 0>>, "y1")
    [] f = "T" /\ i > 0 ->
         Move(<<"T", i>>, TruKind(i), <<"T", i - 1>>, Drift("ftrue", i - 1, 1),
              TruKind(i) = "launch",
              IF TruKind(i) = "flow" THEN << Own("T", i - 1, -1) >> ELSE <<>>,
              FALSE)
    [] f = "B" /\ i = c.k - 1 -> Pin(<<"B", i>>, "y2")
    [] f = "B" /\ i = 0       -> Pin(<<"B", 0>>, "y1")
    [] f = "B" /\ 0 < i /\ i < c.k - 1 ->
         Move(<<"B", i>>, BwdKind(c, i), <<"B", i + 1>>, Drift("f", i + 1, -1),
              BwdKind(c, i) # "flow",
              << Grad(<<"Z", i + 1>>, <<"B", i + 1>>, {"Z", "B"}, 2) >> \o
              (IF BwdKind(c, i) = "flow"
               THEN << Grad(<<"B", i + 1>>, <<"B", i + 1>>, {"Z", "B"}, -1) >> ELSE <<>>),
              FALSE)

(* what a control query at index i has to be made from                         *)
ControlRule(c, i) ==
  [kind |-> IF Edge(c, i) THEN "gauss" ELSE "grads",
   plus |-> <<"B", i>>, minus |-> <<Reference(c), i>>, box |-> {Reference(c), "B"}]
(* the force wrappers are what a flow step adds: drift and own gradient of the   *)
(* batch they are given, with fresh inducing points                            *)
ForceRule(c, fn) ==
  LET f == IF fn = "ftrue" THEN "T" ELSE "Z"
      r == Rule([c EXCEPT !.det = TRUE], f, 2)
  IN [kind |-> "force", fn |-> r.drift.fn, sign |-> r.drift.sign, h |-> r.grads[1].h]
CoverRule(c, i) == [kind |-> "cover", ranges |-> {<<"Z", i>>, <<"B", i>>}]

(* ------------------------------------------------------------------------ *)
(* the object at work                                                        *)
(* ------------------------------------------------------------------------ *)
Ev(op, what, n, u) == [op |-> op, what |-> what, n |-> n, u |-> u]
NoEv == Ev("none", <<>>, 0, 0)

Init ==
  /\ cfg \in Configs
  /\ pc = "fwd" /\ ti = 0
  /\ val = << >> /\ pend = {}
  /\ nblk = 0 /\ ublk = 0
  /\ last = NoEv

Write(rec) == \* one column is written, consuming its random blocks
  /\ val' = [c \in DOMAIN val \cup {rec.tgt} |-> IF c = rec.tgt THEN rec ELSE val[c]]
  /\ last' = Ev("write", rec, nblk, ublk)
  /\ nblk' = nblk + (IF rec.noise THEN 1 ELSE 0)
  /\ ublk' = ublk + Len(rec.grads)

(* --- forward loop: ti = 0 .. k-1 --- *)
Propagate(rec) == \* with path weights the column still has to be reweighted
  IF rec.weigh
  THEN /\ pend' = {rec} /\ pc' = "weigh"
       /\ UNCHANGED <<ti, val, nblk, ublk, last>>
  ELSE /\ Write(rec) /\ ti' = ti + 1 /\ UNCHANGED <<pend, pc>>

FwdPin ==
  /\ pc = "fwd" /\ ti = 0
  /\ Propagate(Pin(<<"Z", 0>>, "y1"))
  /\ UNCHANGED cfg
FwdLaunch ==
  /\ pc = "fwd" /\ ti = 1 /\ ti < k /\ cfg.det
  /\ Propagate(Move(<<"Z", ti>>, "launch", <<"Z", ti - 1>>, Drift("f", ti - 1, 1), TRUE, <<>>, cfg.rw))
  /\ UNCHANGED cfg
FwdFlow ==
  /\ pc = "fwd" /\ ti > 1 /\ ti < k /\ cfg.det
  /\ Propagate(Move(<<"Z", ti>>, "flow", <<"Z", ti - 1>>, Drift("f", ti - 1, 1), FALSE,
                    << Grad(<<"Z", ti - 1>>, <<"Z", ti - 1>>, {"Z"}, -1) >>, cfg.rw))
  /\ UNCHANGED cfg
FwdNoisy ==
  /\ pc = "fwd" /\ ti > 0 /\ ti < k /\ ~cfg.det
  /\ Propagate(Move(<<"Z", ti>>, "noisy", <<"Z", ti - 1>>, Drift("f", ti - 1, 1), TRUE, <<>>, cfg.rw))
  /\ UNCHANGED cfg
FwdWeigh ==
  /\ pc = "weigh"
  /\ \E rec \in pend : Write(rec)
  /\ pend' = {} /\ pc' = "fwd" /\ ti' = ti + 1
  /\ UNCHANGED cfg
FwdEnd ==
  /\ pc = "fwd" /\ ti = k
  /\ pc' = IF Bridge(cfg) THEN "true" ELSE "bwd"
  /\ ti' = 0
  /\ UNCHANGED <<cfg, val, pend, nblk, ublk, last>>

(* --- true-drift loop --- *)
TruPin ==
  /\ pc = "true" /\ ti = 0
  /\ Write(Pin(<<"T", 0>>, "y1"))
  /\ ti' = ti + 1 /\ UNCHANGED <<cfg, pc, pend>>
TruLaunch ==
  /\ pc = "true" /\ ti = 1 /\ ti < k
  /\ Write(Move(<<"T", ti>>, "launch", <<"T", ti - 1>>, Drift("ftrue", ti - 1, 1), TRUE, <<>>, FALSE))
  /\ ti' = ti + 1 /\ UNCHANGED <<cfg, pc, pend>>
TruFlow ==
  /\ pc = "true" /\ ti > 1 /\ ti < k
  /\ Write(Move(<<"T", ti>>, "flow", <<"T", ti - 1>>, Drift("ftrue", ti - 1, 1), FALSE,
                << Grad(<<"T", ti - 1>>, <<"T", ti - 1>>, {"T"}, -1) >>, FALSE))
  /\ ti' = ti + 1 /\ UNCHANGED <<cfg, pc, pend>>
TruEnd ==
  /\ pc = "true" /\ ti = k
  /\ pc' = "bwd" /\ ti' = 0
  /\ UNCHANGED <<cfg, val, pend, nblk, ublk, last>>

(* --- backward loop: ti = 0 .. k-2, column k-1-ti, then the initial state --- *)
Rev == k - 1 - ti
FwdGrad == Grad(<<"Z", Rev + 1>>, <<"B", Rev + 1>>, {"Z", "B"}, 2)
BwdGrad == Grad(<<"B", Rev + 1>>, <<"B", Rev + 1>>, {"Z", "B"}, -1)
BwdPin ==
  /\ pc = "bwd" /\ ti = 0
  /\ Write(Pin(<<"B", k - 1>>, "y2"))
  /\ ti' = ti + 1 /\ UNCHANGED <<cfg, pc, pend>>
BwdNoise ==
  /\ pc = "bwd" /\ ti > 0 /\ ti < k - 1 /\ (ti = 1 \/ ~cfg.det)
  /\ Write(Move(<<"B", Rev>>, IF cfg.det THEN "launch" ELSE "noisy", <<"B", Rev + 1>>,
                Drift("f", Rev + 1, -1), TRUE, << FwdGrad >>, FALSE))
  /\ ti' = ti + 1 /\ UNCHANGED <<cfg, pc, pend>>
BwdFlow ==
  /\ pc = "bwd" /\ ti > 1 /\ ti < k - 1 /\ cfg.det
  /\ Write(Move(<<"B", Rev>>, "flow", <<"B", Rev + 1>>, Drift("f", Rev + 1, -1), FALSE,
                << FwdGrad, BwdGrad >>, FALSE))
  /\ ti' = ti + 1 /\ UNCHANGED <<cfg, pc, pend>>
BwdEnd ==
  /\ pc = "bwd" /\ ti = k - 1
  /\ Write(Pin(<<"B", 0>>, "y1"))
  /\ pc' = "ready" /\ ti' = 0
  /\ UNCHANGED <<cfg, pend>>

(* --- queries; ti counts them --- *)
Control(i) ==
  /\ pc = "ready"
  /\ last' = Ev("control", [i |-> i,
       kind |-> IF i <= 5 \/ i >= k - 5 THEN "gauss" ELSE "grads",
       plus |-> <<"B", i>>,
       minus |-> IF cfg.rw /\ cfg.bb THEN <<"T", i>> ELSE <<"Z", i>>,
       box |-> IF cfg.rw /\ cfg.bb THEN {"T", "B"} ELSE {"Z", "B"}], nblk, ublk)
  /\ ublk' = ublk + (IF i <= 5 \/ i >= k - 5 THEN 0 ELSE 1)
  /\ ti' = ti + 1
  /\ UNCHANGED <<cfg, pc, val, pend, nblk>>
Cover(i) ==
  /\ pc = "ready"
  /\ last' = Ev("cover", [i |-> i, kind |-> "cover", ranges |-> {<<"Z", i>>, <<"B", i>>}], nblk, ublk)
  /\ ti' = ti + 1
  /\ UNCHANGED <<cfg, pc, val, pend, nblk, ublk>>
(* the forces on any batch at any time; the object only hands out random numbers *)
Force(fn) ==
  /\ pc = "ready" /\ (fn = "f" \/ Bridge(cfg))
  /\ last' = Ev("force", [kind |-> "force", fn |-> fn, sign |-> 1, h |-> -1], nblk, ublk)
  /\ ublk' = ublk + 1
  /\ ti' = ti + 1
  /\ UNCHANGED <<cfg, pc, val, pend, nblk>>

Build == \/ FwdPin \/ FwdLaunch \/ FwdFlow \/ FwdNoisy \/ FwdWeigh \/ FwdEnd
         \/ TruPin \/ TruLaunch \/ TruFlow \/ TruEnd
         \/ BwdPin \/ BwdNoise \/ BwdFlow \/ BwdEnd
Query == \/ \E i \in 0..(k - 1) : (0 < i /\ i < k - 1 /\ Control(i)) \/ Cover(i)
         \/ \E fn \in {"f", "ftrue"} : Force(fn)
Next  == Build \/ (ti < MaxQueries /\ Query)
Spec  == Init /\ [][Next]_vars /\ WF_vars(Build)

(* ------------------------------------------------------------------------ *)
(* properties of the design                                                  *)
(* ------------------------------------------------------------------------ *)
Have == DOMAIN val
TypeOK ==
  /\ cfg \in Configs /\ pc \in {"fwd", "weigh", "true", "bwd", "ready"}
  /\ Have \subseteq Cells(cfg) /\ nblk \in Nat /\ ublk \in Nat
(* the loops make every cell from what the rule says: drift at the time of     *)
(* the column it starts from, the right gradients with the right weights, ... *)
RulesHold == \A c \in Have : val[c] = Rule(cfg, c[1], c[2])
(* the propagated column is what the rule says before it is reweighted         *)
PendHolds == \A r \in pend : r = Rule(cfg, r.tgt[1], r.tgt[2]) /\ r.tgt \notin Have
(* nothing is read before it is written                                        *)
Reads(r) == (IF r.kind = "pin" THEN {} ELSE {r.base}) \cup
            UNION {{g.data, g.at} \cup {<<f, g.data[2]>> : f \in g.box} : g \in ToSet(r.grads)}
ReadsDefined == \A c \in Have : Reads(val[c]) \subseteq Have
(* ... and no flow step reads its own or a later cell of its flow              *)
Acyclic == \A c \in Have : \A r \in Reads(val[c]) :
             r[1] = c[1] => IF c[1] = "B" THEN r[2] = c[2] + 1 ELSE r[2] = c[2] - 1
Pinned ==
  /\ \A f \in {"Z", "T", "B"} : <<f, 0>> \in Have => val[<<f, 0>>].pin = "y1"
  /\ <<"B", k - 1>> \in Have => val[<<"B", k - 1>>].pin = "y2"
  /\ \A c \in Have : val[c].kind = "pin" => c[2] = 0 \/ c = <<"B", k - 1>>
DriftTimes == \A c \in Have : val[c].kind # "pin" =>
  /\ val[c].drift.t = val[c].base[2]
  /\ val[c].drift.fn = IF c[1] = "T" THEN "ftrue" ELSE "f"
  /\ val[c].drift.sign = IF c[1] = "B" THEN -1 ELSE 1
Weighted == \A c \in Have : val[c].weigh <=> (c[1] = "Z" /\ c[2] > 0 /\ cfg.rw)
ForwardGradFromZ == \A c \in Have : c[1] = "B" => \A g \in ToSet(val[c].grads) : g.data[1] # "T"
StochasticNoGrad == ~cfg.det => \A c \in Have : c[1] = "Z" => val[c].grads = <<>>
(* every noisy column has its own block of random numbers, and so has every    *)
(* gradient: the totals are the sums over the written cells                    *)
SumOver(S, Op(_)) == FoldLeft(LAMBDA a, c : a + Op(c), 0, SetToSeq(S))
DrawsFresh ==
  LET Nz(c) == IF val[c].noise THEN 1 ELSE 0
      Gr(c) == Len(val[c].grads)
  IN /\ nblk = SumOver(Have, Nz)
     /\ pc # "ready" => ublk = SumOver(Have, Gr)
CompleteWhenReady == pc = "ready" => Have = Cells(cfg)
QueryHolds ==
  /\ last.op = "control" =>
       LET r == ControlRule(cfg, last.what.i)
       IN /\ last.what.kind = r.kind /\ last.what.plus = r.plus
          /\ last.what.minus = r.minus /\ last.what.box = r.box
          /\ {r.plus, r.minus} \subseteq Have
  /\ last.op = "force" => last.what = ForceRule(cfg, last.what.fn)
  /\ last.op = "cover" => last.what.ranges = CoverRule(cfg, last.what.i).ranges
(* written cells never change; queries change nothing                          *)
WriteOnce == [][\A c \in Have : c \in DOMAIN val' /\ val'[c] = val[c]]_vars
QueryFrame == [][pc = "ready" => UNCHANGED <<cfg, pc, val, pend, nblk>>]_vars
Terminates == <>[](pc = "ready")
=============================================================================
