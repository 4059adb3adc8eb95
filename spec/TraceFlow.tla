------------------------------ MODULE TraceFlow ------------------------------
(* Recorded executions of the real controllers against Flow.                  *)
(*                                                                            *)
(* Every trace is one constructed object (its flows, the random numbers it    *)
(* was given, the drift, path cost and noise strength it was constructed      *)
(* with) followed by queries and their answers.  The behaviour is that of     *)
(* Flow; every write and every query is given its numerical meaning here and  *)
(* compared with what was recorded.  Verdicts are total: the names of the     *)
(* clauses that fail are collected in bad and printed when the trace ends.    *)
(*                                                                            *)
(* Recorded columns are taken over when the next column is predicted, so each *)
(* step is judged on its own.                                                 *)
EXTENDS Flow, Score, Transport, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, qn, bad, nchk, fin
tvars == <<vars, tid, qn, bad, nchk, fin>>
TraceView == <<tid, pc, ti, qn, nblk, ublk, fin>>
TraceConfigs == [be : {"np", "th"}, det : BOOLEAN, rw : BOOLEAN, bb : BOOLEAN, k : 2..5000]

tr == Traces[tid]
dim == tr.dim
N == tr.N
M == tr.M
Dims == 1..dim
Parts == 1..N
DT == Milli
SqrtDT == FSqrt(Milli)
TimeOf(i) == BAdd(tr.t1, FScale(DT, i))

Column(c) == IF c[1] = "Z" THEN tr.Z[c[2] + 1] ELSE IF c[1] = "T" THEN tr.T[c[2] + 1] ELSE tr.B[c[2] + 1]
Known(c) == Column(c) # <<>>
Finite(c) == MNum(Column(c))

(* --- ingredients --------------------------------------------------------- *)
DriftAt(fn, M2, t) == \* dim x N matrix of drift values
  LET polys == IF fn = "ftrue" THEN tr.ftrue ELSE tr.f
  IN TLCEval([d \in Dims |-> TLCEval([n \in Parts |-> PolyEval(polys[d], Point(M2, n), t)])])

Ddof == IF cfg.be = "th" THEN 1 ELSE 0
Ell2(col) == TLCEval([d \in Dims |-> FScale(VVar(col[d], Ddof), 4)])
Spread(col) == \A d \in Dims : VVar(col[d], Ddof)[1] = 1

(* the box the inducing points are drawn from: the range of the particles of   *)
(* one flow; for two flows the numpy class takes the intersection of the two   *)
(* ranges and the pytorch class their hull (the range of the other flow where  *)
(* the backward flow has collapsed to a point)                                 *)
Span(col, d) == <<VMin(col[d]), VMax(col[d])>>
Box(flows, i) ==
  IF Cardinality(flows) = 1
  THEN LET f == CHOOSE x \in flows : TRUE
       IN TLCEval([d \in Dims |-> Span(Column(<<f, i>>), d)])
  ELSE LET f == CHOOSE x \in flows : x # "B"
       IN TLCEval([d \in Dims |->
            LET a == Span(Column(<<f, i>>), d)
                b == Span(Column(<<"B", i>>), d)
            IN IF cfg.be = "np" THEN <<FMax(a[1], b[1]), FMin(a[2], b[2])>>
               ELSE IF b[1] = b[2] THEN a
               ELSE <<FMin(a[1], b[1]), FMax(a[2], b[2])>>])

(* a block of random numbers read with dimension or particle index outermost    *)
Layouts == IF cfg.be = "np" THEN <<"dim", "pt">> ELSE <<"pt", "dim">>
At(block, lay, d, n, size) == IF lay = "dim" THEN block[(d - 1) * size + n] ELSE block[(n - 1) * dim + d]
Inducing(box, ublock, lay) ==
  TLCEval([m \in 1..M |-> TLCEval([d \in Dims |->
     BAdd(box[d][1], FMul(BSub(box[d][2], box[d][1]), At(ublock, lay, d, m, M)))])])

(* density gradient g at its cell, with uniform block b *)
GradVal(g, b, lay) ==
  LET X == Points(Column(g.data))
      S == Inducing(Box(g.box, g.data[2]), tr.ub[b + 1], lay)
  IN ScoreAt(X, S, Ell2(Column(g.data)), Milli, AllDims(dim), Points(Column(g.at)))

ScoreTol == IF cfg.be = "np" THEN E8 ELSE E6
(* --- prediction of a column ------------------------------------------------ *)
(* u: which uniform block each gradient uses                                    *)
Predict(rec, nb, ublks, nlay, ulay) ==
  LET base == Column(rec.base)
      t    == TimeOf(rec.drift.t)
      fv   == DriftAt(rec.drift.fn, base, t)
      gs   == TLCEval([q \in 1..Len(rec.grads) |-> GradVal(rec.grads[q], ublks[q], ulay[q])])
      h(q, d) == BQuo(FMul(FSq(tr.g[d]), FInt(rec.grads[q].h)), <<1, 2>>)
      noise(d, n) == IF rec.noise THEN FMul(FMul(tr.g[d], SqrtDT), At(tr.nb[nb + 1], nlay, d, n, N)) ELSE Zero
      vel(d, n) == BAdd(IF rec.drift.sign = 1 THEN fv[d][n] ELSE FNeg(fv[d][n]),
                        VSum([q \in 1..Len(gs) |-> FMul(h(q, d), gs[q].val[d][n])]))
      magv(d, n) == VSum([q \in 1..Len(gs) |-> FMul(FAbs(h(q, d)), gs[q].mag[d][n])])
  IN [val |-> TLCEval([d \in Dims |-> TLCEval([n \in Parts |->
                 BAdd(BAdd(base[d][n], FMul(DT, vel(d, n))), noise(d, n))])]),
      tol |-> TLCEval([d \in Dims |-> TLCEval([n \in Parts |->
                 BAdd(FMul(E12, BAdd(One, FAbs(base[d][n]))),
                      BAdd(FMul(DT, BAdd(FMul(E9, FAbs(fv[d][n])), FMul(ScoreTol, magv(d, n)))),
                           FMul(E6, FAbs(noise(d, n)))))])])]

Matches(p, col) == \A d \in Dims, n \in Parts : Close(p.val[d][n], col[d][n], p.tol[d][n])

(* the ways in which the random blocks may have been used *)
Ways(rec, u) ==
  LET us == IF Len(rec.grads) = 2 THEN << <<u, u + 1>>, <<u + 1, u>> >>
            ELSE IF Len(rec.grads) = 1 THEN << <<u>> >> ELSE << <<>> >>
      nl == IF rec.noise THEN <<"dim", "pt">> ELSE <<"dim">>
      L  == Layouts
      M1 == Reverse(L)
      ul == IF Len(rec.grads) = 2 THEN << <<L[1], L[1]>>, <<L[2], L[2]>>, L, M1 >>
            ELSE IF Len(rec.grads) = 1 THEN << <<L[1]>>, <<L[2]>> >> ELSE << <<>> >>
  IN [i \in 1..(Len(us) * Len(nl) * Len(ul)) |->
        [us |-> us[1 + ((i - 1) \div (Len(nl) * Len(ul)))],
         ul |-> ul[1 + (((i - 1) \div Len(nl)) % Len(ul))],
         nl |-> nl[1 + ((i - 1) % Len(nl))]]]

(* --- reweighting ------------------------------------------------------------ *)
(* p: predicted column.  The witness (plan and dual potentials) was found       *)
(* outside; it is checked here against the weights and costs of the prediction. *)
Weighed(p, col, i) ==
  LET wit == tr.wit[i + 1]
      X   == Points(p.val)
      a   == TLCEval([n \in Parts |-> FMul(DT, PolyEval(tr.U, X[n], TimeOf(i)))])
      w   == SoftMax(a)
      c   == Costs(X, IF cfg.be = "np" THEN "eu" ELSE "sq")
      y   == Points(col)
      img == Image(X, wit.plan)
      sp  == VMax([d \in Dims |-> BSub(VMax(p.val[d]), VMin(p.val[d]))])
      (* how much the tolerated differences of the prediction change U dt *)
      at(n, d, s) == FMul(DT, PolyEval(tr.U, [X[n] EXCEPT ![d] = BAdd(@, s)], TimeOf(i)))
      ua  == FScale(VMax([n \in Parts |-> VSum([d \in Dims |->
                 FMax(FAbs(BSub(at(n, d, p.tol[d][n]), a[n])), FAbs(BSub(at(n, d, FNeg(p.tol[d][n])), a[n])))])]), 2)
      tol == BAdd(VMax([d \in Dims |-> VMax(p.tol[d])]),
                  BAdd(FMul(BAdd(E7, FScale(ua, N)), sp), FMul(E11, BAdd(One, VMax([d \in Dims |-> VMaxAbs(p.val[d])])))))
  IN /\ Feasible(wit.plan, w, BAdd(E8, ua))
     /\ Optimal(wit.plan, wit.u, wit.v, w, c, E7)
     /\ \A n \in Parts, d \in Dims : Close(img[n][d], y[n][d], tol)

(* --- one written cell ------------------------------------------------------- *)
CellName(c, rec) == c[1] \o "." \o (IF rec.weigh THEN "weigh" ELSE rec.kind)
PinVal(rec) == IF rec.pin = "y1" THEN tr.y1 ELSE tr.y2
Needed(rec) == {rec.tgt, rec.base} \cup UNION {{g.data, g.at} \cup {<<f, g.data[2]>> : f \in g.box} : g \in ToSet(rec.grads)}
Blocks(rec, nb, u) ==
  /\ rec.noise => Len(tr.nb) > nb /\ tr.nb[nb + 1] # <<>>
  /\ \A q \in 1..Len(rec.grads) : Len(tr.ub) >= u + q /\ tr.ub[u + q] # <<>>
Checkable(rec) == \A c \in Needed(rec) : Known(c)
(* cells in question: the flows and columns that the recording was made for       *)
Want(rec) == /\ tr.want[rec.tgt[1]] /\ (rec.kind = "pin" => tr.want.pin)
             /\ rec.tgt[2] \in ToSet(tr.cells[rec.tgt[1]])

CellOK(rec, nb, u) ==
  LET col == Column(rec.tgt) IN
  IF rec.kind = "pin"
  THEN \A d \in Dims, n \in Parts : col[d][n] = PinVal(rec)[d]
  ELSE LET ways == Ways(rec, u)
       IN \E i \in 1..Len(ways) :
            LET p == Predict(rec, nb, ways[i].us, ways[i].nl, ways[i].ul)
            IN IF rec.weigh THEN Weighed(p, col, rec.tgt[2]) ELSE Matches(p, col)

(* --- complete writing (P21): a column that is not pinned has been propagated,   *)
(* entry by entry -------------------------------------------------------------- *)
Neighbours(c) == {<<c[1], i>> : i \in {c[2] - 1, c[2] + 1} \cap 0..(k - 1)}
WrittenVerdict(rec) ==
  LET col == Column(rec.tgt) IN
  IF ~tr.want.full \/ ~Known(rec.tgt) THEN {}
  ELSE IF ~Finite(rec.tgt) THEN {"nonfinite." \o rec.tgt[1]}
  ELSE IF rec.kind = "pin" THEN {}
  ELSE (IF \E d \in Dims, n \in Parts : col[d][n] = Zero THEN {"unwritten." \o rec.tgt[1]} ELSE {})
       \cup (IF \E c \in Neighbours(rec.tgt) : Known(c) /\ \E d \in Dims, n \in Parts : col[d][n] = Column(c)[d][n]
             THEN {"notmoved." \o rec.tgt[1]} ELSE {})

(* --- calls of the user's functions (P20) ----------------------------------------- *)
(* a call: fn, the batch x (empty if it was not a dim x N array), the time t        *)
NearTime(t, i) == IsNum(t) /\ Close(t, TimeOf(i), FMul(E9, BAdd(One, FAbs(tr.t1))))
SameBatch(x, col) == \A d \in Dims, n \in Parts : IsNum(x[d][n]) /\ Close(x[d][n], col[d][n], FMul(E11, BAdd(One, FAbs(col[d][n]))))
Driven(fn) == IF fn = "ftrue" THEN {"T"} ELSE {"Z", "B"}
DriftCalls(fn) == {q \in 1..Len(tr.calls) : tr.calls[q].fn = fn}
(* the calls that show the state of cell c at its time                               *)
CallsAt(c) == {q \in DriftCalls(IF c[1] = "T" THEN "ftrue" ELSE "f") :
                 tr.calls[q].x # <<>> /\ NearTime(tr.calls[q].t, c[2]) /\ SameBatch(tr.calls[q].x, Column(c))}
ReachVerdict(rec) ==
  IF ~tr.want.calls \/ rec.kind = "pin" THEN {}
  ELSE IF ~Known(rec.base) \/ ~Finite(rec.base) THEN {"nonfinite." \o rec.base[1]}
  ELSE IF CallsAt(rec.base) = {} THEN {"state not passed to the drift." \o rec.tgt[1]} ELSE {}
CostCalls(i) == {q \in DriftCalls("U") : NearTime(tr.calls[q].t, i)}
CostVerdict(rec, nb, u) ==
  IF ~tr.want.calls \/ ~rec.weigh THEN {}
  ELSE IF \E c \in Needed(rec) : ~Known(c) \/ ~Finite(c) THEN {"nonfinite.Z"}
  ELSE IF CostCalls(rec.tgt[2]) = {} THEN {"path cost not asked"}
  ELSE IF ~Blocks(rec, nb, u) THEN {"path cost.draws"}
  ELSE LET ways == Ways(rec, u)
           ok(p) == \A q \in CostCalls(rec.tgt[2]) : LET x == tr.calls[q].x IN
                      x # <<>> /\ \A d \in Dims, n \in Parts : IsNum(x[d][n]) /\ Close(x[d][n], p.val[d][n], p.tol[d][n])
       IN IF \E i \in 1..Len(ways) : ok(Predict(rec, nb, ways[i].us, ways[i].nl, ways[i].ul)) THEN {} ELSE {"path cost at another state"}
(* no other calls                                                                     *)
InTime(t) == IsNum(t) /\ LET e == FMul(E9, BAdd(One, FAbs(tr.t1)))
                         IN BLe(BSub(tr.t1, e), t) /\ BLe(t, BAdd(TimeOf(k - 1), e))
CallVerdict(q) ==
  LET a == tr.calls[q] IN
  IF a.x = <<>> THEN {"batch shape." \o a.fn}
  ELSE IF ~a.scalar THEN {"time is not a scalar." \o a.fn}
  ELSE IF ~InTime(a.t) THEN {"time outside the interval." \o a.fn}
  ELSE IF a.fn = "U" THEN IF \E i \in 1..(k - 1) : NearTime(a.t, i) THEN {} ELSE {"time off the grid.U"}
  ELSE IF \E i \in 0..(k - 1) : NearTime(a.t, i) /\
            \E f \in Driven(a.fn) \cap Flows(cfg) : Known(<<f, i>>) /\ SameBatch(a.x, Column(<<f, i>>))
       THEN {} ELSE {"no state of the flow." \o a.fn}
CallsVerdict == IF ~tr.want.calls THEN {} ELSE UNION {{<<v, q>> : v \in CallVerdict(q)} : q \in 1..Len(tr.calls)}


StepVerdict(rec, nb, u) ==
  IF ~Want(rec) \/ ~Checkable(rec) THEN {}
  ELSE IF \E c \in Needed(rec) : ~Finite(c) THEN {"nonfinite." \o rec.tgt[1]}
  ELSE IF \E g \in ToSet(rec.grads) : ~Spread(Column(g.data)) THEN {"collapsed." \o rec.tgt[1]}
  ELSE IF ~Blocks(rec, nb, u) THEN {CellName(rec.tgt, rec) \o ".draws"}
  ELSE IF CellOK(rec, nb, u) THEN {} ELSE {CellName(rec.tgt, rec)}

CellVerdict(rec, nb, u) == WrittenVerdict(rec) \cup ReachVerdict(rec) \cup CostVerdict(rec, nb, u) \cup StepVerdict(rec, nb, u)

(* --- one query -------------------------------------------------------------- *)
GaussControl(q, fcol, bcol) == \* value and tolerance at the points of the query
  LET mb == TLCEval([d \in Dims |-> VMean(bcol[d])])
      mf == TLCEval([d \in Dims |-> VMean(fcol[d])])
      vb == TLCEval([d \in Dims |-> VVar(bcol[d], Ddof)])
      vf == TLCEval([d \in Dims |-> VVar(fcol[d], Ddof)])
      A(d, n) == FDiv(BSub(q.pts[n][d], mf[d]), vf[d])
      B(d, n) == FDiv(BSub(q.pts[n][d], mb[d]), vb[d])
      near(d, n) == FMul(E12, BAdd(One, FAbs(q.pts[n][d])))
  IN \A d \in Dims, n \in 1..Len(q.pts) :
        Close(q.res[d][n], BSub(A(d, n), B(d, n)),
              BAdd(FMul(E8, BAdd(FAbs(A(d, n)), FAbs(B(d, n)))),
                   BAdd(FDiv(near(d, n), vf[d]), FDiv(near(d, n), vb[d]))))
GradControl(q, ev, lay) ==
  LET w  == ev.what
      S  == Inducing(Box(w.box, w.i), tr.ub[ev.u + 1], lay)
      bc == Column(w.plus)
      fc == Column(w.minus)
      sb == ScoreAt(Points(bc), S, Ell2(bc), Milli, AllDims(dim), q.pts)
      sf == ScoreAt(Points(fc), S, Ell2(fc), Milli, AllDims(dim), q.pts)
  IN \A d \in Dims, n \in 1..Len(q.pts) :
        Close(q.res[d][n], BSub(sb.val[d][n], sf.val[d][n]),
              BAdd(E12, FMul(ScoreTol, BAdd(sb.mag[d][n], sf.mag[d][n]))))
ShapeOK(q) == Len(q.res) = dim /\ \A d \in Dims : Len(q.res[d]) = Len(q.pts)
ControlVerdict(q, ev) ==
  LET w == ev.what IN
  IF ~tr.want.control \/ ~Known(w.plus) \/ ~Known(w.minus) THEN {}
  ELSE IF q.err THEN {"control." \o w.kind \o ".raised"}
  ELSE IF ~ShapeOK(q) THEN {"control." \o w.kind \o ".shape"}
  ELSE IF ~Finite(w.plus) \/ ~Finite(w.minus) \/ ~Spread(Column(w.plus)) \/ ~Spread(Column(w.minus)) THEN {"collapsed"}
  ELSE IF ~MNum(q.res) THEN {"control." \o w.kind \o ".nonfinite"}
  ELSE IF w.kind = "gauss"
       THEN IF GaussControl(q, Column(w.minus), Column(w.plus)) THEN {} ELSE {"control.gauss"}
  ELSE IF Len(tr.ub) <= ev.u \/ tr.ub[ev.u + 1] = <<>> THEN {"control.grads.draws"}
  ELSE IF \E i \in 1..2 : GradControl(q, ev, Layouts[i]) THEN {} ELSE {"control.grads"}
(* forces on a batch: drift minus half g^2 times the gradient of the batch's own  *)
(* log density, inducing points in the box of the batch                          *)
Transposed(pts) == TLCEval([d \in Dims |-> TLCEval([n \in 1..Len(pts) |-> pts[n][d]])])
ForceOK(q, w, block, lay) ==
  LET X    == Transposed(q.pts)
      S    == Inducing(TLCEval([d \in Dims |-> Span(X, d)]), block, lay)
      sc   == ScoreAt(q.pts, S, Ell2(X), Milli, AllDims(dim), q.pts)
      h(d) == BQuo(FMul(FSq(tr.g[d]), FInt(w.h)), <<1, 2>>)
      polys == IF w.fn = "ftrue" THEN tr.ftrue ELSE tr.f
  IN \A d \in Dims, n \in 1..Len(q.pts) :
       LET fv == PolyEval(polys[d], q.pts[n], q.t)
           v  == BAdd(IF w.sign = 1 THEN fv ELSE FNeg(fv), FMul(h(d), sc.val[d][n]))
       IN Close(q.res[d][n], v, BAdd(E12, BAdd(FMul(E9, FAbs(fv)), FMul(ScoreTol, FMul(FAbs(h(d)), sc.mag[d][n])))))
ForceVerdict(q, ev) ==
  IF ~tr.want.force THEN {}
  ELSE IF q.err THEN {"force.raised"}
  ELSE IF ~ShapeOK(q) THEN {"force.shape"}
  ELSE IF ~MNum(q.res) THEN {"force.nonfinite"}
  ELSE IF ~q.kept THEN {"force.changes the object or the batch"}
  ELSE IF Len(tr.ub) <= ev.u \/ tr.ub[ev.u + 1] = <<>> THEN {"force.draws"}
  ELSE IF \E i \in 1..2 : ForceOK(q, ev.what, tr.ub[ev.u + 1], Layouts[i]) THEN {} ELSE {"force." \o q.fn}
InRange(x, c) == \A d \in Dims : LET r == Span(Column(c), d) IN BLe(r[1], x[d]) /\ BLe(x[d], r[2])
CoverVerdict(q, ev) ==
  IF ~tr.want.cover \/ \E c \in ev.what.ranges : ~Known(c) THEN {}
  ELSE IF q.err THEN {"cover.raised"}
  ELSE IF \E c \in ev.what.ranges : ~Finite(c) THEN {"nonfinite"}
  ELSE IF q.cov = (\A c \in ev.what.ranges : InRange(q.pts[1], c)) THEN {} ELSE {"cover"}

(* --- the trace ---------------------------------------------------------------- *)
Checked(rec) == IF tr.want.full \/ tr.want.calls \/ (Want(rec) /\ Checkable(rec)) THEN 1 ELSE 0
TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cfg = Traces[tid].cfg /\ Init
  /\ qn = 0 /\ bad = {} /\ nchk = 0 /\ fin = FALSE
TraceBuild ==
  /\ Build
  /\ IF DOMAIN val' # DOMAIN val
     THEN LET rec == last'.what
          IN /\ bad' = bad \cup {<<v, rec.tgt[2]>> : v \in CellVerdict(rec, last'.n, last'.u)}
             /\ nchk' = nchk + Checked(rec)
     ELSE UNCHANGED <<bad, nchk>>
  /\ UNCHANGED <<tid, qn, fin>>
TraceQuery ==
  /\ pc = "ready" /\ qn < Len(tr.q)
  /\ LET q == tr.q[qn + 1] IN
     \/ q.op = "control" /\ Control(q.i) /\ bad' = bad \cup {<<v, q.i>> : v \in ControlVerdict(q, last')}
     \/ q.op = "force" /\ Force(q.fn) /\ bad' = bad \cup {<<v, q.i>> : v \in ForceVerdict(q, last')}
     \/ q.op = "cover" /\ Cover(q.i) /\ bad' = bad \cup {<<v, q.i>> : v \in CoverVerdict(q, last')}
  /\ qn' = qn + 1 /\ nchk' = nchk + 1
  /\ UNCHANGED <<tid, fin>>
TraceEnd ==
  /\ pc = "ready" /\ qn = Len(tr.q) /\ ~fin
  /\ PrintT(<<"VERDICT", tid, nchk, bad \cup CallsVerdict>>)
  /\ fin' = TRUE
  /\ UNCHANGED <<vars, tid, qn, bad, nchk>>
TraceNext == TraceBuild \/ TraceQuery \/ TraceEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
(* the design's properties are evaluated in every state of every trace too       *)
TraceRules == PendHolds /\ QueryHolds /\ CompleteWhenReady
=============================================================================
