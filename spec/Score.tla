-------------------------------- MODULE Score --------------------------------
(* The sparse kernel estimate of the gradient of a log density.               *)
(* Samples X, inducing points S and query points Q are sequences of points;   *)
(* a point is a sequence of coordinates.  ell2 is the sequence of squared     *)
(* length scales, one per dimension, and C the regularisation constant.       *)
(*                                                                            *)
(* With k the Gaussian kernel, A = K(S,X) K(X,S), K' = K(S,S) + I/1000,       *)
(*   s_d = sum over samples x of -(x_d - S_d)/ell2_d k(x,S)                   *)
(* the estimate in dimension d at q is  -k(q,S) w_d,                          *)
(*   ((C + 1/1000) K' + A) w_d = s_d.                                         *)
EXTENDS Fix

Point(M, n) == TLCEval([d \in 1..Len(M) |-> M[d][n]])     \* column n of a dim x N matrix
Points(M)  == TLCEval([n \in 1..Len(M[1]) |-> Point(M, n)])

Kern(x, z, h) == \* h[d] = 1/(2 ell2_d)
  LET sq == TLCEval([d \in 1..Len(x) |-> FSq(BSub(x[d], z[d]))])
  IN FExp(FNeg(FDot(sq, h)))
HalfInv(ell2) == TLCEval([d \in 1..Len(ell2) |-> FDiv(One, FScale(ell2[d], 2))])

Jitter == Milli
(* w_d for every dimension in dims, a sequence of solutions *)
Weights(X, S, ell2, C, dims) ==
  LET h  == HalfInv(ell2)
      N  == Len(X)
      M  == Len(S)
      KX == TLCEval([m \in 1..M |-> TLCEval([n \in 1..N |-> Kern(X[n], S[m], h)])])
      KS == TLCEval([m \in 1..M |-> TLCEval([j \in 1..M |-> IF j < m THEN Zero ELSE Kern(S[m], S[j], h)])])
      c  == BAdd(C, Jitter)
      U  == TLCEval([m \in 1..M |-> TLCEval([j \in 1..M |-> IF j < m THEN Zero
              ELSE BAdd(FMul(c, IF j = m THEN BAdd(KS[m][j], Jitter) ELSE KS[m][j]),
                        FDot(KX[m], KX[j]))])])
      H  == TLCEval([m \in 1..M |-> TLCEval([j \in 1..M |-> IF j < m THEN U[j][m] ELSE U[m][j]])])
      src(d, m) == LET df == TLCEval([n \in 1..N |-> BSub(S[m][d], X[n][d])])
                   IN FDiv(FDot(df, KX[m]), ell2[d])
      B  == TLCEval([i \in 1..Len(dims) |-> TLCEval([m \in 1..M |-> src(dims[i], m)])])
  IN Solve(H, B)

(* values at the query points: result[i][q] for the i-th requested dimension; *)
(* mag[i][q] is the scale that rounding errors of the value are relative to:   *)
(* the magnitudes of the summands, plus that of the solution of the linear      *)
(* system (its small components carry errors relative to the large ones)       *)
EvalAt(S, ell2, W, Q) ==
  LET h == HalfInv(ell2)
      KQ == TLCEval([q \in 1..Len(Q) |-> TLCEval([m \in 1..Len(S) |-> Kern(Q[q], S[m], h)])])
      A  == TLCEval([i \in 1..Len(W) |-> LET top == VMaxAbs(W[i])
                       IN TLCEval([m \in 1..Len(S) |-> BAdd(FAbs(W[i][m]), top)])])
  IN [val |-> TLCEval([i \in 1..Len(W) |-> TLCEval([q \in 1..Len(Q) |-> FNeg(FDot(KQ[q], W[i]))])]),
      mag |-> TLCEval([i \in 1..Len(W) |-> TLCEval([q \in 1..Len(Q) |-> FDot(KQ[q], A[i])])])]

ScoreAt(X, S, ell2, C, dims, Q) == EvalAt(S, ell2, Weights(X, S, ell2, C, dims), Q)
AllDims(n) == [d \in 1..n |-> d]
=============================================================================
