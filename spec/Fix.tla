--------------------------------- MODULE Fix ---------------------------------
(* Fixed-point real arithmetic on top of BigNum: the number n stands for       *)
(* n / 10^24.  Vectors are sequences of fixed-point numbers, matrices are      *)
(* sequences of rows.  <<2>> marks NaN and <<3>>, <<-3>> the infinities in     *)
(* recorded data; they are recognised by IsNum and never enter arithmetic.     *)
EXTENDS BigNum, TLC

Zero == <<0>>
One  == DOne
FInt(n) == BMul(BInt(n), One)
FInv(n) == BQuo(One, BInt(n))                    \* 1/n
Dec(m, e) == BQuo(FInt(m), BInt(e))              \* m/e
IsNum(a) == a[1] \in {-1, 0, 1}

FNeg(a) == DNeg(a)
FAbs(a) == IF a[1] < 0 THEN DNeg(a) ELSE a
FDiv(a, b) == BQuo(BMul(a, One), b)
FSq(a) == FMul(a, a)
FSqrt(a) == BSqrt(BMul(a, One))
FLt(a, b) == ~BLe(b, a)
FMin(a, b) == IF BLe(a, b) THEN a ELSE b
FMax(a, b) == IF BLe(a, b) THEN b ELSE a
FScale(a, n) == BMul(a, BInt(n))                 \* times a small integer
FHalf(a) == BQuo(a, <<1, 2>>)
Close(a, b, tol) == BLe(FAbs(BSub(a, b)), tol)

(* 10^-e *)
RECURSIVE Eps(_)
Eps(e) == IF e = 0 THEN One ELSE BQuo(Eps(e - 1), <<1, 10>>)
E6 == Eps(6)
E7 == Eps(7)
E8 == Eps(8)
E9 == Eps(9)
E11 == Eps(11)
E12 == Eps(12)
Milli == Eps(3)

VSum(s) == FoldLeft(BAdd, Zero, s)
VAbsSum(s) == FoldLeft(LAMBDA a, x : BAdd(a, FAbs(x)), Zero, s)
VMin(s) == FoldLeft(FMin, s[1], s)
VMax(s) == FoldLeft(FMax, s[1], s)
VMaxAbs(s) == FoldLeft(LAMBDA a, x : FMax(a, FAbs(x)), Zero, s)
VMean(s) == BQuo(VSum(s), BInt(Len(s)))
(* variance with the divisor n - ddof *)
VVar(s, ddof) ==
  LET m == VMean(s)
      c == TLCEval([i \in 1..Len(s) |-> BSub(s[i], m)])
  IN BQuo(FDot(c, c), BInt(Len(s) - ddof))
VNum(s) == \A i \in 1..Len(s) : IsNum(s[i])
MNum(m) == \A d \in 1..Len(m) : VNum(m[d])

(* Solution of H w = b for every right-hand side b of B, H symmetric positive *)
(* definite, by Gaussian elimination.  H: sequence of rows, B: sequence of    *)
(* right-hand sides.  Result: sequence of solutions.                          *)
ElimRow(row, prow, p) ==
  LET q == FDiv(row[p], prow[p])
  IN TLCEval([j \in 1..Len(row) |-> IF j <= p THEN Zero ELSE BSub(row[j], FMul(q, prow[j]))])
Solve(H, B) ==
  LET m == Len(H)
      r == Len(B)
      aug == TLCEval([i \in 1..m |-> TLCEval([j \in 1..(m + r) |-> IF j <= m THEN H[i][j] ELSE B[j - m][i]])])
      tri == FoldLeft(LAMBDA rows, p :
               TLCEval([i \in 1..m |-> IF i <= p THEN rows[i] ELSE ElimRow(rows[i], rows[p], p)]),
               aug, [p \in 1..m |-> p])
      back(c) == \* back substitution for right-hand side c, last unknown first
        FoldLeft(LAMBDA w, k :
          LET i == m + 1 - k
              known == IF i = m THEN Zero
                       ELSE FDot(SubSeq(tri[i], i + 1, m), w)
          IN <<FDiv(BSub(tri[i][m + c], known), tri[i][i])>> \o w,
          <<>>, [k \in 1..m |-> k])
  IN TLCEval([c \in 1..r |-> back(c)])

(* Polynomials in the coordinates and time: a sequence of monomials            *)
(* [c |-> coefficient, e |-> exponents per coordinate, p |-> exponent of time] *)
RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN One ELSE IF n = 1 THEN x ELSE FMul(x, FPow(x, n - 1))
Mono(m, x, t) ==
  FoldLeft(LAMBDA acc, d : IF m.e[d] = 0 THEN acc ELSE FMul(acc, FPow(x[d], m.e[d])),
           IF m.p = 0 THEN m.c ELSE FMul(m.c, FPow(t, m.p)), [d \in 1..Len(x) |-> d])
PolyEval(poly, x, t) == FoldLeft(LAMBDA acc, m : BAdd(acc, Mono(m, x, t)), Zero, poly)
=============================================================================
