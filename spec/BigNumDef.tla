------------------------------ MODULE BigNumDef ------------------------------
(* Definitions of limb arithmetic, see BigNum.tla.                            *)
EXTENDS Integers, Sequences, SequencesExt

Base == 10000

Sgn(a)   == a[1]
Limbs(a) == Tail(a)
DMax(m, n) == IF m >= n THEN m ELSE n
Lim(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

(* drop leading zero limbs (they are last in the sequence) *)
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE Trim(SubSeq(s, 1, Len(s) - 1))

Pack(sgn, s) == LET t == Trim(s) IN IF t = <<>> THEN <<0>> ELSE <<sgn>> \o t

(* magnitudes: sequences of limbs *)
MagCmp(s, t) ==
  LET n == DMax(Len(s), Len(t))
      diff == {i \in 1..n : Lim(s, i) # Lim(t, i)}
  IN IF diff = {} THEN 0
     ELSE LET i == CHOOSE i \in diff : \A j \in diff : j <= i
          IN IF Lim(s, i) < Lim(t, i) THEN -1 ELSE 1

RECURSIVE MagAddFrom(_, _, _, _)
MagAddFrom(s, t, i, c) ==
  IF i > DMax(Len(s), Len(t)) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET v == Lim(s, i) + Lim(t, i) + c
       IN <<v % Base>> \o MagAddFrom(s, t, i + 1, v \div Base)
MagAdd(s, t) == MagAddFrom(s, t, 1, 0)

RECURSIVE MagSubFrom(_, _, _, _)      \* s >= t
MagSubFrom(s, t, i, c) ==
  IF i > Len(s) THEN <<>>
  ELSE LET v == Lim(s, i) - Lim(t, i) - c
       IN IF v >= 0 THEN <<v>> \o MagSubFrom(s, t, i + 1, 0)
                    ELSE <<v + Base>> \o MagSubFrom(s, t, i + 1, 1)
MagSub(s, t) == MagSubFrom(s, t, 1, 0)

RECURSIVE MagScaleFrom(_, _, _, _)    \* s times the limb m
MagScaleFrom(s, m, i, c) ==
  IF i > Len(s) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET v == s[i] * m + c
       IN <<v % Base>> \o MagScaleFrom(s, m, i + 1, v \div Base)
MagScale(s, m) == MagScaleFrom(s, m, 1, 0)

RECURSIVE MagMulFrom(_, _, _)
MagMulFrom(s, t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE MagAdd(MagScale(s, t[i]), <<0>> \o MagMulFrom(s, t, i + 1))
MagMul(s, t) == Trim(MagMulFrom(s, t, 1))

DNeg(a) == IF Sgn(a) = 0 THEN a ELSE <<-Sgn(a)>> \o Limbs(a)

DAdd(a, b) ==
  IF Sgn(a) = 0 THEN b ELSE IF Sgn(b) = 0 THEN a
  ELSE IF Sgn(a) = Sgn(b) THEN Pack(Sgn(a), MagAdd(Limbs(a), Limbs(b)))
  ELSE CASE MagCmp(Limbs(a), Limbs(b)) = 0  -> <<0>>
         [] MagCmp(Limbs(a), Limbs(b)) = 1  -> Pack(Sgn(a), MagSub(Limbs(a), Limbs(b)))
         [] MagCmp(Limbs(a), Limbs(b)) = -1 -> Pack(Sgn(b), MagSub(Limbs(b), Limbs(a)))
DSub(a, b) == DAdd(a, DNeg(b))
DMul(a, b) == IF Sgn(a) = 0 \/ Sgn(b) = 0 THEN <<0>>
              ELSE Pack(Sgn(a) * Sgn(b), MagMul(Limbs(a), Limbs(b)))
DLe(a, b) == Sgn(DSub(a, b)) <= 0

(* long division, one limb of the quotient at a time, each found by bisection *)
RECURSIVE DigitIn(_, _, _, _)
DigitIn(r, t, lo, hi) ==              \* largest q in lo..hi with q*t <= r
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MagCmp(Trim(MagScale(t, mid)), r) <= 0 THEN DigitIn(r, t, mid, hi)
          ELSE DigitIn(r, t, lo, mid - 1)
RECURSIVE MagQuoFrom(_, _, _, _)      \* limbs of s from i down to 1, remainder r
MagQuoFrom(s, t, i, r) ==
  IF i = 0 THEN <<>>
  ELSE LET r1 == Trim(<<s[i]>> \o r)
           q  == DigitIn(r1, t, 0, Base - 1)
       IN MagQuoFrom(s, t, i - 1, Trim(MagSub(r1, Trim(MagScale(t, q))))) \o <<q>>
DQuo(a, b) == IF Sgn(a) = 0 THEN <<0>>
              ELSE Pack(Sgn(a) * Sgn(b), MagQuoFrom(Limbs(a), Limbs(b), Len(Limbs(a)), <<>>))

(* integer square root: bisection between 0 and the number plus one *)
D1 == <<1, 1>>
D2 == <<1, 2>>
RECURSIVE SqrtIn(_, _, _)
SqrtIn(a, lo, hi) ==                  \* lo^2 <= a < hi^2
  IF DAdd(lo, D1) = hi THEN lo
  ELSE LET mid == DQuo(DAdd(lo, hi), D2)
       IN IF DLe(DMul(mid, mid), a) THEN SqrtIn(a, mid, hi) ELSE SqrtIn(a, lo, mid)
DSqrt(a) == SqrtIn(a, <<0>>, DAdd(a, D1))

(* fixed point: the number n stands for n / 10^24 *)
DOne == <<1, 0, 0, 0, 0, 0, 0, 1>>
DFMul(a, b) == DQuo(DMul(a, b), DOne)
RECURSIVE DFSum(_, _, _)
DFSum(s, t, i) == IF i > Len(s) THEN <<0>> ELSE DAdd(DMul(s[i], t[i]), DFSum(s, t, i + 1))
DFDot(s, t) == DQuo(DFSum(s, t, 1), DOne)

(* fixed-point exp: reduction modulo ln 2, Taylor series in Horner form       *)
(*   e^x = 2^n e^r,  n = nearest integer to x/ln 2,  r = x - n ln 2           *)
(* zero below e^-70 (and it is not used above e^70)                           *)
Ln2 == <<1, 7232, 941, 9453, 559, 4718, 6931>>
BInt(n) ==                            \* TLA+ integer to BigNum, |n| < 10^8
  IF n = 0 THEN <<0>>
  ELSE LET a == IF n < 0 THEN -n ELSE n
       IN IF a < Base THEN <<IF n < 0 THEN -1 ELSE 1, a>>
          ELSE <<IF n < 0 THEN -1 ELSE 1, a % Base, a \div Base>>
ToInt(a) == IF Len(a) = 1 THEN 0      \* BigNum of magnitude below 10^8 to TLA+ integer
            ELSE a[1] * (a[2] + (IF Len(a) > 2 THEN a[3] * Base ELSE 0))
DHalf == DQuo(DOne, D2)
DRound(x) == ToInt(DQuo(DAdd(x, IF Sgn(x) < 0 THEN DNeg(DHalf) ELSE DHalf), DOne))
RECURSIVE DPow2(_)
DPow2(n) == IF n = 0 THEN D1 ELSE DMul(D2, DPow2(n - 1))
RECURSIVE DHorner(_, _, _)
DHorner(r, i, acc) ==                 \* 1 + r/1 (1 + r/2 (1 + ... r/18))
  IF i = 0 THEN acc ELSE DHorner(r, i - 1, DAdd(DOne, DQuo(DFMul(r, acc), BInt(i))))
DFExp(x) ==
  IF DLe(x, DMul(BInt(-70), DOne)) THEN <<0>>
  ELSE LET n == DRound(DQuo(DMul(x, DOne), Ln2))
           e == DHorner(DSub(x, DMul(BInt(n), Ln2)), 18, DOne)
       IN IF n >= 0 THEN DMul(e, DPow2(n)) ELSE DQuo(e, DPow2(-n))
=============================================================================
