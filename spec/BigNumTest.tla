----------------------------- MODULE BigNumTest -----------------------------
(* Self-test: the overrides of BigNum agree with the definitions, on values   *)
(* around limb boundaries and on pseudo-random ones.                          *)
EXTENDS BigNum, TLC, FiniteSets

Edge == { <<0>>, <<1,1>>, <<-1,1>>, <<1,9999>>, <<-1,9999>>, <<1,0,1>>, <<-1,0,1>>,
          <<1,9999,9999>>, <<1,0,0,0,0,0,0,1>>, <<-1,0,0,0,0,0,0,1>>, <<1,1,0,0,0,0,0,1>>,
          <<1,9999,9999,9999,9999,9999,9999>>, <<-1,1,0,0,7>>,
          <<1,5,0,0,0,1,0,0,0,3>>, <<1,1234,5678,9012,3456,7890,1234,17>>,
          <<-1,4321,8765,2109,6543,987,4321,5>>, <<1,0,0,0,5000>> }
Rnd(i) == LET n == 1 + ((i * 7) % 9)
          IN <<IF i % 3 = 0 THEN -1 ELSE 1>> \o
             [j \in 1..n |-> IF j = n THEN 1 + ((i * 7919 + j * 104) % 9998)
                             ELSE (i * 6007 + j * 7877 + (i * j * 131)) % 10000]
Sample == Edge \cup {Rnd(i) : i \in 1..9}

ASSUME \A a \in Sample, b \in Sample :
  /\ BAdd(a, b) = DAdd(a, b)
  /\ BSub(a, b) = DSub(a, b)
  /\ BMul(a, b) = DMul(a, b)
  /\ b # <<0>> => BQuo(a, b) = DQuo(a, b)
  /\ BLe(a, b) = DLe(a, b)
  /\ FMul(a, b) = DFMul(a, b)
ASSUME \A a \in {x \in Edge \cup {Rnd(i) : i \in 1..3} : Sgn(x) >= 0 /\ Len(x) < 7} : BSqrt(a) = DSqrt(a)
ASSUME \A i \in 1..20 : LET s == [j \in 1..5 |-> Rnd(i + j)]
                            t == [j \in 1..5 |-> Rnd(3 * i + 2 * j)]
                        IN FDot(s, t) = DFDot(s, t)
ASSUME \A i \in 1..12 : LET x == DQuo(DMul(DOne, BInt((i - 6) * (i * 137 + 11))), BInt(97 + i * i))
                        IN FExp(x) = DFExp(x) /\ FExp(DNeg(x)) = DFExp(DNeg(x))
ASSUME FExp(<<0>>) = DOne
(* e to 24 digits: 2.718281828459045235360287 *)
ASSUME LET d == BSub(FExp(DOne), <<1, 287, 3536, 452, 8459, 8182, 7182, 2>>) IN BLe(d, <<1, 9>>) /\ BLe(<<-1, 9>>, d)
ASSUME PrintT(<<"BIGNUM-SELFTEST", Cardinality(Sample) * Cardinality(Sample)>>)
=============================================================================
