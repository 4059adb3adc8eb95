------------------------------- MODULE BigNum -------------------------------
(* Integers of any size for TLC (whose own integers have 32 bits).           *)
(* A number is <<sign, limb0, limb1, ...>> with sign in {-1,0,1}, limbs in    *)
(* 0..9999 (base 10^4, least significant first), no leading zero limb; zero   *)
(* is <<0>>.  The definitions below are complete; java/BigNum.java overrides  *)
(* the operators of this module for speed, and BigNumTest.tla compares each   *)
(* override with its definition (the D-operators of BigNumDef.tla).           *)
EXTENDS BigNumDef

BAdd(a, b) == DAdd(a, b)
BSub(a, b) == DSub(a, b)
BMul(a, b) == DMul(a, b)
BQuo(a, b) == DQuo(a, b)
BLe(a, b)  == DLe(a, b)
BSqrt(a)   == DSqrt(a)
FMul(a, b) == DFMul(a, b)
FDot(s, t) == DFDot(s, t)
FExp(x)    == DFExp(x)
=============================================================================
