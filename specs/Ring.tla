-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Exact complex arithmetic for quantum amplitudes.                        *)
(*                                                                         *)
(* A ring element is a 4-tuple <<a,b,c,d>> of integers and stands for      *)
(*        a + b w + c w^2 + d w^3        with w = exp(i pi/4).             *)
(* An amplitude is a ring element divided by sqrt(2)^k * 5^m, where k and  *)
(* m are shared by all the amplitudes of a state (see QSem).  The powers   *)
(* of five come from the Pythagorean angle th = atan2(4,3), for which      *)
(* exp(i th) = (3+4i)/5: an angle that is no rational multiple of pi, so   *)
(* that programs are not only judged at the symmetric points of the        *)
(* Clifford+T gate set.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

RZero == <<0, 0, 0, 0>>
ROne  == <<1, 0, 0, 0>>
RI    == <<0, 0, 1, 0>>

RAdd(x, y) == <<x[1]+y[1], x[2]+y[2], x[3]+y[3], x[4]+y[4]>>
RNeg(x)    == <<-x[1], -x[2], -x[3], -x[4]>>
RSub(x, y) == <<x[1]-y[1], x[2]-y[2], x[3]-y[3], x[4]-y[4]>>
RScale(n, x) == <<n*x[1], n*x[2], n*x[3], n*x[4]>>

(* w^4 = -1 *)
RMul(x, y) ==
  IF y = RZero \/ x = RZero THEN RZero
  ELSE IF y[2] = 0 /\ y[3] = 0 /\ y[4] = 0 THEN RScale(y[1], x)
  ELSE << x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
          x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
          x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
          x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1] >>

(* complex conjugate: w -> w^-1 = -w^3 *)
RConj(x) == <<x[1], -x[4], -x[3], -x[2]>>

RTimesW(x) == <<-x[4], x[1], x[2], x[3]>>

(* w^k, any integer k *)
ROmega(k) ==
  CASE k % 8 = 0 -> << 1, 0, 0, 0>>
    [] k % 8 = 1 -> << 0, 1, 0, 0>>
    [] k % 8 = 2 -> << 0, 0, 1, 0>>
    [] k % 8 = 3 -> << 0, 0, 0, 1>>
    [] k % 8 = 4 -> <<-1, 0, 0, 0>>
    [] k % 8 = 5 -> << 0,-1, 0, 0>>
    [] k % 8 = 6 -> << 0, 0,-1, 0>>
    [] OTHER     -> << 0, 0, 0,-1>>

(* sqrt 2 = w - w^3 *)
RSqrt2 == <<0, 1, 0, -1>>
RTimesSqrt2(x) == <<x[2]-x[4], x[1]+x[3], x[2]+x[4], x[3]-x[1]>>

RDivisibleBySqrt2(x) == (x[1] - x[3]) % 2 = 0 /\ (x[2] - x[4]) % 2 = 0
RDivSqrt2(x) == LET y == RTimesSqrt2(x)
                IN  <<y[1] \div 2, y[2] \div 2, y[3] \div 2, y[4] \div 2>>

RDivisibleBy5(x) == x[1] % 5 = 0 /\ x[2] % 5 = 0 /\ x[3] % 5 = 0 /\ x[4] % 5 = 0
RDiv5(x) == <<x[1] \div 5, x[2] \div 5, x[3] \div 5, x[4] \div 5>>

RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN ROne ELSE RMul(x, RPow(x, n-1))

RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n-1)

Abs(n) == IF n < 0 THEN -n ELSE n

(* Numerator of exp(i(k pi/4 + j th)); the denominator is 5^|j|. *)
RPhase(k, j) ==
  RMul(ROmega(k),
       IF j = 0 THEN ROne
       ELSE IF j > 0 THEN RPow(<<3, 0, 4, 0>>, j)
       ELSE RPow(<<3, 0, -4, 0>>, -j))

(* |x|^2 is p + q sqrt2 with integers p, q: returned as <<p, q>> *)
RNorm2(x) == LET y == RMul(x, RConj(x)) IN <<y[1], y[2]>>
=============================================================================
