-------------------------------- MODULE QSem --------------------------------
(***************************************************************************)
(* Exact semantics of gate programs.                                       *)
(*                                                                         *)
(* A state is a record [k, m, v]: v maps every basis state x of non-zero   *)
(* amplitude (qubit i is bit i of x) to a ring element, and the amplitude  *)
(* of x is  v[x] / (sqrt(2)^k 5^m).  Only the support is stored, so a      *)
(* program on many qubits with little superposition stays cheap.           *)
(*                                                                         *)
(* A primitive operation is a record                                       *)
(*    [g |-> name, p |-> angles, q |-> targets, c |-> controls,            *)
(*     s |-> control bits]                                                 *)
(* An angle is a pair <<k, j>> and stands for k pi/4 + j th.  Rotations    *)
(* (rx, ry, rz, rxx, rzz, xxyy, r, first angle of u3) carry HALF their     *)
(* rotation angle, so that every matrix entry stays in the ring.           *)
(***************************************************************************)
EXTENDS Ring, FiniteSets

Pow2 == [i \in 0..30 |-> IF i < 31 THEN 2^i ELSE 0]
Bit(x, i) == (x \div Pow2[i]) % 2
Flip(x, i) == IF Bit(x, i) = 1 THEN x - Pow2[i] ELSE x + Pow2[i]

Op(g, p, q, c, s) == [g |-> g, p |-> p, q |-> q, c |-> c, s |-> s]
Gate(g, q) == Op(g, <<>>, <<q>>, <<>>, <<>>)
CGate(g, c, q) == Op(g, <<>>, <<q>>, <<c>>, <<1>>)

Basis(b) == [k |-> 0, m |-> 0, v |-> [x \in {b} |-> ROne]]
ZeroState == Basis(0)

Amp(v, x) == IF x \in DOMAIN v THEN v[x] ELSE RZero

(* Cancel common factors so that equal states are equal records. *)
RECURSIVE Normalise(_)
Normalise(st) ==
  IF st.k > 0 /\ \A x \in DOMAIN st.v : RDivisibleBySqrt2(st.v[x])
  THEN Normalise([st EXCEPT !.k = @ - 1, !.v = [x \in DOMAIN st.v |-> RDivSqrt2(st.v[x])]])
  ELSE IF st.m > 0 /\ \A x \in DOMAIN st.v : RDivisibleBy5(st.v[x])
  THEN Normalise([st EXCEPT !.m = @ - 1, !.v = [x \in DOMAIN st.v |-> RDiv5(st.v[x])]])
  ELSE st

(* drop zeros, then normalise *)
Tidy(k, m, v) ==
  LET S == {x \in DOMAIN v : v[x] # RZero}
  IN  Normalise([k |-> k, m |-> m, v |-> IF S = DOMAIN v THEN v ELSE [x \in S |-> v[x]]])

(* 2x2 matrix with common denominator sqrt(2)^k 5^m; e = <<e00, e01, e10, e11>> *)
M2(k, m, e) == [k |-> k, m |-> m, e |-> e]

NegA(a) == <<-a[1], -a[2]>>
AddA(a, b) == <<a[1]+b[1], a[2]+b[2]>>

(* numerators over 2 * 5^|j| *)
Cos2(a) == RAdd(RPhase(a[1], a[2]), RPhase(-a[1], -a[2]))
ISin2(a) == RSub(RPhase(a[1], a[2]), RPhase(-a[1], -a[2]))   \* 2 i sin
Sin2(a) == RMul(ISin2(a), <<0, 0, -1, 0>>)

Mat(g, p) ==
  CASE g = "id"    -> M2(0, 0, <<ROne, RZero, RZero, ROne>>)
    [] g = "x"     -> M2(0, 0, <<RZero, ROne, ROne, RZero>>)
    [] g = "y"     -> M2(0, 0, <<RZero, <<0,0,-1,0>>, <<0,0,1,0>>, RZero>>)
    [] g = "z"     -> M2(0, 0, <<ROne, RZero, RZero, <<-1,0,0,0>>>>)
    [] g = "h"     -> M2(1, 0, <<ROne, ROne, ROne, <<-1,0,0,0>>>>)
    [] g = "s"     -> M2(0, 0, <<ROne, RZero, RZero, ROmega(2)>>)
    [] g = "s_dg"  -> M2(0, 0, <<ROne, RZero, RZero, ROmega(6)>>)
    [] g = "t"     -> M2(0, 0, <<ROne, RZero, RZero, ROmega(1)>>)
    [] g = "t_dg"  -> M2(0, 0, <<ROne, RZero, RZero, ROmega(7)>>)
    [] g = "sx"    -> M2(1, 0, <<ROne, <<0,0,-1,0>>, <<0,0,-1,0>>, ROne>>)
    [] g = "sx_dg" -> M2(1, 0, <<ROne, <<0,0,1,0>>, <<0,0,1,0>>, ROne>>)
    [] g = "p"     -> M2(0, Abs(p[1][2]),
                         <<RScale(IPow(5, Abs(p[1][2])), ROne), RZero, RZero, RPhase(p[1][1], p[1][2])>>)
    [] g = "gphase" -> M2(0, Abs(p[1][2]),
                         <<RPhase(p[1][1], p[1][2]), RZero, RZero, RPhase(p[1][1], p[1][2])>>)
    [] g = "rz"    -> M2(0, Abs(p[1][2]),
                         <<RPhase(-p[1][1], -p[1][2]), RZero, RZero, RPhase(p[1][1], p[1][2])>>)
    [] g = "rx"    -> LET c == Cos2(p[1])  s == RNeg(ISin2(p[1]))
                      IN  M2(2, Abs(p[1][2]), <<c, s, s, c>>)
    [] g = "ry"    -> LET c == Cos2(p[1])  s == Sin2(p[1])
                      IN  M2(2, Abs(p[1][2]), <<c, RNeg(s), s, c>>)
    [] g = "r"     -> LET c == Cos2(p[1])  s == Sin2(p[1])   \* documented matrix of the R gate
                          n == Abs(p[2][2])  F(x) == RScale(IPow(5, n), x)
                      IN  M2(2, Abs(p[1][2]) + n,
                             <<F(c), RMul(s, RPhase(-p[2][1], -p[2][2])),
                               RNeg(RMul(s, RPhase(p[2][1], p[2][2]))), F(c)>>)
    [] g = "u3"    -> LET c == Cos2(p[1])  s == Sin2(p[1])
                          f == RPhase(p[2][1], p[2][2])  l == RPhase(p[3][1], p[3][2])
                          n == Abs(p[2][2])  o == Abs(p[3][2])
                          F(x) == RScale(IPow(5, n), x)  L(x) == RScale(IPow(5, o), x)
                      IN  M2(2, Abs(p[1][2]) + n + o,
                             <<F(L(c)), RNeg(F(RMul(s, l))), L(RMul(s, f)), RMul(RMul(c, f), l)>>)

CtrlOn(x, c, s) == \A i \in 1..Len(c) : Bit(x, c[i]) = s[i]

(* Multiply by the denominators a gate introduces. *)
Blow(x, k, m) ==
  LET y == IF k % 2 = 1 THEN RTimesSqrt2(x) ELSE x
  IN  IF k < 2 /\ m = 0 THEN y ELSE RScale(IPow(2, k \div 2) * IPow(5, m), y)

Apply1(st, M, t, c, s) ==
  LET B == Pow2[t]
      V == DOMAIN st.v
      S == IF M.e[2] = RZero /\ M.e[3] = RZero THEN V
           ELSE V \cup {Flip(x, t) : x \in {y \in V : CtrlOn(y, c, s)}}
  IN Tidy(st.k + M.k, st.m + M.m,
      [x \in S |->
               IF ~CtrlOn(x, c, s) THEN Blow(st.v[x], M.k, M.m)
               ELSE IF Bit(x, t) = 0
                    THEN RAdd(RMul(Amp(st.v, x), M.e[1]), RMul(Amp(st.v, x + B), M.e[2]))
                    ELSE RAdd(RMul(Amp(st.v, x - B), M.e[3]), RMul(Amp(st.v, x), M.e[4]))])

(* a permutation f of basis states *)
Permute(st, f(_)) ==
  LET V == DOMAIN st.v
      W == {f(x) : x \in V}
      src == [y \in W |-> CHOOSE x \in V : f(x) = y]
  IN  [st EXCEPT !.v = [y \in W |-> st.v[src[y]]]]

ApplySwap(st, a, b, c, s) ==
  LET f(x) == IF CtrlOn(x, c, s) /\ Bit(x, a) # Bit(x, b) THEN Flip(Flip(x, a), b) ELSE x
      W == {f(x) : x \in DOMAIN st.v}
  IN [st EXCEPT !.v = [x \in W |-> st.v[f(x)]]]

(* exp(-i phi/2 Z Z) with half angle a *)
ApplyRzz(st, a, q0, q1, c, s) ==
  LET m == Abs(a[2])  plus == RPhase(-a[1], -a[2])  minus == RPhase(a[1], a[2])
  IN Tidy(st.k, st.m + m,
      [x \in DOMAIN st.v |->
              IF ~CtrlOn(x, c, s) THEN Blow(st.v[x], 0, m)
              ELSE RMul(st.v[x], IF Bit(x, q0) = Bit(x, q1) THEN plus ELSE minus)])

Mixed2(x, q0, q1) == Flip(Flip(x, q0), q1)

(* exp(-i phi/2 X X) with half angle a *)
ApplyRxx(st, a, q0, q1, c, s) ==
  LET m == Abs(a[2])  co == Cos2(a)  si == RNeg(ISin2(a))
      S == DOMAIN st.v \cup {Mixed2(x, q0, q1) : x \in {y \in DOMAIN st.v : CtrlOn(y, c, s)}}
  IN Tidy(st.k + 2, st.m + m,
      [x \in S |->
              IF ~CtrlOn(x, c, s) THEN Blow(st.v[x], 2, m)
              ELSE RAdd(RMul(Amp(st.v, x), co), RMul(Amp(st.v, Mixed2(x, q0, q1)), si))])

(* XX+YY interaction: RZ(beta) on q0, exp(-i phi/4 (XX+YY)), RZ(-beta) on  *)
(* q0.  Only |01>, |10> mix, by the angle phi/2 = a; the amplitude moved   *)
(* into q0 = 1 picks up exp(-i beta), the other one exp(i beta).           *)
ApplyXxyy(st, a, b, q0, q1, c, s) ==
  LET m == Abs(a[2]) + Abs(b[2])
      F(x) == RScale(IPow(5, Abs(b[2])), x)
      co == F(Cos2(a))  is == RNeg(ISin2(a))
      up == RPhase(b[1], b[2])  dn == RPhase(-b[1], -b[2])
      Act(x) == CtrlOn(x, c, s) /\ Bit(x, q0) # Bit(x, q1)
      S == DOMAIN st.v \cup {Mixed2(x, q0, q1) : x \in {y \in DOMAIN st.v : Act(y)}}
  IN Tidy(st.k + 2, st.m + m,
      [x \in S |->
              IF ~Act(x) THEN Blow(st.v[x], 2, m)
              ELSE RAdd(RMul(Amp(st.v, x), co),
                        RMul(Amp(st.v, Mixed2(x, q0, q1)),
                             RMul(is, IF Bit(x, q0) = 1 THEN dn ELSE up)))])

ApplyOp(st, o) ==
  CASE o.g = "swap" -> ApplySwap(st, o.q[1], o.q[2], o.c, o.s)
    [] o.g = "rzz"  -> ApplyRzz(st, o.p[1], o.q[1], o.q[2], o.c, o.s)
    [] o.g = "rxx"  -> ApplyRxx(st, o.p[1], o.q[1], o.q[2], o.c, o.s)
    [] o.g = "xxyy" -> ApplyXxyy(st, o.p[1], o.p[2], o.q[1], o.q[2], o.c, o.s)
    [] o.g = "barrier" -> st
    [] OTHER        -> Apply1(st, Mat(o.g, o.p), o.q[1], o.c, o.s)

RECURSIVE Run(_, _)
Run(st, ops) == IF ops = <<>> THEN st ELSE Run(ApplyOp(st, Head(ops)), Tail(ops))

(* The inverse of an operation is an operation. *)
InvOp(o) ==
  CASE o.g = "s"     -> [o EXCEPT !.g = "s_dg"]
    [] o.g = "s_dg"  -> [o EXCEPT !.g = "s"]
    [] o.g = "t"     -> [o EXCEPT !.g = "t_dg"]
    [] o.g = "t_dg"  -> [o EXCEPT !.g = "t"]
    [] o.g = "sx"    -> [o EXCEPT !.g = "sx_dg"]
    [] o.g = "sx_dg" -> [o EXCEPT !.g = "sx"]
    [] o.g \in {"p", "gphase", "rx", "ry", "rz", "rxx", "rzz"} -> [o EXCEPT !.p = <<NegA(o.p[1])>>]
    [] o.g \in {"xxyy", "r"} -> [o EXCEPT !.p = <<NegA(o.p[1]), o.p[2]>>]
    [] o.g = "u3"    -> [o EXCEPT !.p = <<NegA(o.p[1]), NegA(o.p[3]), NegA(o.p[2])>>]
    [] OTHER         -> o

InvSeq(ops) == [i \in 1..Len(ops) |-> InvOp(ops[Len(ops) + 1 - i])]

WithCtrl(ops, c, s) == [i \in 1..Len(ops) |-> [ops[i] EXCEPT !.c = c \o @, !.s = s \o @]]

(* Rename qubits: qubit i becomes f[i]. *)
MapQ(ops, f) == [i \in 1..Len(ops) |->
  [ops[i] EXCEPT !.q = [j \in 1..Len(@) |-> f[@[j]]], !.c = [j \in 1..Len(@) |-> f[@[j]]]]]

(* sum of |amplitude|^2 over a set of basis states, as <<p, q, k, m>>      *)
(* standing for (p + q sqrt2) / (2^k 25^m)                                 *)
RECURSIVE SumSq(_, _)
SumSq(v, S) == IF S = {} THEN <<0, 0>>
               ELSE LET x == CHOOSE y \in S : TRUE
                        r == RNorm2(v[x])
                        t == SumSq(v, S \ {x})
                    IN  <<r[1]+t[1], r[2]+t[2]>>
Prob(st, S) == LET r == SumSq(st.v, S) IN <<r[1], r[2], st.k, st.m>>
UnitNorm(st) == SumSq(st.v, DOMAIN st.v) = <<IPow(2, st.k) * IPow(25, st.m), 0>>

EqState(a, b) == Normalise(a) = Normalise(b)

(* b = (unit phase) * a, decided exactly by cross ratios *)
SameRay(a, b) ==
  /\ DOMAIN a.v = DOMAIN b.v
  /\ \A x, y \in DOMAIN a.v : RMul(a.v[x], b.v[y]) = RMul(a.v[y], b.v[x])
=============================================================================
