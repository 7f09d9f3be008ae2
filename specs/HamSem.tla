------------------------------- MODULE HamSem --------------------------------
(***************************************************************************)
(* Action of operator terms (products of X, Y, Z, ladder and projector     *)
(* factors) on exact states, and their evolutions.                         *)
(***************************************************************************)
EXTENDS OpGen, SequencesExt, FiniteSetsExt, CSV, Json

(* factor on a bit: <<new bit, power of i>>, or <<>> where it vanishes *)
F1(f, b) == CASE f = "I" -> <<b, 0>> [] f = "X" -> <<1 - b, 0>> [] f = "Y" -> <<1 - b, IF b = 0 THEN 1 ELSE 3>> [] f = "Z" -> <<b, 2 * b>>
              [] f = "A" -> IF b = 1 THEN <<0, 0>> ELSE <<>> [] f = "C" -> IF b = 0 THEN <<1, 0>> ELSE <<>>
              [] f = "P0" -> IF b = 0 THEN <<0, 0>> ELSE <<>> [] f = "P1" -> IF b = 1 THEN <<1, 0>> ELSE <<>>
Alive(fs, x) == \A i \in 1..Len(fs) : F1(fs[i], Bit(x, i - 1)) # <<>>
To(fs, x) == FoldSet(LAMBDA i, a : IF F1(fs[i], Bit(x, i - 1))[1] = Bit(x, i - 1) THEN a ELSE Flip(a, i - 1), x, 1..Len(fs))
Ph(fs, x) == FoldSet(LAMBDA i, a : a + F1(fs[i], Bit(x, i - 1))[2], 0, 1..Len(fs))
AdjF(f) == CASE f = "A" -> "C" [] f = "C" -> "A" [] OTHER -> f
Adj(fs) == [i \in 1..Len(fs) |-> AdjF(fs[i])]
Ladder(fs) == \E i \in 1..Len(fs) : fs[i] \in {"A", "C"}

(* a vector is a function from basis states to ring elements; terms are injective where they do not vanish *)
Term(fs, v) == LET S == {x \in DOMAIN v : Alive(fs, x)} IN
               [y \in {To(fs, x) : x \in S} |-> LET x == To(Adj(fs), y) IN RMul(ROmega(2 * Ph(fs, x)), v[x])]
VAdd(u, v) == [y \in DOMAIN u \cup DOMAIN v |-> RAdd(Amp(u, y), Amp(v, y))]
VMul(c, v) == [y \in DOMAIN v |-> RMul(c, v[y])]
VDot(u, v) == FoldSet(LAMBDA x, a : RAdd(a, RMul(RConj(u[x]), Amp(v, x))), RZero, DOMAIN u)

(* hermitian generator of a term: itself, T + T', or i T - i T' *)
Gen(fs, im, v) == IF ~ Ladder(fs) THEN Term(fs, v)
                  ELSE IF im = 1 THEN VAdd(VMul(RI, Term(fs, v)), VMul(RNeg(RI), Term(Adj(fs), v)))
                  ELSE VAdd(Term(fs, v), Term(Adj(fs), v))
(* exp(-i a K) = 1 + (cos a - 1) K^2 - i sin a K  because K^3 = K *)
Evolve(st, fs, im, a) ==
  LET s == 2 * IPow(5, Abs(a[2]))
      K == Gen(fs, im, st.v)
      KK == Gen(fs, im, K)
  IN Tidy(st.k + 2, st.m + Abs(a[2]), VAdd(VMul(<<s, 0, 0, 0>>, st.v), VAdd(VMul(RSub(Cos2(a), <<s, 0, 0, 0>>), KK), VMul(RNeg(ISin2(a)), K))))
(* on the part of the state where qubit c has value b *)
Part(v, c, b) == [x \in {y \in DOMAIN v : Bit(y, c) = b} |-> v[x]]

Facs(pauli) == IF pauli THEN {"I", "X", "Y", "Z"} ELSE {"I", "X", "Y", "Z", "A", "C", "P0", "P1"}
RECURSIVE PickFs(_, _)
PickFs(S, m) == IF m = 0 THEN {<<>>} ELSE UNION {{<<x>> \o t : t \in PickFs(S, m - 1)} : x \in Pick(S)}
AmpSet(s) == {<<x>> \o s.v[x] : x \in DOMAIN s.v}
SameGen(f, g) == f = g \/ f = Adj(g)
(* generators commute on the whole space *)
FullV(n) == [x \in 0..(Pow2[n] - 1) |-> x]
Unit(x) == [y \in {x} |-> ROne]
Clean(v) == [y \in {x \in DOMAIN v : v[x] # RZero} |-> v[y]]
GensCommute(f, i, g, j, n) == \A x \in 0..(Pow2[n] - 1) : Clean(Gen(f, i, Gen(g, j, Unit(x)))) = Clean(Gen(g, j, Gen(f, i, Unit(x))))
=============================================================================
