------------------------------ MODULE FermiTrot ------------------------------
(***************************************************************************)
(* Product formulas of fermionic operators: the generators are T + T' for  *)
(* products T of ladder operators (or T itself where it is hermitian).     *)
(***************************************************************************)
EXTENDS OpGen, SequencesExt, FiniteSetsExt, CSV, Json

CONSTANTS MaxN, MaxTerms, MaxReps, Profile, OutFile
VARIABLES n, prog, len, hs, nt, reps, st, phase
vars == <<n, prog, len, hs, nt, reps, st, phase>>
Tiny == Profile = "tiny"

Below(x, i) == FoldSet(LAMBDA j, a : a + Bit(x, j), 0, 0..(i - 1))
Lad(s, l) == LET x == s[1] i == l[1] IN
             IF s[2] = 0 \/ Bit(x, i) = l[2] THEN <<x, 0>> ELSE <<Flip(x, i), IF Below(x, i) % 2 = 1 THEN -s[2] ELSE s[2]>>
RECURSIVE Act(_, _)
Act(ls, s) == IF ls = <<>> THEN s ELSE Act(SubSeq(ls, 1, Len(ls) - 1), Lad(s, ls[Len(ls)]))
Dag(ls) == [i \in 1..Len(ls) |-> <<ls[Len(ls) + 1 - i][1], 1 - ls[Len(ls) + 1 - i][2]>>]
(* products of ladder operators are injective where they do not vanish *)
Term(ls, v) == LET im == [x \in DOMAIN v |-> Act(ls, <<x, 1>>)] S == {x \in DOMAIN v : im[x][2] # 0} IN
               [y \in {im[x][1] : x \in S} |-> LET x == CHOOSE x \in S : im[x][1] = y IN RScale(im[x][2], v[x])]
VAdd(u, v) == [y \in DOMAIN u \cup DOMAIN v |-> RAdd(Amp(u, y), Amp(v, y))]
VMul(c, v) == [y \in DOMAIN v |-> RMul(c, v[y])]
Unit(x) == [y \in {x} |-> ROne]
Clean(v) == [y \in {x \in DOMAIN v : v[x] # RZero} |-> v[y]]
All == 0..(Pow2[n] - 1)
Odd(ls, i) == Cardinality({k \in 1..Len(ls) : ls[k][1] = i}) % 2 = 1
Uni(ls) == {i \in 0..(n - 1) : Odd(ls, i)}
Vanishes(ls) == \A x \in All : Act(ls, <<x, 1>>)[2] = 0
(* number-like: diagonal, with values 0 and 1 *)
Gen(ls, im, v) == IF Uni(ls) = {} THEN Term(ls, v)
                  ELSE IF im = 1 THEN VAdd(VMul(RI, Term(ls, v)), VMul(RNeg(RI), Term(Dag(ls), v)))
                  ELSE VAdd(Term(ls, v), Term(Dag(ls), v))
Evolve(s0, h) ==
  LET a == h.a
      s == 2 * IPow(5, Abs(a[2]))
      K == Gen(h.ls, h.im, s0.v)
      KK == Gen(h.ls, h.im, K)
  IN Tidy(s0.k + 2, s0.m + Abs(a[2]), VAdd(VMul(<<s, 0, 0, 0>>, s0.v), VAdd(VMul(RSub(Cos2(a), <<s, 0, 0, 0>>), KK), VMul(RNeg(ISin2(a)), K))))
SameGen(f, g) == \A x \in All : LET u == Clean(Gen(f, 0, Unit(x))) w == Clean(Gen(g, 0, Unit(x))) IN DOMAIN u = DOMAIN w
Commute(f, g) == \A x \in All : Clean(Gen(f.ls, f.im, Gen(g.ls, g.im, Unit(x)))) = Clean(Gen(g.ls, g.im, Gen(f.ls, f.im, Unit(x))))

Init == n = 0 /\ prog = <<>> /\ len = 0 /\ hs = <<>> /\ nt = 0 /\ reps = 1 /\ st = ZeroState /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "prep"
         /\ \E k \in Pick((IF Tiny THEN 1 ELSE 2)..MaxN), l \in Pick(IF Tiny THEN {1} ELSE 3..7), t \in PickW(IF MaxTerms = 1 THEN <<1>> ELSE <<1, 2, 2, 3, 3>>), r \in Pick(1..MaxReps) :
              n' = k /\ len' = l /\ nt' = t /\ reps' = r
         /\ UNCHANGED <<prog, hs, st>>
Kinds == IF Tiny THEN <<"h">> ELSE <<"h", "h", "h", "rot", "fixed", "cx", "cx", "cp">>
Prep == /\ phase = "prep" /\ Len(prog) < len
        /\ \E kd \in PickW(Kinds) :
             IF kd \in {"cx", "cp"} /\ n < 2 THEN UNCHANGED vars
             ELSE \E o \in PickOp(kd, 0..(n - 1), FALSE) : prog' = Append(prog, o) /\ st' = ApplyOp(st, o) /\ UNCHANGED <<n, len, hs, nt, reps, phase>>
Go == phase = "prep" /\ Len(prog) >= len /\ phase' = "build" /\ UNCHANGED <<n, prog, len, hs, nt, reps, st>>
RECURSIVE PickLs(_)
PickLs(m) == IF m = 0 THEN {<<>>} ELSE UNION {{<<<<i, c>>>> \o t : t \in PickLs(m - 1)} : i \in Pick(0..(n - 1)), c \in Pick({0, 1})}
AddTerm == /\ phase = "build" /\ Len(hs) < nt
           /\ \E d \in PickW(IF Tiny THEN <<1>> ELSE <<0, 1, 1, 2, 2, 2, 2, 3, 4, 4>>), a \in Pick(IF Len(hs) = 0 /\ reps = 1 THEN AngC \cup AngP ELSE AngC), im \in Pick(IF MaxTerms = 1 THEN {0, 1} ELSE {0}) :
                \E ls \in PickLs(d) :
                LET h == [ls |-> ls, a |-> a, im |-> IF Uni(ls) = {} THEN 0 ELSE im] IN
                IF Vanishes(ls) \/ \E g \in 1..Len(hs) : SameGen(hs[g].ls, ls) THEN UNCHANGED vars
                ELSE hs' = Append(hs, h) /\ UNCHANGED <<n, prog, len, nt, reps, st, phase>>
RECURSIVE Seqq(_, _)
Seqq(s, x) == IF x = <<>> THEN s ELSE Seqq(Evolve(s, hs[Head(x)]), Tail(x))
RECURSIVE Rep(_, _, _)
Rep(s, x, k) == IF k = 0 THEN s ELSE Rep(Seqq(s, x), x, k - 1)
Comm == \A i, j \in 1..Len(hs) : i < j => Commute(hs[i], hs[j])
Orders == IF Comm THEN {[i \in 1..Len(hs) |-> i]} ELSE SetToSeqs(1..Len(hs))
AmpSet(s) == {<<x>> \o s.v[x] : x \in DOMAIN s.v}
Emit == /\ phase = "build" /\ Len(hs) >= nt /\ phase' = "done" /\ UNCHANGED <<n, prog, len, hs, nt, reps, st>>
        /\ LET R == {Rep(st, p, reps) : p \in Orders} IN
           CSVWrite("%1$s", <<ToJson([n |-> n, prog |-> prog, hs |-> [i \in 1..Len(hs) |-> [ls |-> hs[i].ls, a |-> hs[i].a, im |-> hs[i].im, num |-> Uni(hs[i].ls) = {}]],
                                      reps |-> reps, comm |-> Comm, trot |-> TRUE, outs |-> {[k |-> r.k, m |-> r.m, v |-> AmpSet(r)] : r \in R}])>>, OutFile)
Next == Start \/ Prep \/ Go \/ AddTerm \/ Emit
Spec == Init /\ [][Next]_vars
EvolveUnitary == phase = "build" => \A i \in 1..Len(hs) : UnitNorm(Evolve(st, hs[i]))
EvolveInverse == phase = "build" => \A i \in 1..Len(hs) : EqState(Evolve(Evolve(st, hs[i]), [hs[i] EXCEPT !.a = NegA(@)]), st)
=============================================================================
