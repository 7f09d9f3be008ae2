--------------------------------- MODULE Val ---------------------------------
(***************************************************************************)
(* Quantum numbers in superposition.  A state is a table of branches; each *)
(* branch holds the value of every variable, and a phase (multiple of      *)
(* pi/4); all branches have the same weight.  Operations on numbers are    *)
(* classical functions applied to every branch: this is the meaning every  *)
(* arithmetic routine has to implement, without touching any phase.        *)
(* Values are integers scaled by 2^Scale, so that fixed point numbers with *)
(* exponents down to -Scale are exact.                                     *)
(*   format [sz, e, sg]: sz qubits (including the sign), unit 2^e, signed  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, CSV, Json

CONSTANT Sampling
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S
PickW(seq) == IF Sampling THEN {seq[i] : i \in {RandomElement(1..Len(seq))}} ELSE {seq[i] : i \in 1..Len(seq)}
RECURSIVE PickTuple(_, _)
PickTuple(S, m) == IF m = 0 THEN {<<>>} ELSE UNION {{<<x>> \o t : t \in PickTuple(S \ {x}, m - 1)} : x \in Pick(S)}
PickBits(m) == IF m = 0 THEN {<<>>} ELSE Pick([1..m -> {0, 1}])
RECURSIVE PickSeq(_, _)
PickSeq(S, m) == IF m = 0 THEN {<<>>} ELSE UNION {{<<x>> \o t : t \in PickSeq(S, m - 1)} : x \in Pick(S)}

Scale == 8
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Bt(x, i) == (x \div P2(i)) % 2
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

Fmt(sz, e, sg) == [sz |-> sz, e |-> e, sg |-> sg]
Unit(f) == P2(f.e + Scale)
(* value of a bit pattern, and the pattern of a value (modular) *)
Dec(code, f) == (IF f.sg /\ code >= P2(f.sz - 1) THEN code - P2(f.sz) ELSE code) * Unit(f)
Enc(val, f) == (val \div Unit(f)) % P2(f.sz)
Wrap(val, f) == Dec(Enc(val, f), f)
MinV(f) == IF f.sg THEN -P2(f.sz - 1) * Unit(f) ELSE 0
MaxV(f) == ((IF f.sg THEN P2(f.sz - 1) ELSE P2(f.sz)) - 1) * Unit(f)
Fits(val, f) == val % Unit(f) = 0 /\ val >= MinV(f) /\ val <= MaxV(f)

(* preparation: bit k of variable i is 0, 1, or superposed with a phase     *)
(* [b |-> 2, ph]; cut(fs) lists the bits of all variables in order          *)
Total(fs) == FoldSeq(LAMBDA f, a : a + f.sz, 0, fs)
Offset(fs, i) == Total(SubSeq(fs, 1, i - 1))
Branches(fs, base, sup, ph) ==
  [b \in 1..P2(Len(sup)) |->
     LET bit(j) == IF \E i \in 1..Len(sup) : sup[i] = j THEN Bt(b - 1, (CHOOSE i \in 1..Len(sup) : sup[i] = j) - 1) ELSE base[j]
         code(i) == FoldSet(LAMBDA k, a : a + bit(Offset(fs, i) + k + 1) * P2(k), 0, 0..(fs[i].sz - 1))
     IN [v |-> [i \in 1..Len(fs) |-> Dec(code(i), fs[i])],
         ph |-> FoldSet(LAMBDA i, a : (a + Bt(b - 1, i - 1) * ph[i]) % 8, 0, 1..Len(sup))]]

(* a step on every branch *)
NewVar(br, F(_)) == [b \in DOMAIN br |-> [br[b] EXCEPT !.v = Append(@, F(@))]]
SetVar(br, i, F(_)) == [b \in DOMAIN br |-> [br[b] EXCEPT !.v = [@ EXCEPT ![i] = F(br[b].v)]]]
AllBr(br, T(_)) == \A b \in DOMAIN br : T(br[b].v)

(* reversibility: two branches never end up with the same values *)
Distinct(br) == \A a, b \in DOMAIN br : a # b => br[a].v # br[b].v
=============================================================================
