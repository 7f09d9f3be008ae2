------------------------------ MODULE ParityProg -----------------------------
(***************************************************************************)
(* Clifford programs with measurements, resets, Pauli gates conditioned on *)
(* earlier results, certain Pauli errors and parity annotations.  The      *)
(* i-th measurement writes bit i of the record; annotations refer to bits. *)
(***************************************************************************)
EXTENDS Ens, OpGen, Sequences, SequencesExt, FiniteSetsExt, CSV, Json

CONSTANTS MaxN, MaxM, MinLen, MaxLen, Profile, OutFile
VARIABLES n, len, prog, ens, m, pars, phase
vars == <<n, len, prog, ens, m, pars, phase>>
Tiny == Profile = "tiny"

Init == n = 0 /\ len = 0 /\ prog = <<>> /\ ens = <<>> /\ m = 0 /\ pars = <<>> /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "build" /\ \E a \in Pick(1..MaxN), l \in Pick(MinLen..MaxLen) : n' = a /\ len' = l
         /\ ens' = <<[cl |-> [i \in 0..(MaxM - 1) |-> 0], st |-> ZeroState]>> /\ UNCHANGED <<prog, m, pars>>
Q == 0..(n - 1)
Cliff1 == IF Tiny THEN {"h", "x"} ELSE {"x", "y", "z", "h", "h", "s", "s_dg", "sx", "sx_dg"}
Do(o, e) == prog' = Append(prog, o) /\ ens' = e /\ UNCHANGED <<n, len, phase>>
G1 == \E g \in Pick(Cliff1), q \in Pick(Q) : LET o == Op(g, <<>>, <<q>>, <<>>, <<>>) IN Do([t |-> "gate", op |-> o], StepAll(ens, [t |-> "gate", op |-> o])) /\ UNCHANGED <<m, pars>>
G2 == IF n < 2 THEN UNCHANGED vars ELSE \E kd \in PickW(<<"c1", "c1", "c1", "swap">>) : \E o \in PickOp(kd, Q, FALSE) :
      Do([t |-> "gate", op |-> o], StepAll(ens, [t |-> "gate", op |-> o])) /\ UNCHANGED <<m, pars>>
Meas == \E q \in Pick(Q) : IF m >= MaxM THEN UNCHANGED vars ELSE
        LET o == [t |-> "measure", q |-> q, c |-> m] IN Do(o, StepAll(ens, o)) /\ m' = m + 1 /\ UNCHANGED pars
Rst == \E q \in Pick(Q) : LET o == [t |-> "reset", q |-> q] IN IF Len(ens) > 40 THEN UNCHANGED vars ELSE Do(o, StepAll(ens, o)) /\ UNCHANGED <<m, pars>>
Cif == IF m = 0 THEN UNCHANGED vars ELSE \E g \in Pick({"x", "y", "z"}), q \in Pick(Q), c \in Pick(0..(m - 1)), s \in Pick({0, 1}) :
       LET o == [t |-> "cif", op |-> Op(g, <<>>, <<q>>, <<>>, <<>>), c |-> <<c>>, s |-> <<s>>] IN Do(o, StepAll(ens, o)) /\ UNCHANGED <<m, pars>>
Err == \E g \in Pick({"x", "y", "z"}), q \in Pick(Q) :
       LET o == Op(g, <<>>, <<q>>, <<>>, <<>>) IN Do([t |-> "err", op |-> o], StepAll(ens, [t |-> "gate", op |-> o])) /\ UNCHANGED <<m, pars>>

Xor(cl, cs) == FoldSeq(LAMBDA c, a : (a + cl[c]) % 2, 0, cs)
Vals(cs) == {Xor(ens[i].cl, cs) : i \in 1..Len(ens)}
(* handles are identified by the set of bits, the expectation and the kind *)
Key(p) == <<ToSet(p.cs), p.e, p.obs>>
Fresh(ps) == Cardinality({Key(p) : p \in ToSet(pars \o ps)}) = Len(pars) + Len(ps)
Bits(k) == PickTuple(0..(m - 1), k)
(* mostly expectations that can be met *)
PickE(cs) == UNION {{IF right = 1 THEN e ELSE 1 - e : e \in Pick(Vals(cs))} : right \in PickW(<<1, 1, 1, 0>>)}
Par == IF m = 0 THEN UNCHANGED vars ELSE
       \E k \in Pick(1..(IF m < 4 THEN m ELSE 4)), obs \in Pick({TRUE, FALSE}) : \E cs \in Bits(k) : \E e \in PickE(cs) :
       LET p == [cs |-> cs, e |-> e, obs |-> obs] IN
       IF ~ Fresh(<<p>>) THEN UNCHANGED vars ELSE Do([t |-> "par", p |-> p], ens) /\ pars' = Append(pars, p) /\ UNCHANGED m
(* element-wise parity of two arrays of bits *)
APar == IF m < 2 THEN UNCHANGED vars ELSE \E A \in PickTuple(0..(m - 1), 2), B \in PickTuple(0..(m - 1), 2), obs \in Pick({TRUE, FALSE}), e \in Pick({0, 1}) :
        LET ps == <<[cs |-> <<A[1], B[1]>>, e |-> e, obs |-> obs], [cs |-> <<A[2], B[2]>>, e |-> e, obs |-> obs]>> IN
        IF ~ Fresh(ps) \/ A[1] = B[1] \/ A[2] = B[2] THEN UNCHANGED vars ELSE Do([t |-> "apar", ps |-> ps], ens) /\ pars' = pars \o ps /\ UNCHANGED m

Kinds == CASE Tiny -> <<"g1", "g2", "meas", "par">>
           [] Profile = "noise" -> <<"g1", "g1", "g2", "meas", "meas", "rst", "err", "par", "par">>
           [] OTHER -> <<"g1", "g1", "g2", "g2", "meas", "meas", "meas", "rst", "cif", "par", "par", "apar">>
Full == Len(prog) >= len
Step == phase = "build" /\ ~ Full /\ \E t \in PickW(Kinds) :
  CASE t = "g1" -> G1 [] t = "g2" -> G2 [] t = "meas" -> Meas [] t = "rst" -> Rst [] t = "cif" -> Cif [] t = "err" -> Err [] t = "par" -> Par [] t = "apar" -> APar
Rec(cl) == [j \in 1..m |-> cl[j - 1]]
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<n, len, prog, ens, m, pars>>
        /\ IF m = 0 THEN TRUE ELSE
           CSVWrite("%1$s", <<ToJson([n |-> n, m |-> m, prog |-> prog, pars |-> pars, recs |-> {Rec(ens[i].cl) : i \in 1..Len(ens)}])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
TotalOne == phase = "start" \/ NormOne(ens)
(* records of Clifford programs form an affine space *)
Affine == phase = "done" => LET R == {Rec(ens[i].cl) : i \in 1..Len(ens)} IN
          \A a, b, c \in R : [j \in 1..m |-> (a[j] + b[j] + c[j]) % 2] \in R
=============================================================================
