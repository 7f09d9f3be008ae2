------------------------------- MODULE PassProg -------------------------------
(***************************************************************************)
(* Circuits for the compiler passes together with a pipeline of passes.    *)
(* Programs are neighbourhood rich: an "echo" step repeats, inverts or     *)
(* slightly changes an earlier gate, so fusions and cancellations fire.    *)
(*                                                                         *)
(* What a pipeline must preserve:                                          *)
(*   strict passes   the unitary up to a global phase                      *)
(*   zero passes     the state prepared from |0...0>                       *)
(*   moving passes   the joint distribution of the classical bits          *)
(***************************************************************************)
EXTENDS Ens, OpGen, FiniteSetsExt, CSV, Json

CONSTANTS MinN, MaxN, MaxC, MinLen, MaxLen, Profile, MaxPyth, MaxBranch, OutFile

VARIABLES n, m, len, prog, ens, passes, phase
vars == <<n, m, len, prog, ens, passes, phase>>

Strict == {"fuse_adjacents", "combine_single_qubit_gates", "commute_swaps", "convert_to_cx", "convert_to_cz",
           "convert_to_prx", "decompose", "decompose1", "decompose_collect", "gray_synth_toffoli", "remove_barriers",
           "reverse_parallelize"}
Zero == {"arrange_swaps", "cancel_zero_controls"}
Moving == {"resolve_swaps", "layout_rot", "layout_rev"}

Unitary == Profile \in {"unitary", "tiny"}
GateKinds == CASE Profile = "tiny" -> <<"x", "cx">>
               [] OTHER -> <<"fixed","fixed","fixed","h","rot","rot","phase","u3","c1","c1","c1","cx","cx","cp","crz","swap","swap","swap",
                     "rzz","mcx","mcx","mcz","ctrl","gphase","barrier","id","xxyy","r">>
StepKinds == CASE Profile = "tiny" -> <<"gate", "echo">>
               [] Profile = "unitary" -> <<"gate","gate","gate","gate","echo","echo","echo","block">>
               [] OTHER -> <<"gate","gate","gate","echo","echo","measure","measure","reset","cif","block">>
PassPool == IF Unitary THEN SetToSeq(Strict \cup Zero) \o <<"fuse_adjacents", "fuse_adjacents", "cancel_zero_controls">>
            ELSE SetToSeq(Strict \cup Zero \cup Moving) \o <<"fuse_adjacents", "commute_swaps", "resolve_swaps">>

Init == n = 0 /\ m = 0 /\ len = 0 /\ prog = <<>> /\ ens = <<>> /\ passes = <<>> /\ phase = "start"

Start == /\ phase = "start"
         /\ \E a \in Pick(MinN..MaxN), b \in Pick(1..MaxC), l \in Pick(MinLen..MaxLen) :
              /\ n' = a /\ m' = b /\ len' = l
              /\ ens' = <<[cl |-> [i \in 0..(b-1) |-> 0], st |-> ZeroState]>>
         /\ phase' = "build" /\ UNCHANGED <<prog, passes>>

KindOK(kd) == /\ kd \in {"c1","cx","cp","crz","swap","rzz","mcz","ctrl","xxyy"} => n >= 2
              /\ kd = "mcx" => n >= 3
OpsOf(s) == CASE s.t \in {"gate", "cif"} -> <<s.op>> [] s.t = "block" -> s.ops [] OTHER -> <<>>
Pyths == FoldLeft(LAMBDA a, s : a + PythCount(OpsOf(s)), 0, prog)
GateIx == {i \in 1..Len(prog) : prog[i].t = "gate"}

Do(o) == /\ prog' = Append(prog, o)
         /\ ens' = StepAll(ens, o)
         /\ UNCHANGED <<n, m, len, phase, passes>>

Rev2(t) == IF Len(t) = 2 THEN <<t[2], t[1]>> ELSE t
(* variations of an earlier gate *)
Vary(o, v) ==
  CASE v = "same" -> o
    [] v = "inv"  -> InvOp(o)
    [] v = "flip" -> IF o.c = <<>> THEN [o EXCEPT !.q = Rev2(@)]     \* exchange control and target / the two qubits
                     ELSE IF Len(o.q) = 1 THEN [o EXCEPT !.q = <<o.c[1]>>, !.c = <<o.q[1]>> \o Tail(o.c)] ELSE o
    [] v = "iflip" -> LET p == InvOp(o) IN IF p.c = <<>> THEN [p EXCEPT !.q = Rev2(@)]
                     ELSE IF Len(p.q) = 1 THEN [p EXCEPT !.q = <<p.c[1]>>, !.c = <<p.q[1]>> \o Tail(p.c)] ELSE p
    [] v = "state" -> IF o.s = <<>> THEN InvOp(o) ELSE [InvOp(o) EXCEPT !.s = [i \in 1..Len(@) |-> 1 - @[i]]]
    [] v = "angle" -> IF o.p = <<>> THEN InvOp(o) ELSE [o EXCEPT !.p[1] = <<@[1] + 1, -@[2]>>]
Variants == <<"same", "inv", "inv", "flip", "iflip", "state", "angle">>

BlockOp == \E o1 \in PickOp("c1", 0..(n-1), FALSE), o2 \in PickOp("fixed", 0..(n-1), FALSE),
              o3 \in PickOp("rot", 0..(n-1), FALSE), o4 \in PickOp("cp", 0..(n-1), FALSE),
              pat \in PickW(<<1, 2, 3, 4, 5, 6>>), cc \in PickW(<<0, 0, 1>>) :
     LET seq == CASE pat = 1 -> <<o1, o2>> [] pat = 2 -> <<o2, o3, o2>> [] pat = 3 -> <<o1, o2, InvOp(o1)>>
                  [] pat = 4 -> <<o4, o1, o2>> [] pat = 5 -> <<o3, o3, o1>> [] pat = 6 -> <<o4, o3, o4>>
         T == UNION {{seq[i].q[j] : j \in 1..Len(seq[i].q)} \cup {seq[i].c[j] : j \in 1..Len(seq[i].c)} : i \in 1..Len(seq)}
         R == (0..(n-1)) \ T
     IN IF cc = 0 \/ R = {} THEN Do([t |-> "block", ops |-> seq, c |-> <<>>, s |-> <<>>])
        ELSE \E c \in Pick(R), s \in Pick({0, 1}) : Do([t |-> "block", ops |-> seq, c |-> <<c>>, s |-> <<s>>])

Step == /\ phase = "build" /\ Len(prog) < len
        /\ \E t \in PickW(StepKinds) :
             CASE t = "gate" -> \E kd \in PickW(GateKinds) :
                    IF ~KindOK(kd) THEN UNCHANGED vars
                    ELSE \E o \in PickOp(kd, 0..(n-1), Pyths < MaxPyth) : Do([t |-> "gate", op |-> o])
               [] t = "echo" -> IF GateIx = {} THEN UNCHANGED vars
                    ELSE \E i \in (IF Sampling THEN PickW(<<Max(GateIx), Max(GateIx), RandomElement(GateIx)>>) ELSE GateIx),
                            v \in PickW(Variants) :
                           LET o == Vary(prog[i].op, v)
                           IN IF PythOf(o.p) > 0 /\ Pyths >= MaxPyth THEN UNCHANGED vars ELSE Do([t |-> "gate", op |-> o])
               [] t = "block" -> IF n < 2 THEN UNCHANGED vars ELSE BlockOp
               [] t = "measure" -> \E q \in Pick(0..(n-1)), c \in Pick(0..(m-1)) :
                    IF Len(ens) > MaxBranch THEN UNCHANGED vars ELSE Do([t |-> "measure", q |-> q, c |-> c])
               [] t = "reset" -> \E q \in Pick(0..(n-1)) :
                    IF Len(ens) > MaxBranch THEN UNCHANGED vars ELSE Do([t |-> "reset", q |-> q])
               [] t = "cif" -> \E kd \in PickW(<<"fixed","fixed","h","rot","c1","swap","u3">>) :
                    IF ~KindOK(kd) THEN UNCHANGED vars
                    ELSE \E o \in PickOp(kd, 0..(n-1), Pyths < MaxPyth), c \in Pick(0..(m-1)), s \in Pick({0, 1}) :
                           Do([t |-> "cif", op |-> o, c |-> <<c>>, s |-> <<s>>])

ChoosePasses ==
  /\ phase = "build" /\ Len(prog) = len
  /\ \E k \in (IF Sampling THEN PickW(<<1, 1, 1, 2, 3, 4>>) ELSE {1}) :
       \E p \in (IF Sampling THEN {[i \in 1..k |-> RandomElement(Range(PassPool))]} ELSE {<<PassPool[1]>>}) :
         passes' = p
  /\ phase' = "emit" /\ UNCHANGED <<n, m, len, prog, ens>>

AmpSet(s) == {<<x>> \o s.v[x] : x \in DOMAIN s.v}
RunProg(b) == LET s == FoldLeft(LAMBDA st, o : Run(st, IF o.t = "gate" THEN <<o.op>> ELSE WithCtrl(o.ops, o.c, o.s)), Basis(b), prog)
              IN  [b |-> b, k |-> s.k, m |-> s.m, v |-> AmpSet(s)]
Inputs(B) == IF \E i \in 1..Len(passes) : passes[i] \in Zero THEN {0} ELSE B
Measured == {prog[i].c : i \in {j \in 1..Len(prog) : prog[j].t = "measure"}}

Emit ==
  /\ phase = "emit" /\ phase' = "done"
  /\ \E b1 \in Pick(0..(Pow2[n]-1)), b2 \in Pick(0..(Pow2[n]-1)) :
       IF Unitary THEN CSVWrite("%1$s", <<ToJson([kind |-> "unitary", n |-> n, m |-> 0, prog |-> prog, passes |-> passes,
                            cols |-> {RunProg(b) : b \in Inputs({0, b1, b2})}])>>, OutFile)
       ELSE IF Measured = {} THEN TRUE
       ELSE CSVWrite("%1$s", <<ToJson([kind |-> "meas", n |-> n, m |-> m, prog |-> prog, passes |-> passes,
                            measured |-> Measured, ens |-> Outcomes(ens, m)])>>, OutFile)
  /\ UNCHANGED <<n, m, len, prog, ens, passes>>

Next == Start \/ Step \/ ChoosePasses \/ Emit
Spec == Init /\ [][Next]_vars

(* ---- meta-properties ---- *)
TotalProbability == phase = "start" \/ NormOne(ens)
(* the classification of variations is what its names say *)
EchoLaw == \A i \in GateIx : \A b \in 0..(Pow2[n]-1) :
             EqState(Run(Basis(b), <<prog[i].op, Vary(prog[i].op, "inv")>>), Basis(b))
=============================================================================
