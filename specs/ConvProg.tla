------------------------------- MODULE ConvProg -------------------------------
(***************************************************************************)
(* Circuits handed to a converter and what the converted program must do.  *)
(*   unitary cases: columns of the unitary (up to a global phase)          *)
(*   meas cases:    joint distribution of the classical bits; Fresh = TRUE *)
(*                  writes every classical bit once, for targets that keep *)
(*                  only the sequence of measurements per qubit            *)
(* NativeOp: gates the target has to accept; outside of it a converter may  *)
(* refuse, but whatever it produces must be right.                         *)
(***************************************************************************)
EXTENDS Ens, OpGen, FiniteSetsExt, CSV, Json

CONSTANTS MinN, MaxN, MaxC, MinLen, MaxLen, Target, Profile, MaxPyth, MaxBranch, OutFile

VARIABLES n, m, len, prog, ens, phase
vars == <<n, m, len, prog, ens, phase>>

Unitary == Profile \in {"unitary", "tiny"}
GateKinds == CASE Profile = "tiny" -> <<"x", "cx">>
               [] Target = "stim" -> <<"h","h","pauli","pauli","cliff","cliff","cx","c2","swap","barrier","id">>
               [] OTHER -> <<"fixed","fixed","h","rot","rot","phase","u3","c1","c1","c1","cx","cp","crz","swap",
                     "rzz","mcx","mcz","mcp","ctrl","ctrl","gphase","barrier","id","xxyy","r">>
StepKinds == CASE Profile = "tiny" -> <<"gate">>
               [] Profile = "unitary" -> <<"gate","gate","gate","gate","block">>
               [] Profile = "meas" -> <<"gate","gate","gate","measure","measure","reset","block">>
               [] Profile = "flow" -> <<"gate","gate","gate","measure","measure","reset","cif","block">>
Fresh == Target \in {"cirq", "stim"}

Init == n = 0 /\ m = 0 /\ len = 0 /\ prog = <<>> /\ ens = <<>> /\ phase = "start"

Start == /\ phase = "start"
         /\ \E a \in Pick(MinN..MaxN), b \in Pick(1..MaxC), l \in Pick(MinLen..MaxLen) :
              /\ n' = a /\ m' = b /\ len' = l
              /\ ens' = <<[cl |-> [i \in 0..(b-1) |-> 0], st |-> ZeroState]>>
         /\ phase' = "build" /\ UNCHANGED <<prog>>

KindOK(kd) == /\ kd \in {"c1","cx","c2","cp","crz","swap","rzz","mcz","mcp","ctrl","xxyy"} => n >= 2
              /\ kd = "mcx" => n >= 3
OpsOf(s) == CASE s.t \in {"gate", "cif"} -> <<s.op>> [] s.t = "block" -> s.ops [] OTHER -> <<>>
Pyths == FoldLeft(LAMBDA a, s : a + PythCount(OpsOf(s)), 0, prog)

Ops(kd, Q, pyth) ==
  CASE kd = "pauli" -> {Op(g, <<>>, t, <<>>, <<>>) : g \in Pick({"x", "y", "z"}), t \in PickTuple(Q, 1)}
    [] kd = "cliff" -> {Op(g, <<>>, t, <<>>, <<>>) : g \in Pick({"s", "s_dg", "sx", "sx_dg", "x", "y", "z"}), t \in PickTuple(Q, 1)}
    [] kd = "c2" -> {Op(g, <<>>, <<t[2]>>, <<t[1]>>, b) : g \in Pick({"x", "y", "z"}), t \in PickTuple(Q, 2), b \in PickBits(1)}
    [] OTHER -> PickOp(kd, Q, pyth)

Do(o) == /\ prog' = Append(prog, o)
         /\ ens' = StepAll(ens, o)
         /\ UNCHANGED <<n, m, len, phase>>

Written == {prog[i].c : i \in {j \in 1..Len(prog) : prog[j].t = "measure"}}

BlockKinds == IF Target = "stim" THEN <<"cliff", "cx", "c2", "pauli">> ELSE <<"c1", "fixed", "rot", "cp", "phase", "gphase">>
Touched(seq) == UNION {{seq[i].q[j] : j \in 1..Len(seq[i].q)} \cup {seq[i].c[j] : j \in 1..Len(seq[i].c)} : i \in 1..Len(seq)}
BlockOp == \E k1 \in PickW(BlockKinds), k2 \in PickW(BlockKinds), k3 \in PickW(BlockKinds) :
           \E o1 \in Ops(k1, 0..(n-1), FALSE), o2 \in Ops(k2, 0..(n-1), FALSE), o3 \in Ops(k3, 0..(n-1), FALSE),
              pat \in PickW(<<1, 2, 3>>), cc \in PickW(<<0, 0, 1, 2>>), inv \in PickW(<<0, 0, 1>>) :
     LET seq0 == CASE pat = 1 -> <<o1>> [] pat = 2 -> <<o1, o2>> [] pat = 3 -> <<o1, o2, o3>>
         R == (0..(n-1)) \ Touched(seq0)
         k == IF Target = "stim" THEN 0 ELSE IF cc <= Cardinality(R) THEN cc ELSE Cardinality(R)
     IN \E c \in PickTuple(R, k), s \in PickBits(k) :
          Do([t |-> "block", src |-> seq0, ops |-> IF inv = 1 THEN InvSeq(seq0) ELSE seq0, inv |-> inv, c |-> c, s |-> s])

Step == /\ phase = "build" /\ Len(prog) < len
        /\ \E t \in PickW(StepKinds) :
             CASE t = "gate" -> \E kd \in PickW(GateKinds) :
                    IF ~KindOK(kd) THEN UNCHANGED vars
                    ELSE \E o \in Ops(kd, 0..(n-1), Pyths < MaxPyth) : Do([t |-> "gate", op |-> o])
               [] t = "block" -> IF n < 2 THEN UNCHANGED vars ELSE BlockOp
               [] t = "measure" ->
                    LET C == IF Fresh THEN (0..(m-1)) \ Written ELSE 0..(m-1)
                    IN IF Len(ens) > MaxBranch \/ C = {} THEN UNCHANGED vars
                       ELSE \E q \in Pick(0..(n-1)), c \in Pick(C) : Do([t |-> "measure", q |-> q, c |-> c])
               [] t = "reset" -> \E q \in Pick(0..(n-1)) :
                    IF Len(ens) > MaxBranch THEN UNCHANGED vars ELSE Do([t |-> "reset", q |-> q])
               [] t = "cif" -> IF Written = {} THEN UNCHANGED vars
                    ELSE \E kd \in PickW(IF Target = "stim" THEN <<"pauli">> ELSE <<"fixed","fixed","h","rot","c1","swap","u3">>) :
                    IF ~KindOK(kd) THEN UNCHANGED vars
                    ELSE \E o \in Ops(kd, 0..(n-1), Pyths < MaxPyth), k \in PickW(IF Target = "stim" THEN <<1>> ELSE <<1, 1, 2>>) :
                         LET j == IF k <= Cardinality(Written) THEN k ELSE 1
                         IN \E c \in PickTuple(Written, j), s \in PickBits(j) :
                           Do([t |-> "cif", op |-> o, c |-> c, s |-> s])

Plain == {"x","y","z","h","s","t","s_dg","t_dg","rx","ry","rz","p","swap","rxx","rzz"}
NativeOp(o) ==
  CASE Target \in {"qiskit", "qasm2", "stim"} -> TRUE
    [] Target = "cirq" -> (o.c = <<>> /\ o.g \in Plain \cup {"sx","sx_dg","gphase","xxyy","id"}) \/ (o.s = <<1>> /\ o.g \in {"x", "z"})
    [] Target = "pennylane" -> o.g \in Plain \cup {"sx","id","r","u3","gphase"}
    [] Target = "pytket" -> (o.c = <<>> /\ o.g \in Plain \cup {"sx","sx_dg","u3"}) \/ (o.s = <<1>> /\ o.g \in {"x", "y", "z"})
NativeStep(s) == CASE s.t = "gate" -> NativeOp(s.op)
                   [] s.t = "block" -> Target \in {"qiskit", "qasm2", "stim"} \/ (s.c = <<>> /\ s.inv = 0 /\ \A i \in 1..Len(s.ops) : NativeOp(s.ops[i]))
                   [] s.t = "reset" -> Target # "pytket"
                   [] OTHER -> TRUE
Must == \A i \in 1..Len(prog) : NativeStep(prog[i])

AmpSet(s) == {<<x>> \o s.v[x] : x \in DOMAIN s.v}
RunProg(b) == LET s == FoldLeft(LAMBDA st, o : Run(st, IF o.t = "gate" THEN <<o.op>> ELSE WithCtrl(o.ops, o.c, o.s)), Basis(b), prog)
              IN  [b |-> b, k |-> s.k, m |-> s.m, v |-> AmpSet(s)]

Emit ==
  /\ phase = "build" /\ Len(prog) = len /\ phase' = "done"
  /\ \E b1 \in Pick(0..(Pow2[n]-1)), b2 \in Pick(0..(Pow2[n]-1)) :
       IF Unitary THEN CSVWrite("%1$s", <<ToJson([kind |-> "unitary", target |-> Target, must |-> Must, n |-> n, m |-> 0, prog |-> prog,
                            cols |-> {RunProg(b) : b \in {0, b1, b2}}])>>, OutFile)
       ELSE IF Written = {} THEN TRUE
       ELSE CSVWrite("%1$s", <<ToJson([kind |-> "meas", target |-> Target, must |-> Must, n |-> n, m |-> m, prog |-> prog,
                            measured |-> Written, ens |-> Outcomes(ens, m)])>>, OutFile)
  /\ UNCHANGED <<n, m, len, prog, ens>>

Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

TotalProbability == phase = "start" \/ NormOne(ens)
=============================================================================
