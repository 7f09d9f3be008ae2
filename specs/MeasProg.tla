------------------------------ MODULE MeasProg ------------------------------
(***************************************************************************)
(* Gate programs with measurements into classical bits, resets and gates   *)
(* conditioned on classical bits.  The state of the machine is the         *)
(* ensemble of all measurement branches: a sequence of records             *)
(*   [cl |-> classical bits, st |-> unnormalised quantum state].           *)
(***************************************************************************)
EXTENDS Ens, OpGen, Sequences, SequencesExt, FiniteSetsExt, CSV, Json

CONSTANTS MinN, MaxN, MinC, MaxC, MinLen, MaxLen, Profile, MaxPyth, MaxBranch, OutFile

VARIABLES n, m, len, prog, ens, phase
vars == <<n, m, len, prog, ens, phase>>

GateKinds == IF Profile = "tiny" THEN <<"fixed", "c1">> ELSE <<"fixed","h","h","rot","c1","c1","cp","swap","mcx","ctrl","u3">>
StepKinds ==
  CASE Profile = "mixed" -> <<"gate","gate","gate","measure","measure","reset","cif","cif">>
    [] Profile = "feedback" -> <<"gate","measure","cif","cif","reset">>
    [] Profile = "remeasure" -> <<"gate","measure","measure","reset">>
    [] Profile = "tiny" -> <<"gate","measure","reset","cif">>

Init == n = 0 /\ m = 0 /\ len = 0 /\ prog = <<>> /\ ens = <<>> /\ phase = "start"

Start == /\ phase = "start"
         /\ \E a \in Pick(MinN..MaxN), b \in Pick(MinC..MaxC), l \in Pick(MinLen..MaxLen) :
              /\ n' = a /\ m' = b /\ len' = l
              /\ ens' = <<[cl |-> [i \in 0..(b-1) |-> 0], st |-> ZeroState]>>
         /\ phase' = "build" /\ UNCHANGED prog

KindOK(kd) == /\ kd \in {"c1","cp","swap","ctrl"} => n >= 2
              /\ kd = "mcx" => n >= 3
Pyths == PythCount([i \in 1..Len(prog) |-> IF prog[i].t \in {"gate","cif"} THEN prog[i].op ELSE Gate("id", 0)])

Do(o) == /\ prog' = Append(prog, o)
         /\ ens' = StepAll(ens, o)
         /\ UNCHANGED <<n, m, len, phase>>

Step == /\ phase = "build" /\ Len(prog) < len
        /\ \E t \in PickW(StepKinds) :
             CASE t = "gate" -> \E kd \in PickW(GateKinds) :
                    IF ~KindOK(kd) THEN UNCHANGED vars
                    ELSE \E o \in PickOp(kd, 0..(n-1), Pyths < MaxPyth) : Do([t |-> "gate", op |-> o])
               [] t = "measure" -> \E q \in Pick(0..(n-1)), c \in Pick(0..(m-1)) :
                    IF Len(ens) > MaxBranch THEN UNCHANGED vars ELSE Do([t |-> "measure", q |-> q, c |-> c])
               [] t = "reset" -> \E q \in Pick(0..(n-1)) :
                    IF Len(ens) > MaxBranch THEN UNCHANGED vars ELSE Do([t |-> "reset", q |-> q])
               [] t = "cif" -> \E kd \in PickW(IF Profile = "tiny" THEN <<"x">> ELSE <<"fixed","fixed","h","rot","c1","u3","swap","mcx">>) :
                    IF ~KindOK(kd) THEN UNCHANGED vars
                    ELSE \E o \in PickOp(kd, 0..(n-1), Pyths < MaxPyth) :
                         \E k \in PickW(<<1, 1, 1, 2>>) :
                           IF k > m THEN UNCHANGED vars
                           ELSE \E c \in PickTuple(0..(m-1), k), s \in PickBits(k) :
                                  Do([t |-> "cif", op |-> o, c |-> c, s |-> s])

Measured == {prog[i].c : i \in {j \in 1..Len(prog) : prog[j].t = "measure"}}
Emit == /\ phase = "build" /\ Len(prog) = len
        /\ phase' = "done"
        /\ IF Measured = {} THEN TRUE
           ELSE CSVWrite("%1$s", <<ToJson([n |-> n, m |-> m, prog |-> prog, measured |-> Measured,
                  ens |-> Outcomes(ens, m)])>>, OutFile)
        /\ UNCHANGED <<n, m, len, prog, ens>>

Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

(* total probability over all branches is one *)
TotalProbability == phase = "start" \/ NormOne(ens)
(* a measured qubit agrees with its classical bit until it is touched again *)
Recorded == (Len(prog) > 0 /\ prog[Len(prog)].t = "measure") =>
              \A i \in 1..Len(ens) : \A x \in DOMAIN ens[i].st.v :
                  Bit(x, prog[Len(prog)].q) = ens[i].cl[prog[Len(prog)].c]
ResetClean == (Len(prog) > 0 /\ prog[Len(prog)].t = "reset") =>
              \A i \in 1..Len(ens) : \A x \in DOMAIN ens[i].st.v : Bit(x, prog[Len(prog)].q) = 0
=============================================================================
