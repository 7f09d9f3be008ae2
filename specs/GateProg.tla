------------------------------ MODULE GateProg ------------------------------
(***************************************************************************)
(* Programs of gates on N qubits and their exact final states.             *)
(* Behaviour: choose a register size and a length, append operations one   *)
(* by one (each is a step of the program counter of the modelled circuit), *)
(* finally emit program, final state.                                      *)
(***************************************************************************)
EXTENDS OpGen, Sequences, SequencesExt, FiniteSetsExt, CSV, Json

CONSTANTS MinN, MaxN, MinLen, MaxLen, Profile, MaxPyth, MaxH, OutFile

VARIABLES n, len, prog, st, phase
vars == <<n, len, prog, st, phase>>

Kinds ==
  CASE Profile = "mixed" -> <<"fixed","fixed","fixed","h","h","rot","rot","rot","u3","r","c1","c1","c1","cp","crz",
                              "swap","rzz","xxyy","mcx","mcz","mcp","ctrl","ctrl","gphase","id","barrier">>
    [] Profile = "ctrl"  -> <<"h","rot","ctrl","ctrl","ctrl","mcx","mcp">>
    [] Profile = "wide"  -> <<"perm","x","c1","c1","c1","c1","cx","cx","cp","swap","swap","mcx","mcx","phase","h","h","h","mcp","crz","rzz">>
    [] Profile = "clifford" -> <<"h","h","fixed","c1","c1","swap">>
    [] Profile = "tiny"  -> <<"fixed","c1","swap","rot">>

Branching == {"h", "sx", "sx_dg", "rx", "ry", "u3", "r", "rxx", "xxyy"}
Hs(ops) == Cardinality({i \in 1..Len(ops) : ops[i].g \in Branching})

Init == n = 0 /\ len = 0 /\ prog = <<>> /\ st = ZeroState /\ phase = "start"

Start == /\ phase = "start"
         /\ \E k \in Pick(MinN..MaxN), l \in Pick(MinLen..MaxLen) :
               n' = k /\ len' = l
         /\ phase' = "build"
         /\ UNCHANGED <<prog, st>>

KindOK(kd) == /\ kd \in {"c1","cx","cp","crz","swap","rzz","xxyy","mcz","mcp","ctrl"} => n >= 2
              /\ kd = "mcx" => n >= 3

AppendOp == /\ phase = "build" /\ Len(prog) < len
            /\ \E kd \in PickW(Kinds) :
                 IF ~KindOK(kd) THEN UNCHANGED vars
                 ELSE \E o \in PickOp(kd, 0..(n-1), PythCount(prog) < MaxPyth) :
                   IF o.g \in Branching /\ Hs(prog) >= MaxH
                   THEN UNCHANGED vars
                   ELSE /\ prog' = Append(prog, o)
                        /\ st' = ApplyOp(st, o)
                        /\ UNCHANGED <<n, len, phase>>

AmpSet(s) == {<<x>> \o s.v[x] : x \in DOMAIN s.v}

Emit == /\ phase = "build" /\ Len(prog) = len
        /\ phase' = "done"
        /\ CSVWrite("%1$s", <<ToJson([n |-> n, prog |-> prog, k |-> st.k, m |-> st.m, v |-> AmpSet(st)])>>, OutFile)
        /\ UNCHANGED <<n, len, prog, st>>

Next == Start \/ AppendOp \/ Emit
Spec == Init /\ [][Next]_vars

(* ---- meta-properties of the semantics, checked exhaustively ---- *)
Unitary == UnitNorm(st)
Reversible == EqState(Run(st, InvSeq(prog)), ZeroState)
(* swapping two operations on disjoint qubits changes nothing *)
Touch(o) == {o.q[i] : i \in 1..Len(o.q)} \cup {o.c[i] : i \in 1..Len(o.c)}
Commuting == \A i \in 1..(Len(prog)-1) :
               Touch(prog[i]) \cap Touch(prog[i+1]) = {} =>
                 EqState(st, Run(ZeroState, [prog EXCEPT ![i] = prog[i+1], ![i+1] = prog[i]]))
(* controlling every gate on an unset extra qubit does nothing, on a set   *)
(* one does everything                                                     *)
CtrlOff == EqState(Run(Basis(0), WithCtrl(prog, <<n>>, <<1>>)), ZeroState)
CtrlOn1 == EqState(Run(Basis(0), WithCtrl(prog, <<n>>, <<0>>)), st)
=============================================================================
