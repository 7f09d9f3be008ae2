------------------------------ MODULE TransProg ------------------------------
(***************************************************************************)
(* Histories of circuit transformations.  The state is a pool of circuits; *)
(* each one is known by the flat gate sequence it denotes.  A step makes a *)
(* new circuit (empty, copy, inverse, transpiled, bound), appends a gate,  *)
(* or inserts another circuit wrapped as an operation which was inverted   *)
(* or controlled any number of times.  No step but the insertion into      *)
(* circuit i may change what circuit i denotes.                            *)
(* Symbol j stands for the angle vals[j]; a gate may be written with it.   *)
(***************************************************************************)
EXTENDS OpGen, Sequences, SequencesExt, FiniteSetsExt, CSV, Json

CONSTANTS MinN, MaxN, MinLen, MaxLen, MaxFlat, MaxCirc, Profile, MaxPyth, OutFile

VARIABLES len, cmds, circs, vals, phase
vars == <<len, cmds, circs, vals, phase>>

GateKinds == IF Profile = "tiny" THEN <<"x", "h">> ELSE
  <<"fixed","fixed","h","rot","rot","u3","c1","c1","cp","crz","swap","rzz","xxyy","mcx","mcz","ctrl","gphase","r","id">>
StepKinds == IF Profile = "tiny" THEN <<"gate","copy","inverse","insert">>
  ELSE <<"new","gate","gate","gate","gate","gate","gate","sym","sym","sym","copy","inverse","inverse","insert","insert","insert","insert",
         "extend","extend","compose","transpile","bind","rename">>

(* modifications of a wrapped circuit, applied left to right *)
Inv == [t |-> "inv", s |-> <<>>]
Ctl(s) == [t |-> "ctrl", s |-> s]
Plain(t) == [t |-> t, s |-> <<>>]
Width(mods) == FoldLeft(LAMBDA a, b : a + Len(b.s), 0, mods)

(* the flat sequence of a circuit on qubits 0..w-1 after one modification: *)
(* new controls come first                                                 *)
Shift(ops, d) == [i \in 1..Len(ops) |-> [ops[i] EXCEPT !.q = [j \in 1..Len(@) |-> @[j] + d],
                                                       !.c = [j \in 1..Len(@) |-> @[j] + d]]]
Modify(ops, mod) == CASE mod.t = "inv" -> InvSeq(ops)
                      [] mod.t = "ctrl" -> WithCtrl(Shift(ops, Len(mod.s)), [i \in 1..Len(mod.s) |-> i - 1], mod.s)
                      [] OTHER -> ops
ModifyAll(ops, mods) == FoldLeft(Modify, ops, mods)
(* qubit i of the inserted operation lands on t[i+1] *)
Land(ops, t) == MapQ(ops, [i \in 0..(Len(t)-1) |-> t[i+1]])

PickMods == UNION {LET M == <<Inv, Ctl(<<1>>), Ctl(<<0>>), Plain("copy"), Inv, Ctl(<<1, 0>>), Ctl(<<0, 1>>), Plain("bind"), Plain("rename")>>
                   IN  IF k = 0 THEN {<<>>} ELSE IF k = 1 THEN {<<a>> : a \in PickW(M)}
                       ELSE IF k = 2 THEN {<<a, b>> : a \in PickW(M), b \in PickW(M)}
                       ELSE {<<a, b, c>> : a \in PickW(M), b \in PickW(M), c \in PickW(M)} :
                   k \in (IF Profile = "tiny" THEN {1} ELSE Pick(0..3))}

SymAng == IF Profile = "tiny" THEN {<<1, 0>>} ELSE Ang(MaxPyth > 0)

Init == len = 0 /\ cmds = <<>> /\ circs = <<>> /\ vals = <<>> /\ phase = "start"

Start == /\ phase = "start"
         /\ \E k \in Pick(MinN..MaxN), l \in Pick(MinLen..MaxLen), a \in Pick(SymAng), b \in Pick(SymAng) :
              /\ len' = l /\ vals' = <<a, b>>
              /\ circs' = <<[n |-> k, ops |-> <<>>]>>
              /\ cmds' = <<[t |-> "new", n |-> k]>>
         /\ phase' = "build"

KindOK(kd, n) == /\ kd \in {"c1","cp","crz","swap","rzz","xxyy","mcz","ctrl"} => n >= 2
                 /\ kd = "mcx" => n >= 3
Pyths == FoldLeft(LAMBDA a, c : a + PythCount(c.ops), 0, circs)

(* replace circuit i / add a circuit *)
Put(i, ops, cmd) == /\ cmds' = Append(cmds, cmd)
                    /\ circs' = [circs EXCEPT ![i].ops = ops]
                    /\ UNCHANGED <<len, vals, phase>>
Add(n, ops, cmd) == IF Len(circs) >= MaxCirc THEN UNCHANGED vars
                    ELSE /\ cmds' = Append(cmds, cmd)
                         /\ circs' = Append(circs, [n |-> n, ops |-> ops])
                         /\ UNCHANGED <<len, vals, phase>>
Insert(i, j, mods, t, cmd) ==
   LET new == circs[i].ops \o Land(ModifyAll(circs[j].ops, mods), t)
   IN  IF Len(new) > MaxFlat \/ PythCount(new) > MaxPyth THEN UNCHANGED vars ELSE Put(i, new, cmd)

SymOp(t, n, v, j) ==
  CASE t = "p"  -> {Op("p", <<v>>, x, <<>>, <<>>) : x \in PickTuple(0..(n-1), 1)}
    [] t = "rx" -> {Op("rx", <<v>>, x, <<>>, <<>>) : x \in PickTuple(0..(n-1), 1)}
    [] t = "ry" -> {Op("ry", <<v>>, x, <<>>, <<>>) : x \in PickTuple(0..(n-1), 1)}
    [] t = "rz" -> {Op("rz", <<v>>, x, <<>>, <<>>) : x \in PickTuple(0..(n-1), 1)}
    [] t = "cp" -> {Op("p", <<v>>, <<x[2]>>, <<x[1]>>, <<1>>) : x \in PickTuple(0..(n-1), 2)}
    [] t = "crx" -> {Op("rx", <<v>>, <<x[2]>>, <<x[1]>>, <<1>>) : x \in PickTuple(0..(n-1), 2)}
    [] t = "rzz" -> {Op("rzz", <<v>>, x, <<>>, <<>>) : x \in PickTuple(0..(n-1), 2)}
    [] t = "rxx" -> {Op("rxx", <<v>>, x, <<>>, <<>>) : x \in PickTuple(0..(n-1), 2)}
    [] t = "xxyy" -> {Op("xxyy", <<v, <<1,0>>>>, x, <<>>, <<>>) : x \in PickTuple(0..(n-1), 2)}
    [] t = "u3" -> {Op("u3", <<v, <<1,0>>, <<3,0>>>>, x, <<>>, <<>>) : x \in PickTuple(0..(n-1), 1)}
    [] t = "gphase" -> {Op("gphase", <<v>>, x, <<>>, <<>>) : x \in PickTuple(0..(n-1), 1)}

Step ==
  /\ phase = "build" /\ Len(cmds) < len
  /\ \E t \in PickW(StepKinds), i \in Pick(1..Len(circs)), j \in Pick(1..Len(circs)) :
     LET n == circs[i].n IN
     CASE t = "new" -> \E k \in Pick(MinN..MaxN) : Add(k, <<>>, [t |-> "new", n |-> k])
       [] t = "gate" -> \E kd \in PickW(GateKinds) :
            IF ~KindOK(kd, n) \/ Len(circs[i].ops) >= MaxFlat THEN UNCHANGED vars
            ELSE \E o \in PickOp(kd, 0..(n-1), PythCount(circs[i].ops) < MaxPyth) :
                   Put(i, Append(circs[i].ops, o), [t |-> "gate", i |-> i, op |-> o])
       [] t = "sym" -> \E g \in PickW(<<"p","rx","ry","rz","cp","crx","rzz","rxx","xxyy","u3","gphase">>), y \in Pick({1, 2}) :
            IF (g \in {"cp","crx","rzz","rxx","xxyy"} /\ n < 2) \/ Len(circs[i].ops) >= MaxFlat
               \/ PythCount(circs[i].ops) + Abs(vals[y][2]) > MaxPyth THEN UNCHANGED vars
            ELSE \E o \in SymOp(g, n, vals[y], y) :
                   Put(i, Append(circs[i].ops, o), [t |-> "sym", i |-> i, op |-> o, y |-> y])
       [] t = "copy" -> Add(n, circs[i].ops, [t |-> "copy", i |-> i])
       [] t = "inverse" -> Add(n, InvSeq(circs[i].ops), [t |-> "inverse", i |-> i])
       [] t = "transpile" -> \E d \in Pick(0..4) : Add(n, circs[i].ops, [t |-> "transpile", i |-> i, d |-> d])
       (* "rename" replaces the symbols by expressions of other symbols that have the same values *)
       [] t \in {"bind", "rename"} -> Add(n, circs[i].ops, [t |-> t, i |-> i])
       [] t = "insert" -> \E mods \in PickMods :
            LET w == circs[j].n + Width(mods) IN
            IF i = j \/ w > n \/ circs[j].ops = <<>> THEN UNCHANGED vars
            ELSE \E x \in PickTuple(0..(n-1), w) :
                   Insert(i, j, mods, x, [t |-> "insert", i |-> i, j |-> j, mods |-> mods, q |-> x])
       [] t \in {"extend", "compose"} ->
            IF i = j \/ circs[j].n > n THEN UNCHANGED vars
            ELSE \E x \in PickTuple(0..(n-1), circs[j].n) : Insert(i, j, <<>>, x, [t |-> t, i |-> i, j |-> j, q |-> x])

AmpSet(s) == {<<x>> \o s.v[x] : x \in DOMAIN s.v}
Col(c, b) == LET s == Run(Basis(b), c.ops) IN [b |-> b, k |-> s.k, m |-> s.m, v |-> AmpSet(s)]
EmitCols(c, B) == [n |-> c.n, cols |-> {Col(c, b % Pow2[c.n]) : b \in B}]

Probe == IF Profile = "tiny" THEN {0} ELSE 0..15

Emit == /\ phase = "build" /\ Len(cmds) >= len
        /\ phase' = "done"
        /\ \E b1 \in Pick(Probe), b2 \in Pick(Probe) :
             CSVWrite("%1$s", <<ToJson([cmds |-> cmds, vals |-> vals, flat |-> [i \in 1..Len(circs) |-> Len(circs[i].ops)],
                 circs |-> [i \in 1..Len(circs) |-> EmitCols(circs[i], {0, b1, b2})]])>>, OutFile)
        /\ UNCHANGED <<len, cmds, circs, vals>>

Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

(* ---- meta-properties ---- *)
Norms == \A i \in 1..Len(circs) : UnitNorm(Run(ZeroState, circs[i].ops))
(* an inverse undoes its original, on every basis state *)
InverseUndoes == \A i \in 1..Len(circs) : \A b \in 0..(Pow2[circs[i].n]-1) :
                    EqState(Run(Basis(b), circs[i].ops \o InvSeq(circs[i].ops)), Basis(b))
(* controlling twice is controlling by both; control and inversion commute *)
Laws == \A i \in 1..Len(circs) : \A b \in 0..(Pow2[circs[i].n + 2] - 1) :
          /\ EqState(Run(Basis(b), ModifyAll(circs[i].ops, <<Ctl(<<0>>), Ctl(<<1>>)>>)),
                     Run(Basis(b), ModifyAll(circs[i].ops, <<Ctl(<<1, 0>>)>>)))
          /\ EqState(Run(Basis(b), ModifyAll(circs[i].ops, <<Ctl(<<0>>), Inv>>)),
                     Run(Basis(b), ModifyAll(circs[i].ops, <<Inv, Ctl(<<0>>)>>)))
=============================================================================
