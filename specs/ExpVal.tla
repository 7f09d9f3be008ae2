------------------------------- MODULE ExpVal --------------------------------
(***************************************************************************)
(* Expectation values of operators in the states of gate programs.         *)
(***************************************************************************)
EXTENDS HamSem

CONSTANTS MaxN, MaxTerms, Profile, OutFile
VARIABLES n, prog, len, hs, nt, st, phase
vars == <<n, prog, len, hs, nt, st, phase>>
Tiny == Profile = "tiny"
Init == n = 0 /\ prog = <<>> /\ len = 0 /\ hs = <<>> /\ nt = 0 /\ st = ZeroState /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "prep"
         /\ \E k \in Pick(1..MaxN), l \in Pick(IF Tiny THEN {1} ELSE 2..8), t \in Pick(1..MaxTerms) : n' = k /\ len' = l /\ nt' = t
         /\ UNCHANGED <<prog, hs, st>>
Kinds == IF Tiny THEN <<"fixed">> ELSE <<"h", "h", "rot", "rot", "fixed", "fixed", "c1", "cx", "cx", "cp", "u3", "swap">>
Q == 0..(n - 1)
Prep == /\ phase = "prep" /\ Len(prog) < len
        /\ \E kd \in PickW(Kinds) :
             IF kd \in {"c1", "cx", "cp", "swap"} /\ n < 2 THEN UNCHANGED vars
             ELSE \E o \in PickOp(kd, Q, PythCount(prog) < 1) : prog' = Append(prog, o) /\ st' = ApplyOp(st, o) /\ UNCHANGED <<n, len, hs, nt, phase>>
Go == phase = "prep" /\ Len(prog) >= len /\ phase' = "build" /\ UNCHANGED <<n, prog, len, hs, nt, st>>
Co == IF Profile = "complex" THEN {<<1, 0>>, <<0, 1>>, <<-1, 2>>, <<0, -3>>} ELSE {<<1, 0>>, <<-1, 0>>, <<2, 0>>, <<3, 0>>}
AddTerm == /\ phase = "build" /\ Len(hs) < nt
           /\ \E fs \in PickFs(Facs(Profile = "pauli"), n), c \in Pick(Co) :
                IF \E h \in 1..Len(hs) : hs[h].fs = fs THEN UNCHANGED vars
                ELSE hs' = Append(hs, [fs |-> fs, c |-> c]) /\ UNCHANGED <<n, prog, len, nt, st, phase>>
HV(v) == FoldSet(LAMBDA i, a : VAdd(a, VMul(<<hs[i].c[1], 0, hs[i].c[2], 0>>, Term(hs[i].fs, v))), [x \in {} |-> RZero], 1..Len(hs))
Val == VDot(st.v, HV(st.v))
Full == Len(hs) >= nt
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<n, prog, len, hs, nt, st>>
        /\ CSVWrite("%1$s", <<ToJson([n |-> n, prog |-> prog, hs |-> hs, val |-> Val, k |-> st.k, m |-> st.m])>>, OutFile)
Next == Start \/ Prep \/ Go \/ AddTerm \/ Emit
Spec == Init /\ [][Next]_vars
(* hermitian terms have real expectation values: ring elements fixed by conjugation *)
Real == (phase = "build" /\ \A i \in 1..Len(hs) : hs[i].c[2] = 0 /\ ~ Ladder(hs[i].fs)) => RConj(Val) = Val
=============================================================================
