------------------------------ MODULE TrotProg -------------------------------
(***************************************************************************)
(* Product formulas.  H is a sum of generators with one angle per elementary *)
(* step.  Evolution over `steps` steps applied `iter` times is, for some   *)
(* order of the terms, the repeated product of the term evolutions (second *)
(* order: forwards, then backwards).  When all terms commute there is only *)
(* one result, the exact evolution.                                        *)
(***************************************************************************)
EXTENDS HamSem

CONSTANTS MaxN, MaxTerms, MaxReps, MaxPyth, Profile, OutFile
VARIABLES n, prog, len, hs, nt, ctl, reps, ord, st, phase
vars == <<n, prog, len, hs, nt, ctl, reps, ord, st, phase>>
Tiny == Profile = "tiny"
Init == n = 0 /\ prog = <<>> /\ len = 0 /\ hs = <<>> /\ nt = 0 /\ ctl = 0 /\ reps = 1 /\ ord = 1 /\ st = ZeroState /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "prep"
         /\ \E k \in Pick(1..MaxN), l \in Pick(IF Tiny THEN {1} ELSE 2..6), t \in PickW(IF MaxTerms = 1 THEN <<1>> ELSE <<1, 2, 2, 3, 3>>), c \in PickW(IF Tiny THEN <<0>> ELSE <<0, 0, 1>>),
               r \in Pick(1..MaxReps), o \in Pick(1..(IF Tiny THEN 1 ELSE 2)) :
              n' = k /\ len' = l /\ nt' = (IF t > MaxTerms THEN MaxTerms ELSE t) /\ ctl' = c /\ reps' = r /\ ord' = o
         /\ UNCHANGED <<prog, hs, st>>
Kinds == IF Tiny THEN <<"h">> ELSE <<"h", "h", "rot", "fixed", "cx", "cx", "cp">>
Q == 0..(n + ctl - 1)
Prep == /\ phase = "prep" /\ Len(prog) < len
        /\ \E kd \in PickW(Kinds) :
             IF kd \in {"cx", "cp"} /\ Cardinality(Q) < 2 THEN UNCHANGED vars
             ELSE \E o \in PickOp(kd, Q, FALSE) : prog' = Append(prog, o) /\ st' = ApplyOp(st, o) /\ UNCHANGED <<n, len, hs, nt, ctl, reps, ord, phase>>
Go == phase = "prep" /\ Len(prog) >= len /\ phase' = "build" /\ UNCHANGED <<n, prog, len, hs, nt, ctl, reps, ord, st>>
Pauli == Profile = "pauli"
AddTerm == /\ phase = "build" /\ Len(hs) < nt
           /\ \E fs \in PickFs(IF Tiny THEN {"X", "Z", "A"} ELSE Facs(Pauli), n), a \in Pick(IF Profile = "pyth" /\ Len(hs) = 0 /\ reps * ord <= 2 THEN AngP ELSE AngC), im \in Pick(IF MaxTerms = 1 THEN {0, 1} ELSE {0}) :
                LET i == IF Ladder(fs) THEN im ELSE 0 IN
                IF \E h \in 1..Len(hs) : SameGen(hs[h].fs, fs) THEN UNCHANGED vars
                ELSE IF Profile = "commuting" /\ \E h \in 1..Len(hs) : ~ GensCommute(hs[h].fs, hs[h].im, fs, i, n) THEN UNCHANGED vars
                ELSE hs' = Append(hs, [fs |-> fs, a |-> a, im |-> i]) /\ UNCHANGED <<n, prog, len, nt, ctl, reps, ord, st, phase>>
(* a run of term evolutions in the order s (a sequence of term numbers) *)
RECURSIVE Seqq(_, _)
Seqq(s, x) == IF x = <<>> THEN s ELSE Seqq(Evolve(s, hs[Head(x)].fs, hs[Head(x)].im, hs[Head(x)].a), Tail(x))
RECURSIVE Rep(_, _, _)
Rep(s, x, k) == IF k = 0 THEN s ELSE Rep(Seqq(s, x), x, k - 1)
Word(p) == IF ord = 1 THEN p ELSE p \o Reverse(p)
Comm == \A i, j \in 1..Len(hs) : i < j => GensCommute(hs[i].fs, hs[i].im, hs[j].fs, hs[j].im, n)
Orders == IF Comm THEN {[i \in 1..Len(hs) |-> i]} ELSE SetToSeqs(1..Len(hs))
(* controlled: the idle half keeps its amplitudes *)
Blw(v, k, m) == [x \in DOMAIN v |-> Blow(v[x], k, m)]
Done(p) == IF ctl = 0 THEN Rep(st, Word(p), reps)
           ELSE LET on == Rep([st EXCEPT !.v = Part(st.v, n, 1)], Word(p), reps) off == [st EXCEPT !.v = Part(st.v, n, 0)]
                    k == IF on.k > off.k THEN on.k ELSE off.k m == IF on.m > off.m THEN on.m ELSE off.m
                IN Tidy(k, m, VAdd(Blw(on.v, k - on.k, m - on.m), Blw(off.v, k - off.k, m - off.m)))
Emit == /\ phase = "build" /\ Len(hs) >= nt /\ phase' = "done" /\ UNCHANGED <<n, prog, len, hs, nt, ctl, reps, ord, st>>
        /\ LET c == Comm R == {Done(p) : p \in Orders} IN
           CSVWrite("%1$s", <<ToJson([n |-> n, prog |-> prog, hs |-> hs, ctl |-> ctl, reps |-> reps, ord |-> ord, comm |-> c,
                                      outs |-> {[k |-> r.k, m |-> r.m, v |-> AmpSet(r)] : r \in R}])>>, OutFile)
Next == Start \/ Prep \/ Go \/ AddTerm \/ Emit
Spec == Init /\ [][Next]_vars
(* evolutions are unitary, and undone by the opposite angle *)
EvolveUnitary == phase = "build" => \A i \in 1..Len(hs) : UnitNorm(Evolve(st, hs[i].fs, hs[i].im, hs[i].a))
EvolveInverse == phase = "build" => \A i \in 1..Len(hs) : EqState(Evolve(Evolve(st, hs[i].fs, hs[i].im, hs[i].a), hs[i].fs, hs[i].im, NegA(hs[i].a)), st)
=============================================================================
