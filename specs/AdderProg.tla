------------------------------ MODULE AdderProg ------------------------------
(***************************************************************************)
(* Histories of in-place additions by the different adders over unsigned   *)
(* registers in superposition.  Meaning of one addition on a branch:       *)
(*   s = target + addend + carry-in   (addend reduced to the target size)  *)
(*   target := s mod 2^n, carry-out := s div 2^n (a fresh qubit)           *)
(* an inverted addition subtracts, a controlled one acts where the control *)
(* bit has the control value.  Values are unscaled integers here.          *)
(***************************************************************************)
EXTENDS Val

CONSTANTS MaxSz, MinLen, MaxLen, MaxH, Budget, Profile, OutFile
VARIABLES fm, init, toks, br, len, bud, phase
vars == <<fm, init, toks, br, len, bud, phase>>

Tiny == Profile = "tiny"
Traced == Profile \in {"traced", "vent"}
F(s) == Fmt(s, -Scale, FALSE)
Init == fm = <<>> /\ init = 0 /\ toks = <<>> /\ br = <<>> /\ len = 0 /\ bud = 0 /\ phase = "start"
Start == /\ phase = "start"
         /\ \E n \in Pick(IF Tiny THEN {2} ELSE IF Profile = "vent" THEN {2, 3} ELSE {2, 3, 3}), l \in Pick(MinLen..MaxLen) :
            \E ss \in PickSeq(1..MaxSz, n) :
            LET fs == [i \in 1..n |-> F(IF Profile = "vent" /\ i = 1 THEN ss[i] + 4 ELSE IF i = 3 THEN MinI(ss[i], 2) ELSE ss[i])] T == Total(fs) IN
            \E h \in Pick((IF Tiny THEN 1 ELSE 0)..MinI(T, MaxH)) : \E base \in (IF Tiny THEN {[j \in 1..T |-> 1]} ELSE PickBits(T)), sup \in PickTuple(1..T, h) :
              \E ph \in (IF Tiny THEN {[i \in 1..h |-> 1]} ELSE PickSeq(0..7, h)) :
              /\ fm' = fs /\ len' = l
              /\ init' = [fs |-> fs, base |-> base, sup |-> sup, ph |-> ph]
              /\ br' = Branches(fs, base, sup, ph)
              /\ bud' = Budget - T
         /\ toks' = <<>> /\ phase' = "build"

V == 1..Len(fm)
Keep == UNCHANGED <<init, len, phase>>
Meths == IF Tiny THEN <<"any">> ELSE IF Profile = "vent" THEN <<"venting">>
         ELSE IF Traced THEN <<"cuccaro", "gidney", "jasp_fourier", "remaud">>
         ELSE <<"fourier", "cuccaro", "cuccaro", "gidney", "gidney", "qcla", "qcla", "qcla", "remaud", "inpl_add", "increment">>
(* which operand kinds and carries a method offers *)
Classical(m) == m \in {"fourier", "cuccaro", "gidney", "qcla", "jasp_fourier", "increment", "venting", "any"}
Quantum(m) == m \notin {"increment", "venting"}
CarryIn(m) == m \in {"cuccaro", "gidney", "venting", "any"}
CarryOut(m) == m \in {"cuccaro", "gidney", "venting", "remaud", "any"}
NoSmaller(m) == m \in {"fourier", "qcla", "jasp_fourier", "inpl_add"}   \* target at least as large as the addend
ctxs(m, C) == IF m \in {"inpl_add", "increment"} /\ C = {} THEN <<"none", "none", "inv">>
              ELSE IF m = "venting" THEN (IF C = {} THEN <<"none">> ELSE <<"none", "ctl">>)
              ELSE IF C = {} THEN <<"none", "none", "inv">> ELSE <<"none", "none", "inv", "ctl", "ctl", "ictl">>
PickEnv(m, C) == UNION {IF k \in {"ctl", "ictl"} THEN UNION {{[k |-> k, q |-> q, j |-> j, b |-> b] : j \in Pick(0..(fm[q].sz - 1)), b \in Pick({0, 1})} : q \in Pick(C)}
                        ELSE {[k |-> k, q |-> 0, j |-> 0, b |-> 0]} : k \in PickW(ctxs(m, C))}
On(e, v) == e.k \notin {"ctl", "ictl"} \/ Bt(v[e.q], e.j) = e.b
Inv(e) == e.k \in {"inv", "ictl"}
(* carry-in: a qubit of a register that takes no other part *)
PickCin(m, C) == IF ~ CarryIn(m) \/ C = {} THEN {[q |-> 0, j |-> 0]}
                 ELSE UNION {IF y THEN UNION {{[q |-> q, j |-> j] : j \in Pick(0..(fm[q].sz - 1))} : q \in Pick(C)} ELSE {[q |-> 0, j |-> 0]} : y \in Pick({TRUE, FALSE})}
Cin(i, v) == IF i.q = 0 THEN 0 ELSE Bt(v[i.q], i.j)

Add == \E m \in PickW(Meths) : \E cl \in Pick({x \in BOOLEAN : IF x THEN Classical(m) ELSE Quantum(m)}) :
  LET T == {b \in V : m = "remaud" => fm[b].sz >= (IF Traced THEN 4 ELSE 2)}
      prs == IF cl THEN {<<0, b>> : b \in (IF m = "venting" THEN {1} ELSE T)}
             ELSE {<<a, b>> \in V \X T : a # b /\ (NoSmaller(m) => fm[a].sz <= fm[b].sz) /\ (m = "remaud" => fm[a].sz = fm[b].sz)}
  IN IF prs = {} THEN UNCHANGED vars ELSE
  \E p \in Pick(prs) : \E e \in PickEnv(m, V \ {p[1], p[2]}) : \E ci \in PickCin(m, V \ {p[1], p[2], e.q}) :
  \E co \in Pick(IF m = "remaud" THEN {TRUE} ELSE IF CarryOut(m) /\ bud > 0 /\ ~ Inv(e) THEN {TRUE, FALSE} ELSE {FALSE}),
     k \in Pick(0..(P2(fm[p[2]].sz) - 1)), w \in Pick({0, 0, 1}), rb \in Pick(2..3), re \in Pick(0..2), td \in Pick(BOOLEAN) :
  LET a == p[1] b == p[2] N == P2(fm[b].sz)
      (* constants may exceed the register; the sum is modular.  An increment is given by its signed amount *)
      c == IF m = "increment" THEN MaxI(k, 1) * (IF td THEN 1 ELSE -1)
           ELSE IF m \in {"fourier", "gidney", "jasp_fourier"} /\ w = 1 /\ ~ co THEN k + N ELSE k
      ad(v) == IF cl THEN c % N ELSE v[a] % N
      s(v) == v[b] + (IF Inv(e) THEN -1 ELSE 1) * (ad(v) + Cin(ci, v))
      ok == m = "remaud" => (~ Inv(e) /\ bud > 0)
  IN IF ~ ok THEN UNCHANGED vars ELSE
  /\ toks' = Append(toks, [m |-> m, a |-> a, c |-> c, b |-> b, cin |-> ci, cout |-> co, e |-> e, rb |-> rb, re |-> re, td |-> td])
  /\ Keep /\ bud' = IF co THEN bud - 1 ELSE bud
  /\ fm' = IF co THEN Append(fm, F(1)) ELSE fm
  /\ LET b1 == IF co THEN NewVar(br, LAMBDA v : IF On(e, v) THEN s(v) \div N ELSE 0) ELSE br
     IN br' = [x \in DOMAIN br |-> [b1[x] EXCEPT !.v = [@ EXCEPT ![b] = IF On(e, br[x].v) THEN s(br[x].v) % N ELSE @]]]

Full == Len(toks) >= len
Step == phase = "build" /\ ~ Full /\ Add
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<fm, init, toks, br, len, bud>>
        /\ CSVWrite("%1$s", <<ToJson([init |-> init, prof |-> Profile, toks |-> toks, br |-> br])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

Rev == phase = "build" => Distinct(br)
InRange == phase = "build" => AllBr(br, LAMBDA v : \A i \in V : v[i] \in 0..(P2(fm[i].sz) - 1))
=============================================================================
