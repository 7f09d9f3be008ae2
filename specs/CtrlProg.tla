------------------------------ MODULE CtrlProg ------------------------------
(***************************************************************************)
(* Programs of multi-controlled gates.  Every gate names the synthesis     *)
(* method to be used; the specification does not look at the method: a     *)
(* multi-controlled X flips its target exactly on the basis states that    *)
(* match the control state, a multi-controlled phase multiplies exactly    *)
(* the matching basis states.  Phase tolerant methods come in pairs around *)
(* gates that keep the values of all qubits involved; logical ANDs have a  *)
(* fresh target.  Gates may stand in an inverting or controlling context.  *)
(*   qubits 0..n-1 data, n the fresh target of logical ANDs                *)
(***************************************************************************)
EXTENDS OpGen, SequencesExt, FiniteSetsExt, CSV, Json

CONSTANTS MinN, MaxN, MinLen, MaxLen, MaxPyth, Profile, OutFile

VARIABLES n, len, toks, st, pyth, phase
vars == <<n, len, toks, st, pyth, phase>>

Tiny == Profile = "tiny"
Ext(x) == SetToSeq({<<y>> \o x.v[y] : y \in DOMAIN x.v})
Rec(x) == [k |-> x.k, m |-> x.m, v |-> Ext(x)]
Q == 0..(n-1)
Min2(a, b) == IF a < b THEN a ELSE b

Prep(k, q) == CASE k = 1 -> <<Gate("h", q)>>
                [] k = 2 -> <<Gate("h", q), Gate("t", q), Gate("h", q)>>
                [] k = 3 -> <<Gate("x", q)>>
                [] k = 4 -> <<Gate("h", q), Gate("t", q)>>
                [] k = 5 -> <<>>
RECURSIVE Preps(_, _)
Preps(q, w) == IF q < 0 THEN {<<>>}
               ELSE {p \o Prep(k, q) : p \in Preps(q - 1, w), k \in PickW(IF Tiny THEN <<2>> ELSE IF q > w THEN <<3, 5, 1>> ELSE <<1, 2, 2, 4, 4>>)}

Init == n = 0 /\ len = 0 /\ toks = <<>> /\ st = ZeroState /\ pyth = 0 /\ phase = "start"
Start == /\ phase = "start"
         /\ \E a \in Pick(MinN..MaxN), l \in Pick(MinLen..MaxLen) : \E p \in Preps(a - 1, 4) :
              /\ n' = a /\ len' = l /\ toks' = <<[t |-> "prep", ops |-> p]>> /\ st' = Run(ZeroState, p)
         /\ pyth' = 0 /\ phase' = "build"

(* the same operation under an extra control, or inverted *)
Ctx(o, e) == IF e.k = "ctl" THEN [o EXCEPT !.c = <<e.q>> \o @, !.s = <<e.b>> \o @] ELSE o
InvAng(a) == <<-a[1], -a[2]>>
PickEnv(C) == \* C: qubits not involved
  LET kinds == IF Tiny THEN <<"none">> ELSE IF C = {} THEN <<"none", "none", "inv">> ELSE <<"none", "none", "none", "inv", "ctl", "ctl">>
  IN UNION {IF k = "ctl" THEN {[k |-> k, q |-> q, b |-> b] : q \in Pick(C), b \in Pick({0, 1})} ELSE {[k |-> k, q |-> 0, b |-> 0]} : k \in PickW(kinds)}

XMeth(m) == IF Tiny THEN <<"auto">> ELSE <<"auto", "auto", "gray", "balauca", "balauca", "khattar", "khattar", "yong", "hybrid", "hybrid", "balauca_dirty">>
            \o (IF m = 2 THEN <<"amy", "jones", "jones">> ELSE <<>>) \o (IF m \in 2..4 THEN <<"maslov">> ELSE <<>>)
ZMeth(m) == IF Tiny THEN <<"auto">> ELSE <<"auto", "gray", "balauca", "khattar", "yong", "hybrid">> \o (IF m \in 3..5 THEN <<"maslov">> ELSE <<>>)
PMeth(m) == <<"auto", "gray", "balauca", "khattar">>

Size(lo) == IF Sampling THEN PickW([i \in 1..9 |-> lo + ((i - 1) % (Min2(n, 8) - lo + 1))]) ELSE lo..Min2(n, 3)

DoX == \E m \in Size(2) : \E t \in PickTuple(Q, m), s \in PickBits(m - 1), me \in PickW(XMeth(m - 1)), anc \in Pick(1..(IF Tiny THEN 1 ELSE 3)) :
          \E e \in PickEnv(Q \ ToSet(t)) :
       LET o == Op("x", <<>>, <<t[m]>>, SubSeq(t, 1, m - 1), s) IN
       /\ toks' = Append(toks, [t |-> "mcx", c |-> SubSeq(t, 1, m - 1), q |-> t[m], s |-> s, method |-> me, anc |-> anc, e |-> e])
       /\ st' = ApplyOp(st, Ctx(o, e)) /\ UNCHANGED <<n, len, pyth, phase>>

(* phase a on exactly the states matching s on the qubits c *)
Ph(a, c, s) == Op("gphase", <<a>>, <<n>>, c, s)
DoZ == \E m \in Size(1) : \E t \in PickTuple(Q, m), s \in PickBits(m), me \in PickW(ZMeth(m)), anc \in Pick(1..(IF Tiny THEN 1 ELSE 3)) : \E e \in PickEnv(Q \ ToSet(t)) :
       /\ toks' = Append(toks, [t |-> "mcz", c |-> t, s |-> s, method |-> IF m = 1 THEN "auto" ELSE me, anc |-> anc, e |-> e])
       /\ st' = ApplyOp(st, Ctx(Ph(<<4, 0>>, t, s), e)) /\ UNCHANGED <<n, len, pyth, phase>>
DoP == \E m \in Size(1) : \E t \in PickTuple(Q, m), s \in PickBits(m), me \in PickW(PMeth(m)), a \in Pick(Ang(pyth < MaxPyth)) : \E e \in PickEnv(Q \ ToSet(t)) :
       LET o == Ph(IF e.k = "inv" THEN InvAng(a) ELSE a, t, s) IN
       /\ toks' = Append(toks, [t |-> "mcp", c |-> t, s |-> s, method |-> IF m = 1 THEN "gray" ELSE me, a |-> a, e |-> e])
       /\ st' = ApplyOp(st, Ctx(o, e)) /\ pyth' = pyth + PythCount(<<o>>) /\ UNCHANGED <<n, len, phase>>

(* a phase tolerant pair around gates that keep all values: phases on any   *)
(* qubit, and something controlled by the target on an uninvolved qubit     *)
DoPair == IF n < 3 THEN UNCHANGED vars ELSE
       \E m \in Pick(3..Min2(n, IF Profile = "traced" THEN 4 ELSE 6)) : \E t \in PickTuple(Q, m), s \in PickBits(m - 1), d \in PickOp("phase", Q, FALSE), f \in Pick({0, 1}),
          g \in PickW(<<"x", "h", "z">>) : \E u \in Pick(IF Q \ ToSet(t) = {} THEN {n} ELSE Q \ ToSet(t)) :
       LET o == Op("x", <<>>, <<t[m]>>, SubSeq(t, 1, m - 1), s)
           w == CGate(g, t[m], u)
           mid == <<d>> \o IF u = n THEN <<>> ELSE <<w>>
       IN /\ toks' = Append(toks, [t |-> "pair", c |-> o.c, q |-> t[m], s |-> s, inv |-> f, mid |-> mid])
          /\ st' = Run(st, <<o>> \o mid \o <<o>>) /\ UNCHANGED <<n, len, pyth, phase>>
(* logical AND into the fresh qubit, used, undone *)
DoAnd == \E t \in PickTuple(Q, 2), s \in PickBits(2), d \in (IF Tiny THEN {Gate("t", 0)} ELSE PickOp("phase", Q, FALSE)),
            g \in PickW(IF Tiny THEN <<"h">> ELSE <<"x", "h", "z", "ry">>), a \in (IF Tiny THEN {<<1, 0>>} ELSE Pick(Ang(FALSE))) :
            \E u \in Pick(IF Q \ ToSet(t) = {} THEN {n} ELSE Q \ ToSet(t)) :
       LET o == Op("x", <<>>, <<n>>, t, s)
           mid == <<d>> \o IF u = n THEN <<>> ELSE <<Op(g, IF g = "ry" THEN <<a>> ELSE <<>>, <<u>>, <<n>>, <<1>>)>>
       IN /\ toks' = Append(toks, [t |-> "and", c |-> t, s |-> s, mid |-> mid])
          /\ st' = Run(st, <<o>> \o mid \o <<o>>) /\ UNCHANGED <<n, len, pyth, phase>>
DoGate == \E k \in PickW(<<"h", "rot", "cx", "fixed", "cp">>) : \E o \in PickOp(k, Q, pyth < MaxPyth) :
       /\ toks' = Append(toks, [t |-> "gate", op |-> o]) /\ st' = ApplyOp(st, o) /\ pyth' = pyth + PythCount(<<o>>) /\ UNCHANGED <<n, len, phase>>

Step == /\ phase = "build" /\ Len(toks) < len
        /\ \E k \in PickW(IF Tiny THEN <<"x", "z", "and">> ELSE IF Profile = "traced" THEN <<"x", "x", "x", "z", "p", "gate", "pair", "and">>
                          ELSE <<"x", "x", "x", "x", "z", "z", "p", "p", "pair", "pair", "and", "and", "gate">>) :
           CASE k = "x" -> DoX [] k = "z" -> DoZ [] k = "p" -> DoP [] k = "pair" -> DoPair [] k = "and" -> DoAnd [] k = "gate" -> DoGate
Emit == /\ phase = "build" /\ Len(toks) >= len /\ phase' = "done" /\ UNCHANGED <<n, len, toks, st, pyth>>
        /\ CSVWrite("%1$s", <<ToJson([n |-> n, prof |-> Profile, toks |-> toks, fin |-> Rec(st)])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

Norms == phase = "build" => UnitNorm(st)
(* the fresh qubit is never left dirty *)
Fresh == phase = "build" => \A x \in DOMAIN st.v : Bit(x, n) = 0
(* phase on the all-matching state = Z on the last qubit conjugated by X where its bit is 0 *)
Laws == phase = "build" /\ n >= 2 => \A b \in {0, 1} :
   LET fl == IF b = 0 THEN <<Gate("x", 1)>> ELSE <<>>
   IN EqState(ApplyOp(st, Ph(<<4, 0>>, <<0, 1>>, <<0, b>>)), Run(st, fl \o <<Op("z", <<>>, <<1>>, <<0>>, <<0>>)>> \o fl))
=============================================================================
