------------------------------ MODULE SessProg ------------------------------
(***************************************************************************)
(* Life of quantum variables: creation (in a new or an existing session),  *)
(* gates that entangle variables of different sessions, duplication,       *)
(* growing and shrinking, temporaries that are computed, used, uncomputed  *)
(* and deleted.  The specification knows one global register; every qubit  *)
(* ever allocated has its own number, and a deleted one stays in |0>.      *)
(* Whatever the compiler does with reuse, ancillas, reordering, the joint  *)
(* state of the live variables is `st`.                                    *)
(***************************************************************************)
EXTENDS OpGen, SequencesExt, FiniteSetsExt, CSV, Json

CONSTANTS MinLen, MaxLen, MaxQ, MaxLive, MaxPyth, Profile, OutFile

VARIABLES len, toks, vs, nq, st, pyth, recs, phase
vars == <<len, toks, vs, nq, st, pyth, recs, phase>>

Tiny == Profile = "tiny"
Ext(x) == SetToSeq({<<y>> \o x.v[y] : y \in DOMAIN x.v})
Rec(x) == [k |-> x.k, m |-> x.m, v |-> Ext(x)]

LiveV == {i \in 1..Len(vs) : vs[i].live}
QOf(i) == ToSet(vs[i].q)
LiveQ == UNION {QOf(i) : i \in LiveV}
Zero(s, Q) == \A x \in DOMAIN s.v, q \in Q : Bit(x, q) = 0
Ids(a, k) == [i \in 1..k |-> a + i - 1]
Min2(a, b) == IF a < b THEN a ELSE b

Init == len = 0 /\ toks = <<>> /\ vs = <<>> /\ nq = 0 /\ st = ZeroState /\ pyth = 0 /\ recs = <<>> /\ phase = "start"
Start == /\ phase = "start"
         /\ \E l \in Pick(MinLen..MaxLen) : len' = l
         /\ phase' = "build" /\ UNCHANGED <<toks, vs, nq, st, pyth, recs>>

Put(ts) == toks' = toks \o ts
KeepL == UNCHANGED <<len, phase>>
Keep == KeepL /\ UNCHANGED recs
GTok(o) == [t |-> "gate", op |-> o]

DoNew == IF Cardinality(LiveQ) >= MaxLive \/ nq >= MaxQ - 3 THEN UNCHANGED vars
  ELSE \E k \in Pick(1..(IF Tiny THEN 1 ELSE 3)), own \in PickW(<<0, 0, 1>>) :
       \E w \in Pick(IF own = 1 /\ LiveV # {} THEN LiveV ELSE {0}) :
         /\ vs' = Append(vs, [q |-> Ids(nq, k), live |-> TRUE]) /\ nq' = nq + k
         /\ Put(<<[t |-> "new", size |-> k, qs |-> w]>>)
         /\ UNCHANGED <<st, pyth>> /\ Keep

GateKinds == IF Tiny THEN <<"h", "cx">>
             ELSE <<"h", "h", "x", "rot", "fixed", "cx", "cx", "c1", "cp", "swap", "mcx", "mcx", "mcx", "mcz", "mcp", "ctrl", "rzz", "barrier">>
Big == {"cx", "c1", "cp", "swap", "rzz", "mcz", "mcp", "ctrl"}
DoGate == IF LiveQ = {} THEN UNCHANGED vars
  ELSE \E kd \in PickW(GateKinds) :
       LET k == IF kd = "mcx" /\ Cardinality(LiveQ) < 3 THEN (IF Cardinality(LiveQ) < 2 THEN "h" ELSE "cx")
                ELSE IF kd \in Big /\ Cardinality(LiveQ) < 2 THEN "h" ELSE kd
       IN \E o \in PickOp(k, LiveQ, pyth < MaxPyth) :
          /\ Put(<<GTok(o)>>) /\ st' = ApplyOp(st, o) /\ pyth' = pyth + PythCount(<<o>>)
          /\ UNCHANGED <<vs, nq>> /\ Keep

(* x with many controls: the compiler chooses an implementation that uses  *)
(* whatever clean or dirty qubits are around                               *)
DoWide == LET c == Cardinality(LiveQ) IN IF c < 5 THEN UNCHANGED vars
  ELSE \E m \in Pick(5..Min2(c, 9)) : \E t \in PickTuple(LiveQ, m) : \E s \in PickBits(m - 1) :
       LET o == Op("x", <<>>, <<t[m]>>, SubSeq(t, 1, m - 1), s) IN
          /\ Put(<<[t |-> "wide", op |-> o]>>) /\ st' = ApplyOp(st, o) /\ UNCHANGED <<vs, nq, pyth>> /\ Keep

(* quantum Fourier transform on the qubits q (q[1] least significant)      *)
RECURSIVE QftRow(_, _, _)
QftRow(q, i, k) == IF k = 0 THEN <<>>
  ELSE <<Op("p", <<<<IF i - k = 1 THEN 2 ELSE 1, 0>>>>, <<q[i]>>, <<q[k]>>, <<1>>)>> \o QftRow(q, i, k - 1)
RECURSIVE QftRows(_, _)
QftRows(q, i) == IF i = 0 THEN <<>> ELSE <<Gate("h", q[i])>> \o QftRow(q, i, i - 1) \o QftRows(q, i - 1)
Qft(q, sw) == QftRows(q, Len(q)) \o (IF sw = 1 /\ Len(q) > 1 THEN <<Op("swap", <<>>, <<q[1], q[Len(q)]>>, <<>>, <<>>)>> ELSE <<>>)
(* on a whole variable, or on any qubits in any order; possibly undone at   *)
(* once on the same or on permuted qubits                                  *)
QftArgs == {[v |-> i, q |-> vs[i].q] : i \in {j \in LiveV : Len(vs[j].q) <= 3}}
DoQft == LET c == Cardinality(LiveQ) IN IF LiveV = {} THEN UNCHANGED vars
  ELSE \E m \in Pick(1..Min2(c, 3)) : \E f \in PickTuple(LiveQ, m), whole \in Pick({0, 1}), inv \in Pick({0, 1}), sw \in Pick({0, 1}), undo \in PickW(<<0, 0, 1>>), sh \in Pick({0, 1}) :
       \E a \in Pick(IF whole = 1 /\ QftArgs # {} THEN QftArgs ELSE {[v |-> 0, q |-> f]}) :
       LET one(q, i) == IF i = 1 THEN InvSeq(Qft(q, sw)) ELSE Qft(q, sw)
           q2 == IF sh = 1 THEN Reverse(a.q) ELSE a.q
           tk(v, q, i) == [t |-> "qft", v |-> v, q |-> q, inv |-> i, sw |-> sw]
           ops == one(a.q, inv) \o IF undo = 1 THEN one(q2, 1 - inv) ELSE <<>>
       IN /\ Put(<<tk(a.v, a.q, inv)>> \o IF undo = 1 THEN <<tk(IF sh = 1 THEN 0 ELSE a.v, q2, 1 - inv)>> ELSE <<>>)
          /\ st' = Run(st, ops) /\ UNCHANGED <<vs, nq, pyth>> /\ Keep

(* a measurement in the middle of the program: its outcome is a record that *)
(* nothing touches afterwards                                              *)
DoMeas == IF LiveQ = {} \/ nq >= MaxQ \/ Len(recs) >= 3 THEN UNCHANGED vars
  ELSE \E q \in Pick(LiveQ) :
       /\ Put(<<[t |-> "meas", q |-> q, rec |-> nq]>>) /\ st' = ApplyOp(st, CGate("x", q, nq))
       /\ recs' = Append(recs, nq) /\ nq' = nq + 1 /\ UNCHANGED <<vs, pyth>> /\ KeepL

DoDup == IF LiveV = {} THEN UNCHANGED vars
  ELSE \E i \in Pick(LiveV), ini \in Pick({0, 1}) :
       LET k == Len(vs[i].q) IN
       IF nq + k > MaxQ \/ Cardinality(LiveQ) + k > MaxLive THEN UNCHANGED vars
       ELSE /\ vs' = Append(vs, [q |-> Ids(nq, k), live |-> TRUE]) /\ nq' = nq + k
            /\ st' = IF ini = 1 THEN Run(st, [j \in 1..k |-> CGate("x", vs[i].q[j], nq + j - 1)]) ELSE st
            /\ Put(<<[t |-> "dup", v |-> i, init |-> ini]>>) /\ UNCHANGED pyth /\ Keep

DoGrow == IF LiveV = {} \/ nq >= MaxQ \/ Cardinality(LiveQ) >= MaxLive THEN UNCHANGED vars
  ELSE \E i \in Pick(LiveV) : \E p \in Pick(0..Len(vs[i].q)) :
       /\ vs' = [vs EXCEPT ![i].q = SubSeq(@, 1, p) \o <<nq>> \o SubSeq(@, p + 1, Len(@))] /\ nq' = nq + 1
       /\ Put(<<[t |-> "grow", v |-> i, pos |-> p]>>) /\ UNCHANGED <<st, pyth>> /\ Keep

DoShrink == LET C == {<<i, p>> \in UNION {{i} \X (1..Len(vs[i].q)) : i \in LiveV} : Len(vs[i].q) > 1 /\ Zero(st, {vs[i].q[p]})}
  IN IF C = {} THEN UNCHANGED vars
     ELSE \E c \in Pick(C), vf \in PickW(<<0, 0, 1>>) :
          /\ vs' = [vs EXCEPT ![c[1]].q = SubSeq(@, 1, c[2] - 1) \o SubSeq(@, c[2] + 1, Len(@))]
          /\ Put(<<[t |-> "shrink", v |-> c[1], pos |-> c[2] - 1, verify |-> vf]>>) /\ UNCHANGED <<nq, st, pyth>> /\ Keep

DoDelete == LET C == {i \in LiveV : Zero(st, QOf(i))} IN
  IF C = {} \/ Cardinality(LiveV) = 1 THEN UNCHANGED vars
  ELSE \E i \in Pick(C), vf \in PickW(<<0, 0, 1>>) :
       /\ vs' = [vs EXCEPT ![i].live = FALSE] /\ Put(<<[t |-> "del", v |-> i, verify |-> vf]>>)
       /\ UNCHANGED <<nq, st, pyth>> /\ Keep

(* a temporary: compute, use, uncompute; deleted if that left it in |0>    *)
XOps(t, C, m) == UNION {{Op("x", <<>>, <<t>>, c, s) : s \in PickBits(m)} : c \in PickTuple(C, m)}
DoTemp == LET n == Cardinality(LiveQ) IN IF n < 2 \/ n >= MaxLive \/ nq >= MaxQ THEN UNCHANGED vars
  ELSE \E m1 \in Pick(1..Min2(n, IF Tiny THEN 1 ELSE 4)), m2 \in Pick(1..Min2(n, IF Tiny THEN 1 ELSE 3)) :
       \E a \in XOps(nq, LiveQ, m1), b \in XOps(nq, LiveQ, m2), two \in Pick({0, 1}),
          g \in PickW(IF Tiny THEN <<"x">> ELSE <<"x", "z", "p", "ry", "h">>), q \in Pick(LiveQ), ag \in Pick(Ang(pyth < MaxPyth)),
          del \in PickW(IF Tiny THEN <<1>> ELSE <<1, 1, 1, 0>>), vf \in PickW(<<0, 0, 0, 1>>), meth \in PickW(<<"plain", "plain", "and">>) :
       LET u == Op(g, IF g \in {"p", "ry"} THEN <<ag>> ELSE <<>>, <<q>>, <<nq>>, <<1>>)
           lg == meth = "and" /\ m1 = 2 /\ two = 0 /\ a.s = <<1, 1>>
           C == IF two = 1 THEN <<a, b>> ELSE <<a>>
           ops == C \o <<u>> \o InvSeq(C)
           s2 == Run(st, ops)
           ok == Zero(s2, {nq})
           w == Len(vs) + 1
           d == ok /\ del = 1
       IN /\ IF lg /\ ok        \* logical AND: the target has to be |0> when it is computed and the value unchanged when undone
             THEN Put(<<[t |-> "new", size |-> 1, qs |-> 0], [t |-> "and", op |-> a], GTok(u), [t |-> "undo", op |-> a]>>
                      \o IF d THEN <<[t |-> "del", v |-> w, verify |-> 0]>> ELSE <<>>)
             ELSE Put(<<[t |-> "new", size |-> 1, qs |-> 0]>> \o [i \in 1..Len(ops) |-> GTok(ops[i])]
                      \o IF d THEN <<[t |-> "del", v |-> w, verify |-> vf]>> ELSE <<>>)
          /\ vs' = Append(vs, [q |-> <<nq>>, live |-> ~d]) /\ nq' = nq + 1
          /\ st' = s2 /\ pyth' = pyth + PythCount(<<u>>) /\ Keep

StepKinds == IF Tiny THEN <<"new", "gate", "temp", "del", "dup">>
             ELSE IF Profile = "wide" THEN <<"new", "new", "gate", "gate", "wide", "wide", "temp", "temp", "del", "grow">>
             ELSE IF Profile = "meas" THEN <<"new", "gate", "gate", "gate", "temp", "temp", "temp", "meas", "meas", "wide", "qft", "dup", "del">>
             ELSE <<"new", "gate", "gate", "gate", "gate", "temp", "temp", "wide", "qft", "qft", "dup", "grow", "shrink", "del">>
Step == /\ phase = "build" /\ Len(toks) < len
        /\ \E k \in PickW(IF Len(vs) = 0 THEN <<"new">> ELSE IF Len(vs) = 1 /\ Len(toks) < 3 /\ ~Tiny THEN <<"new", "gate">> ELSE StepKinds) :
           CASE k = "new" -> DoNew [] k = "gate" -> DoGate [] k = "temp" -> DoTemp [] k = "wide" -> DoWide [] k = "qft" -> DoQft
             [] k = "dup" -> DoDup [] k = "grow" -> DoGrow [] k = "shrink" -> DoShrink [] k = "del" -> DoDelete [] k = "meas" -> DoMeas
Emit == /\ phase = "build" /\ Len(toks) >= len /\ phase' = "done" /\ UNCHANGED <<len, toks, vs, nq, st, pyth, recs>>
        /\ CSVWrite("%1$s", <<ToJson([toks |-> toks, vs |-> vs, nq |-> nq, recs |-> recs, fin |-> Rec(st)])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

Norms == phase = "build" => UnitNorm(st)
(* qubits that belong to nobody are in |0>, and no qubit has two owners     *)
Fresh == Zero(st, (0..(nq - 1)) \ (LiveQ \cup ToSet(recs)))
Owners == \A i, j \in LiveV : i # j => QOf(i) \cap QOf(j) = {}
=============================================================================
