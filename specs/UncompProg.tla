------------------------------ MODULE UncompProg ------------------------------
(***************************************************************************)
(* Programs that compute temporaries, use them and uncompute them.         *)
(*                                                                         *)
(* Qubits 0..n-1 stay; the temporaries are qubits n, n+1, ..., in variables*)
(* of the given sizes.  Temporaries are targets of exact permutations only *)
(* (or, rarely, of gates that make uncomputation impossible), so the state *)
(* after a correct uncomputation of the qubits T is                        *)
(*         sum over t of  |0><t|_T  psi                                    *)
(* whenever that keeps the norm, and no uncomputation exists otherwise.    *)
(* `must`: the class of programs in which uncomputation may not be refused:*)
(* all temporaries at once, computed from qubits whose values are kept.    *)
(***************************************************************************)
EXTENDS OpGen, SequencesExt, FiniteSetsExt, CSV, Json

CONSTANTS MinN, MaxN, MaxTemps, MinLen, MaxLen, MaxPyth, Profile, OutFile

VARIABLES n, sizes, len, toks, live, st, used, taint, pyth, ctl, phase
vars == <<n, sizes, len, toks, live, st, used, taint, pyth, ctl, phase>>

Tiny == Profile = "tiny"
Ext(x) == SetToSeq({<<y>> \o x.v[y] : y \in DOMAIN x.v})
Rec(x) == [k |-> x.k, m |-> x.m, v |-> Ext(x)]

Offset(i) == n + FoldLeft(LAMBDA a, j : a + sizes[j], 0, [k \in 1..(i-1) |-> k])
VarQ(i) == Offset(i)..(Offset(i) + sizes[i] - 1)
Temps == UNION {VarQ(i) : i \in live}
Inputs == 0..(n-1)
Free == Inputs \ {ctl}             \* qubit ctl is the control of the surrounding environment (or -1)
Wrap(o) == IF ctl = -1 THEN o ELSE [o EXCEPT !.c = <<ctl>> \o @, !.s = <<1>> \o @]

(* sum of |0><t| over the qubits T *)
Clear(x, T) == x - FoldSet(LAMBDA q, a : a + Bit(x, q) * Pow2[q], 0, T)
Drop(s, T) ==
  LET D == {Clear(x, T) : x \in DOMAIN s.v}
      Sum(y) == FoldSet(LAMBDA x, a : RAdd(a, s.v[x]), RZero, {x \in DOMAIN s.v : Clear(x, T) = y})
  IN Tidy(s.k, s.m, [y \in D |-> Sum(y)])
Keeps(s, T) == LET d == Drop(s, T) IN d.v # <<>> /\ UnitNorm(d)

Init == n = 0 /\ sizes = <<>> /\ len = 0 /\ toks = <<>> /\ live = {} /\ st = ZeroState /\ used = {}
        /\ taint = FALSE /\ pyth = 0 /\ ctl = -1 /\ phase = "start"

Prep(k, q) == CASE k = 1 -> <<Gate("h", q)>>
                [] k = 2 -> <<Gate("h", q), Gate("t", q), Gate("h", q)>>
                [] k = 3 -> <<Gate("x", q)>>
                [] k = 4 -> <<Gate("h", q), Gate("t", q)>>
RECURSIVE Preps(_)
Preps(q) == IF q < 0 THEN {<<>>}
            ELSE {p \o Prep(k, q) : p \in Preps(q - 1), k \in PickW(IF Tiny THEN <<2>> ELSE <<1, 2, 2, 3, 4, 4>>)}

Start == /\ phase = "start"
         /\ \E a \in Pick(MinN..MaxN), l \in Pick(MinLen..MaxLen), t \in Pick(1..MaxTemps),
               z1 \in Pick(IF Tiny THEN {1} ELSE {1, 2}), z2 \in Pick(IF Tiny THEN {1} ELSE {1, 1, 2, 3}), z3 \in Pick({1}),
               e \in PickW(IF Tiny THEN <<-1>> ELSE <<-1, -1, -1, 0>>) :
            \E p \in Preps(a - 1) :
              /\ n' = a /\ len' = l /\ sizes' = SubSeq(<<z1, z2, z3>>, 1, t) /\ live' = 1..t /\ ctl' = IF a > 2 THEN e ELSE -1
              /\ st' = Run(ZeroState, p)
              /\ toks' = <<[t |-> "prep", ops |-> p]>>
         /\ phase' = "build" /\ UNCHANGED <<used, taint, pyth>>

QSet(o) == {o.q[i] : i \in 1..Len(o.q)}
CSet(o) == {o.c[i] : i \in 1..Len(o.c)}
Perms == {"x", "swap"}
Diags == {"z", "s", "t", "s_dg", "t_dg", "p", "rz"}

(* book-keeping of the guaranteed class: a qubit that controlled a          *)
(* computation is not changed any more; ops are applied as one gate         *)
Note(ops) ==
  LET S == ToSet(ops)
      bad(o) == \/ QSet(o) \cap Temps # {} /\ o.g \notin Perms \cup Diags
                \/ QSet(o) \cap Temps # {} /\ QSet(o) \cap Inputs # {} /\ o.g \notin Diags
      tg == UNION {QSet(o) : o \in {p \in S : p.g \notin Diags}}
      ct == UNION {CSet(o) : o \in {p \in S : p.g \in Perms /\ QSet(p) \cap Temps # {}}}
  IN /\ used' = used \cup ct
     /\ taint' = (taint \/ (\E o \in S : bad(o)) \/ tg \cap used # {} \/ Cardinality(tg) > 1 \/ (Len(ops) > 1 /\ tg \cap ct # {}))

Do(ops, tok) ==
  /\ toks' = Append(toks, tok)
  /\ st' = Run(st, [i \in 1..Len(ops) |-> Wrap(ops[i])])
  /\ Note(ops)
  /\ pyth' = pyth + PythCount(ops)
  /\ UNCHANGED <<n, sizes, len, live, ctl, phase>>

(* x on a temporary, controlled by anything *)
ComputeC(m, t) == UNION {{Op("x", <<>>, <<t>>, c, s) : s \in PickBits(m)} : c \in PickTuple((Free \cup Temps) \ {t}, m)}
Min2(a, b) == IF a < b THEN a ELSE b
PickCompute == UNION {UNION {ComputeC(Min2(m, Cardinality(Free \cup Temps) - 1), t) : m \in PickW(IF Tiny THEN <<1, 2>> ELSE <<0, 1, 1, 2, 2, 2, 3, 3, 4>>)} : t \in Pick(Temps)}

DoCompute == IF Temps = {} THEN UNCHANGED vars
             ELSE \E o \in PickCompute : Do(<<o>>, [t |-> "gate", op |-> o])

(* a temporary controls something that stays *)
UseGates == IF Tiny THEN <<"x", "z">> ELSE <<"x", "x", "z", "p", "p", "h", "y", "ry">>
DoUse == IF Temps = {} \/ Free = {} THEN UNCHANGED vars
         ELSE \E t \in Pick(Temps), q \in Pick(Free), g \in PickW(UseGates), a \in Pick(Ang(pyth < MaxPyth)), b \in Pick({0, 1}) :
              LET o == Op(g, IF g \in {"p", "ry"} THEN <<a>> ELSE <<>>, <<q>>, <<t>>, <<b>>)
              IN Do(<<o>>, [t |-> "gate", op |-> o])

DoDiag == LET Q == Free \cup Temps IN
          IF Cardinality(Q) < 2 THEN UNCHANGED vars
          ELSE \E k \in PickW(<<"phase", "cp", "mcz">>) : \E o \in PickOp(k, Q, pyth < MaxPyth) : Do(<<o>>, [t |-> "gate", op |-> o])

DoInput == IF Cardinality(Free) < 2 THEN UNCHANGED vars
           ELSE \E k \in PickW(IF Tiny THEN <<"h">> ELSE IF Profile = "late" THEN <<"swap", "swap", "swap", "rzz", "h", "x", "cx">> ELSE <<"h", "h", "x", "rot", "cx", "mcz", "swap", "barrier">>) :
                \E o \in PickOp(k, Free, pyth < MaxPyth) : Do(<<o>>, [t |-> "gate", op |-> o])

DoBad == IF Temps = {} THEN UNCHANGED vars
         ELSE \E k \in PickW(<<"h", "rot">>) : \E o \in PickOp(k, Temps, FALSE) : Do(<<o>>, [t |-> "gate", op |-> o])

DoSwap == IF Cardinality(Temps) < 2 THEN UNCHANGED vars
          ELSE \E o \in PickOp("swap", Temps, FALSE) : Do(<<o>>, [t |-> "gate", op |-> o])

(* several computations as one wrapped gate *)
DoBlock == IF Temps = {} THEN UNCHANGED vars
           ELSE \E a \in PickCompute, b \in PickCompute, d \in PickCompute, m \in Pick(1..3) :
                Do(SubSeq(<<a, b, d>>, 1, m), [t |-> "block", ops |-> SubSeq(<<a, b, d>>, 1, m)])

DoUncompute ==
  IF live = {} THEN UNCHANGED vars
  ELSE \E S \in (IF Sampling THEN PickW(<<live, live, RandomElement((SUBSET live) \ {{}})>>) ELSE (SUBSET live) \ {{}}),
          r \in PickW(IF Tiny \/ \E i \in 1..Len(toks) : toks[i].t = "uncompute" /\ toks[i].rec = 1   \* at most one recomputable variable
                      THEN <<0>> ELSE <<0, 0, 0, 1>>) :
       LET T == UNION {VarQ(i) : i \in S}
           ok == Keeps(st, T)
           tok == [t |-> "uncompute", vars |-> SetToSeq(S), rec |-> r, ok |-> ok,
                   must |-> ok /\ ~taint /\ S = live /\ r = 0, pre |-> Rec(st), post |-> Rec(IF ok THEN Drop(st, T) ELSE st)]
       IN /\ toks' = Append(toks, tok)
          /\ st' = IF ok THEN Drop(st, T) ELSE st
          /\ live' = live \ S
          /\ taint' = (taint \/ S # live)
          /\ phase' = IF ok THEN phase ELSE "emit"      \* a refused uncomputation ends the program
          /\ UNCHANGED <<n, sizes, len, used, pyth, ctl>>

StepKinds == IF Tiny THEN <<"compute", "use", "input", "uncompute">>
             ELSE IF Profile = "late" THEN <<"compute", "compute", "compute", "input", "input", "input", "use", "uncompute">>
             ELSE <<"compute", "compute", "compute", "compute", "use", "use", "diag", "input", "block", "bad", "swap", "uncompute",
                    "use", "compute">>
Step == /\ phase = "build" /\ Len(toks) < len
        /\ \E k \in PickW(IF Profile = "clean" THEN <<"compute", "compute", "compute", "use", "diag", "block", "uncompute">> ELSE StepKinds) :
             CASE k = "compute" -> DoCompute [] k = "use" -> DoUse [] k = "diag" -> DoDiag [] k = "input" -> DoInput
               [] k = "block" -> DoBlock [] k = "bad" -> DoBad [] k = "swap" -> DoSwap [] k = "uncompute" -> DoUncompute
Wind == /\ phase = "build" /\ Len(toks) >= len /\ live # {} /\ DoUncompute
Emit == /\ phase = "emit" \/ (phase = "build" /\ Len(toks) >= len /\ live = {})
        /\ phase' = "done" /\ UNCHANGED <<n, sizes, len, toks, live, st, used, taint, pyth, ctl>>
        /\ CSVWrite("%1$s", <<ToJson([n |-> n, sizes |-> sizes, ctl |-> ctl, toks |-> toks, fin |-> Rec(st)])>>, OutFile)
Next == Start \/ Step \/ Wind \/ Emit
Spec == Init /\ [][Next]_vars

Norms == phase = "build" => UnitNorm(st)
(* programs of the guaranteed class can indeed be uncomputed *)
Guaranteed == phase = "build" /\ ~taint => Keeps(st, Temps)
(* uncomputing in two steps is uncomputing at once *)
Confluent == phase = "build" => \A i \in live :
   LET a == Drop(Drop(st, VarQ(i)), Temps \ VarQ(i)) IN EqState(a, Drop(st, Temps))
=============================================================================
