------------------------------- MODULE CmpProg -------------------------------
(***************************************************************************)
(* Comparisons and boolean logic on superposed values.                     *)
(*  kinds: num (fixed point number), bit (quantum bool), qv (bit vector)   *)
(* A comparison creates a bool that is true on the branches where the      *)
(* relation between the exact values holds.  A comparison or a boolean     *)
(* expression used as a condition applies its body (bit flips and phases   *)
(* on other variables) exactly on those branches.                          *)
(***************************************************************************)
EXTENDS Val

CONSTANTS MaxSz, MinLen, MaxLen, MaxH, Budget, Profile, OutFile
VARIABLES fm, init, toks, br, len, bud, phase
vars == <<fm, init, toks, br, len, bud, phase>>

Tiny == Profile = "tiny"
Traced == Profile \in {"traced", "tsigned"}
Kd(k, f) == [k |-> k, sz |-> f.sz, e |-> f.e, sg |-> f.sg]
Bit == Kd("bit", Fmt(1, -Scale, FALSE))
Exps == IF Tiny THEN {0, 1} ELSE IF Profile = "traced" THEN {0} ELSE {-2, -1, 0, 0, 0, 1, 2}
Signs == IF Profile = "traced" THEN {FALSE} ELSE BOOLEAN
PickKind(k) == CASE k = "num" -> {Kd(k, Fmt(s + (IF g THEN 1 ELSE 0), e, g)) : s \in Pick(1..MaxSz), e \in Pick(Exps), g \in Pick(Signs)}
                 [] k = "bit" -> {Bit}
                 [] k = "qv" -> {Kd(k, Fmt(s, -Scale, FALSE)) : s \in Pick(1..MaxI(2, MaxSz - 1))}
Shapes == IF Tiny THEN <<<<"num", "num">>>> ELSE IF Traced THEN <<<<"num">>, <<"num", "num">>, <<"num", "num">>, <<"num", "bit">>>>
          ELSE <<<<"num", "num">>, <<"num", "num">>, <<"num", "bit">>, <<"num", "num", "bit">>, <<"num", "num", "bit">>, <<"bit", "bit">>, <<"qv", "qv">>, <<"num", "num", "num">>, <<"num">>>>
Init == fm = <<>> /\ init = 0 /\ toks = <<>> /\ br = <<>> /\ len = 0 /\ bud = 0 /\ phase = "start"
Start == /\ phase = "start"
         /\ \E sh \in PickW(Shapes), l \in Pick(MinLen..MaxLen) :
            \E k1 \in PickKind(sh[1]), k2 \in PickKind(sh[MinI(2, Len(sh))]), k3 \in PickKind(sh[MinI(3, Len(sh))]) :
            LET fs == SubSeq(<<k1, k2, k3>>, 1, Len(sh)) T == Total(fs) IN
            \E h \in Pick((IF Tiny THEN 1 ELSE 0)..MinI(T, MaxH)) : \E base \in (IF Tiny THEN {[j \in 1..T |-> 1]} ELSE PickBits(T)), sup \in PickTuple(1..T, h) :
              \E ph \in (IF Tiny THEN {[i \in 1..h |-> 1]} ELSE PickSeq(0..7, h)) :
              /\ fm' = fs /\ len' = l
              /\ init' = [fs |-> fs, base |-> base, sup |-> sup, ph |-> ph]
              /\ br' = Branches(fs, base, sup, ph)
              /\ bud' = Budget - T
         /\ toks' = <<>> /\ phase' = "build"

V == 1..Len(fm)
Of(k) == {i \in V : fm[i].k = k}
Keep == UNCHANGED <<init, len, phase>>
Tv(x) == IF x THEN 1 ELSE 0
Rel(o, x, y) == CASE o = "eq" -> x = y [] o = "ne" -> x # y [] o = "lt" -> x < y [] o = "gt" -> x > y [] o = "le" -> x <= y [] OTHER -> x >= y
Rels == <<"eq", "eq", "ne", "lt", "lt", "gt", "le", "ge">>
New(tok, k, F(_)) == /\ toks' = Append(toks, tok) /\ br' = NewVar(br, F) /\ fm' = Append(fm, k) /\ bud' = bud - k.sz /\ Keep

(* a relation: number a against number b, or against the scaled constant c (b = 0) *)
(* constants: representable, between two values, or out of range *)
ConstNear(i, k, f, w) == LET F == Fmt(fm[i].sz, fm[i].e, fm[i].sg) u == Unit(F) IN
  CASE w = "in" -> MinV(F) + u * (k % P2(fm[i].sz)) [] w = "mid" -> MinV(F) + u * (k % P2(fm[i].sz)) + (u \div 2)
    [] w = "hi" -> MaxV(F) + u * (1 + (k % 3)) [] OTHER -> MinV(F) - u * (1 + (k % 3))
PickCmp == UNION {LET B == Of("num") \ {a} IN
             UNION {IF q = 0 THEN {[a |-> a, b |-> 0, c |-> ConstNear(a, k, 0, w), o |-> o] : k \in (IF Tiny THEN {1, 2} ELSE Pick(0..15)), w \in PickW(IF Traced THEN <<"in", "in", "hi">> ELSE <<"in", "in", "in", "mid", "hi", "lo">>), o \in PickW(Rels)}
                    ELSE {[a |-> a, b |-> q, c |-> 0, o |-> o] : o \in PickW(Rels)} : q \in Pick({0} \cup B)} : a \in Pick(Of("num"))}
Holds(r, v) == Rel(r.o, v[r.a], IF r.b = 0 THEN r.c ELSE v[r.b])
Cmp == IF Of("num") = {} \/ bud < 1 THEN UNCHANGED vars ELSE
       \E r \in PickCmp, left \in Pick(BOOLEAN) : New([t |-> "cmp", r |-> r, left |-> left /\ r.b = 0], Bit, LAMBDA v : Tv(Holds(r, v)))
(* boolean expressions over bools *)
Bop(o, x, y) == CASE o = "and" -> x * y [] o = "or" -> MaxI(x, y) [] o = "xor" -> (x + y) % 2 [] OTHER -> 1 - x
PickBool == LET B == Of("bit") IN UNION {{[o |-> o, a |-> a, b |-> IF B \ {a} = {} THEN 0 ELSE CHOOSE b \in Pick(B \ {a}) : TRUE] :
               o \in PickW(IF B \ {a} = {} THEN <<"not">> ELSE <<"and", "or", "xor", "not">>)} : a \in Pick(B)}
Bool == IF Of("bit") = {} \/ bud < 1 THEN UNCHANGED vars ELSE
        \E r \in PickBool : New([t |-> "bool", r |-> r], Bit, LAMBDA v : Bop(r.o, v[r.a], IF r.b = 0 THEN 0 ELSE v[r.b]))
Flip == IF Of("bit") = {} THEN UNCHANGED vars ELSE
        \E a \in Pick(Of("bit")) : /\ toks' = Append(toks, [t |-> "flip", a |-> a]) /\ br' = SetVar(br, a, LAMBDA v : 1 - v[a]) /\ UNCHANGED <<fm, bud>> /\ Keep
(* bitwise logic on vectors: the shorter one is padded with zeros *)
Bits(o, x, y, n) == FoldSet(LAMBDA i, s : s + P2(i) * Bop(o, Bt(x, i), Bt(y, i)), 0, 0..(n - 1))
Vec == LET S == Of("qv") IN IF Cardinality(S) < 2 THEN UNCHANGED vars ELSE
       \E p \in PickTuple(S, 2), o \in PickW(<<"and", "or", "xor">>) :
       LET n == MaxI(fm[p[1]].sz, fm[p[2]].sz) IN IF n > bud THEN UNCHANGED vars
       ELSE New([t |-> "vec", r |-> [o |-> o, a |-> p[1], b |-> p[2]]], Kd("qv", Fmt(n, -Scale, FALSE)), LAMBDA v : Bits(o, v[p[1]], v[p[2]], n))
(* equality of vectors with each other or with a value *)
VecEq == LET S == Of("qv") IN IF S = {} \/ bud < 1 THEN UNCHANGED vars ELSE
         \E a \in Pick(S), o \in PickW(<<"eq", "ne">>) : \E b \in Pick({0} \cup {x \in S : x # a /\ fm[x].sz = fm[a].sz}), c \in Pick(0..(P2(fm[a].sz) - 1)) :
           New([t |-> "veq", r |-> [a |-> a, b |-> b, c |-> c, o |-> o]], Bit, LAMBDA v : Tv(Rel(o, v[a], IF b = 0 THEN c ELSE v[b])))

(* conditions: cond is a list of nested conditions; body flips bit q of variable i or gives it a phase *)
CondOn(cd, v) == IF cd.k = "cmp" THEN Holds(cd.r, v) ELSE Bop(cd.r.o, v[cd.r.a], IF cd.r.b = 0 THEN 0 ELSE v[cd.r.b]) = 1
CondVars(cd) == {cd.r.a, cd.r.b} \ {0}
PickCond == UNION {IF k = "cmp" THEN {[k |-> k, r |-> r] : r \in PickCmp} ELSE {[k |-> k, r |-> r] : r \in PickBool} :
                   k \in Pick((IF Of("num") = {} THEN {} ELSE {"cmp"}) \cup (IF Of("bit") = {} THEN {} ELSE {"bool"}))}
Cond == IF Of("num") \cup Of("bit") = {} THEN UNCHANGED vars ELSE
  \E c1 \in PickCond, c2 \in PickCond, two \in Pick({FALSE, FALSE, TRUE}) :
  LET cs == IF two THEN <<c1, c2>> ELSE <<c1>>
      W == V \ (CondVars(c1) \cup (IF two THEN CondVars(c2) ELSE {})) IN
  IF W = {} THEN UNCHANGED vars ELSE
  \E i \in Pick(W), g \in PickW(<<"x", "x", "p">>), k \in Pick(1..7) : \E q \in Pick(0..(fm[i].sz - 1)) :
  LET F == Fmt(fm[i].sz, fm[i].e, fm[i].sg)
      on(v) == \A j \in 1..Len(cs) : CondOn(cs[j], v)
      bq(v) == Bt(Enc(v[i], F), q)
      flipped(v) == Dec(Enc(v[i], F) + (IF bq(v) = 1 THEN -1 ELSE 1) * P2(q), F) IN
  /\ toks' = Append(toks, [t |-> "cond", cs |-> cs, i |-> i, q |-> q, g |-> g, k |-> k])
  /\ br' = [b \in DOMAIN br |-> LET v == br[b].v IN IF ~ on(v) THEN br[b]
              ELSE IF g = "x" THEN [br[b] EXCEPT !.v = [@ EXCEPT ![i] = flipped(v)]]
              ELSE IF bq(v) = 1 THEN [br[b] EXCEPT !.ph = (@ + k) % 8] ELSE br[b]]
  /\ UNCHANGED <<fm, bud>> /\ Keep

Acts == IF Tiny THEN <<"cmp">> ELSE IF Traced THEN <<"cmp", "cmp", "cmp", "bool">>
        ELSE <<"cmp", "cmp", "cmp", "cmp", "bool", "bool", "flip", "vec", "vec", "veq", "cond", "cond", "cond">>
Full == Len(toks) >= len
Step == phase = "build" /\ ~ Full /\ \E t \in PickW(Acts) :
  CASE t = "cmp" -> Cmp [] t = "bool" -> Bool [] t = "flip" -> Flip [] t = "vec" -> Vec [] t = "veq" -> VecEq [] t = "cond" -> Cond
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<fm, init, toks, br, len, bud>>
        /\ CSVWrite("%1$s", <<ToJson([init |-> init, prof |-> Profile, fm |-> fm, toks |-> toks, br |-> br])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

Rev == phase = "build" => Distinct(br)
InRange == phase = "build" => AllBr(br, LAMBDA v : \A i \in V : Fits(v[i], Fmt(fm[i].sz, fm[i].e, fm[i].sg)))
(* the relations partition: exactly one of <, =, > *)
Tri == phase = "build" => AllBr(br, LAMBDA v : \A a, b \in Of("num") : Tv(Rel("lt", v[a], v[b])) + Tv(Rel("eq", v[a], v[b])) + Tv(Rel("gt", v[a], v[b])) = 1)
=============================================================================
