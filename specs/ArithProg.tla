------------------------------ MODULE ArithProg ------------------------------
(***************************************************************************)
(* Arithmetic on quantum numbers.  Out-of-place operations create a new    *)
(* number holding the exact result (the implementation chooses a format    *)
(* that can hold it); in-place operations on a number of known format are  *)
(* modular in that format; in-place multiplication and shifts keep the     *)
(* exact value.  Division is specified by its error bound and by           *)
(* quotient * divisor + remainder = numerator.                             *)
(*   fm[i].kn: the format of number i is known to the specification        *)
(***************************************************************************)
EXTENDS Val

CONSTANTS MinV_, MaxV_, MaxSz, MinLen, MaxLen, MaxH, Budget, Profile, OutFile
VARIABLES fm, init, toks, br, len, bud, phase
vars == <<fm, init, toks, br, len, bud, phase>>

Tiny == Profile = "tiny"
Known(f) == [sz |-> f.sz, e |-> f.e, sg |-> f.sg, kn |-> TRUE]
(* est: upper estimate of the number of qubits of a result *)
Free(est, e) == [sz |-> est, e |-> e, sg |-> TRUE, kn |-> FALSE]
Exps == IF Tiny THEN {0} ELSE IF Profile = "int" THEN {0, 0, 1} ELSE {-2, -1, 0, 1, 2}
Fmts == {Known(f) : f \in UNION {{Fmt(s + (IF g THEN 1 ELSE 0), e, g) : s \in 1..MaxSz} :
                                   e \in Exps, g \in IF Profile = "div" \/ Tiny THEN {FALSE} ELSE {TRUE, FALSE}}}

Init == fm = <<>> /\ init = 0 /\ toks = <<>> /\ br = <<>> /\ len = 0 /\ bud = 0 /\ phase = "start"
Start == /\ phase = "start"
         /\ \E n \in Pick(MinV_..MaxV_), l \in Pick(MinLen..MaxLen) : \E fs \in PickSeq(Fmts, n) :
            LET T == Total(fs) IN
            \E h \in Pick((IF Tiny THEN 1 ELSE 0)..MinI(T, MaxH)) : \E base \in (IF Tiny THEN {[j \in 1..T |-> 1]} ELSE PickBits(T)), sup \in PickTuple(1..T, h) :
              \E ph \in (IF Tiny THEN {[i \in 1..h |-> 1]} ELSE PickSeq(0..7, h)) :
              /\ fm' = fs /\ len' = l
              /\ init' = [fs |-> fs, base |-> base, sup |-> sup, ph |-> ph]
              /\ br' = Branches(fs, base, sup, ph)
              /\ bud' = Budget - T
         /\ toks' = <<>> /\ phase' = "build"

V == 1..Len(fm)
K == {i \in V : fm[i].kn}
Top(i) == fm[i].e + fm[i].sz
EstAdd(i, j) == MaxI(Top(i), Top(j)) + 3 - MinI(fm[i].e, fm[j].e)
EstMul(i, j) == fm[i].sz + fm[j].sz + 1
Keep == UNCHANGED <<init, len, phase>>
Put(t) == toks' = Append(toks, t)

DoAdd == \E o \in PickW(<<"add", "sub">>), t \in PickTuple(V, 2) :
  LET i == t[1] j == t[2] est == EstAdd(i, j) IN
  IF est > bud THEN UNCHANGED vars ELSE
  /\ Put([t |-> o, a |-> i, b |-> j]) /\ fm' = Append(fm, Free(est, MinI(fm[i].e, fm[j].e))) /\ bud' = bud - est
  /\ br' = NewVar(br, LAMBDA v : IF o = "add" THEN v[i] + v[j] ELSE v[i] - v[j]) /\ Keep
DoMul == \E i \in Pick(V), j \in Pick(V) :
  LET est == EstMul(i, j) IN
  IF est > bud \/ fm[i].e + fm[j].e < -Scale \/ fm[i].sz + fm[j].sz > 9 \/ (i = j /\ ~ fm[i].kn) THEN UNCHANGED vars ELSE
  /\ Put([t |-> "mul", a |-> i, b |-> j]) /\ fm' = Append(fm, Free(est, fm[i].e + fm[j].e)) /\ bud' = bud - est
  /\ br' = NewVar(br, LAMBDA v : (v[i] * v[j]) \div P2(Scale)) /\ Keep
Consts == IF Tiny THEN {-3, 2} ELSE {-12, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 17}
(* number of bits of a constant *)
RECURSIVE Lg(_)
Lg(c) == IF AbsI(c) <= 1 THEN 1 ELSE 1 + Lg(AbsI(c) \div 2)
DoMulC == \E i \in Pick(V), c \in Pick(Consts) :
  LET est == fm[i].sz + Lg(c) + 2 IN
  IF est > bud THEN UNCHANGED vars ELSE
  /\ Put([t |-> "mulc", a |-> i, c |-> c]) /\ fm' = Append(fm, Free(est, fm[i].e)) /\ bud' = bud - est
  /\ br' = NewVar(br, LAMBDA v : v[i] * c) /\ Keep
(* sum with a constant: modular in the format of the operand *)
DoAddC == IF K = {} THEN UNCHANGED vars ELSE \E i \in Pick(K), c \in Pick(Consts), o \in PickW(<<"addc", "subc", "radd">>) :
  LET est == fm[i].sz d == c * Unit(fm[i]) IN
  IF est > bud THEN UNCHANGED vars ELSE
  /\ Put([t |-> o, a |-> i, c |-> c]) /\ fm' = Append(fm, fm[i]) /\ bud' = bud - est
  /\ br' = NewVar(br, LAMBDA v : Wrap(IF o = "subc" THEN v[i] - d ELSE v[i] + d, fm[i])) /\ Keep
DoRSubC == IF K = {} THEN UNCHANGED vars ELSE \E i \in Pick(K), c \in Pick(Consts) :
  LET f == IF fm[i].sg THEN fm[i] ELSE [fm[i] EXCEPT !.sg = TRUE, !.sz = @ + 1] IN
  IF f.sz > bud THEN UNCHANGED vars ELSE
  /\ Put([t |-> "rsubc", a |-> i, c |-> c]) /\ fm' = Append(fm, f) /\ bud' = bud - f.sz
  /\ br' = NewVar(br, LAMBDA v : Wrap(c * Unit(f) - v[i], f)) /\ Keep

(* contexts of in-place operations: inverted, or controlled by a bit of a   *)
(* number that takes no part                                                *)
PickEnv(C) == UNION {IF k = "ctl" THEN UNION {{[k |-> k, q |-> q, j |-> j, b |-> b] : j \in Pick(0..(fm[q].sz - 1)), b \in Pick({0, 1})} : q \in Pick(C)}
                     ELSE {[k |-> k, q |-> 0, j |-> 0, b |-> 0]} :
                     k \in PickW(IF Tiny THEN <<"none", "inv">> ELSE IF C = {} THEN <<"none", "none", "inv">> ELSE <<"none", "none", "inv", "ctl", "ctl">>)}
On(e, v) == e.k # "ctl" \/ Bt(Enc(v[e.q], fm[e.q]), e.j) = e.b
Sgn(o, e) == (IF o \in {"isub", "isubc"} THEN -1 ELSE 1) * (IF e.k = "inv" THEN -1 ELSE 1)
DoIAdd == \E o \in PickW(<<"iadd", "isub">>) :
  LET prs == {p \in K \X K : p[1] # p[2] /\ fm[p[2]].e >= fm[p[1]].e /\ (fm[p[2]].sg => fm[p[1]].sg)} IN
  IF prs = {} THEN UNCHANGED vars ELSE
  \E p \in Pick(prs) : \E e \in PickEnv(K \ {p[1], p[2]}) :
  LET i == p[1] j == p[2] IN
  /\ Put([t |-> o, a |-> i, b |-> j, e |-> e]) /\ UNCHANGED <<fm, bud>> /\ Keep
  /\ br' = SetVar(br, i, LAMBDA v : IF On(e, v) THEN Wrap(v[i] + Sgn(o, e) * v[j], fm[i]) ELSE v[i])
DoIAddC == IF K = {} THEN UNCHANGED vars ELSE \E o \in PickW(<<"iaddc", "isubc">>), i \in Pick(K), c \in Pick(Consts) : \E e \in PickEnv(K \ {i}) :
  /\ Put([t |-> o, a |-> i, c |-> c, e |-> e]) /\ UNCHANGED <<fm, bud>> /\ Keep
  /\ br' = SetVar(br, i, LAMBDA v : IF On(e, v) THEN Wrap(v[i] + Sgn(o, e) * c * Unit(fm[i]), fm[i]) ELSE v[i])
(* in-place multiplication extends the number as needed *)
DoIMulC == \E i \in Pick(K), c \in Pick(Consts \ {0}) :
  LET est == Lg(c) + 1 IN   \* negative factors need a signed number
  IF est > bud \/ (c < 0 /\ ~ fm[i].sg) THEN UNCHANGED vars ELSE
  /\ Put([t |-> "imulc", a |-> i, c |-> c]) /\ bud' = bud - est /\ fm' = [fm EXCEPT ![i] = Free(@.sz + est, @.e)]
  /\ br' = SetVar(br, i, LAMBDA v : v[i] * c) /\ Keep
(* shifting the exponent *)
DoShift == \E i \in Pick(K), k \in Pick(-2..2), o \in PickW(<<"shl", "shr", "expshift">>) :
  LET d == IF o = "shr" THEN -k ELSE k IN
  IF fm[i].e + d < -4 \/ fm[i].e + d > 4 \/ (o # "expshift" /\ k < 0) THEN UNCHANGED vars ELSE
  /\ Put([t |-> o, a |-> i, c |-> k]) /\ UNCHANGED bud /\ fm' = [fm EXCEPT ![i].e = @ + d]
  /\ br' = SetVar(br, i, LAMBDA v : IF d >= 0 THEN v[i] * P2(d) ELSE v[i] \div P2(-d)) /\ Keep
(* shift on the device by a classical or quantum amount; unsigned           *)
DoQShift == LET U == {i \in K : ~ fm[i].sg} W == {i \in U : fm[i].e = 0 /\ fm[i].sz <= 2} IN
  IF U = {} THEN UNCHANGED vars ELSE
  \E i \in Pick(U), k \in Pick(0..3) :
  \/ IF k > bud THEN UNCHANGED vars ELSE
     /\ Put([t |-> "qshc", a |-> i, c |-> k]) /\ bud' = bud - k /\ fm' = [fm EXCEPT ![i] = Free(@.sz + k, @.e)]
     /\ br' = SetVar(br, i, LAMBDA v : v[i] * P2(k)) /\ Keep
  \/ IF W \ {i} = {} \/ bud < 4 THEN UNCHANGED vars ELSE \E j \in Pick(W \ {i}) :
     /\ Put([t |-> "qsh", a |-> i, b |-> j]) /\ bud' = bud - P2(fm[j].sz) /\ fm' = [fm EXCEPT ![i] = Free(@.sz + P2(fm[j].sz), @.e)]
     /\ br' = SetVar(br, i, LAMBDA v : v[i] * P2(v[j] \div P2(Scale))) /\ Keep
(* copy into a wider format *)
DoCopy == \E i \in Pick(K), up \in Pick(0..2), dn \in Pick(0..1), s \in Pick({TRUE, FALSE}) :
  LET f0 == fm[i]
      sg == f0.sg \/ s
      f == [f0 EXCEPT !.sg = sg, !.e = @ - dn, !.sz = (@ - (IF f0.sg THEN 1 ELSE 0)) + up + dn + (IF sg THEN 1 ELSE 0)]
  IN IF f.sz > bud \/ f.e < -4 THEN UNCHANGED vars ELSE
  /\ Put([t |-> "copy", a |-> i, f |-> f]) /\ bud' = bud - f.sz /\ fm' = Append(fm, f)
  /\ br' = NewVar(br, LAMBDA v : v[i]) /\ Keep
DoDup == \E i \in Pick(K) : IF fm[i].sz > bud THEN UNCHANGED vars ELSE
  /\ Put([t |-> "dup", a |-> i]) /\ bud' = bud - fm[i].sz /\ fm' = Append(fm, fm[i])
  /\ br' = NewVar(br, LAMBDA v : v[i]) /\ Keep
DoPow == LET U == {i \in K : ~ fm[i].sg /\ fm[i].sz <= 2} IN IF U = {} \/ bud < 9 THEN UNCHANGED vars ELSE \E i \in Pick(U), k \in Pick({0, 1, 2, 2, 3}) :
  IF k * fm[i].e < -Scale \/ k * fm[i].e > 4 \/ k * fm[i].sz > 4 \/ (k = 0 /\ (fm[i].e > 0 \/ fm[i].e + fm[i].sz <= 0)) THEN UNCHANGED vars ELSE
  /\ Put([t |-> "pow", a |-> i, c |-> k]) /\ bud' = bud - 2 * fm[i].sz * k /\ fm' = Append(fm, Free(k * fm[i].sz + 1, k * fm[i].e))
  /\ br' = NewVar(br, LAMBDA v : CASE k = 0 -> P2(Scale) [] k = 1 -> v[i] [] k = 2 -> (v[i] * v[i]) \div P2(Scale)
                                   [] k = 3 -> (((v[i] * v[i]) \div P2(Scale)) * v[i]) \div P2(Scale)) /\ Keep
(* division; the quotient is only bounded: the table holds the operands     *)
(* <<a, b>> and the check requires |quotient - a/b| < 2^-prec and          *)
(* remainder = a - quotient * b                                             *)
DoDiv == \E o \in PickW(<<"div", "divmod", "floor">>), p \in Pick(K \X K), c \in Pick(0..2) :
  LET i == p[1] j == p[2]
      est == fm[i].sz + fm[j].sz + fm[i].e - fm[j].e + 2 * c + 6 IN
  IF i = j \/ est > bud \/ ~ AllBr(br, LAMBDA v : v[j] # 0) \/ (o = "floor" /\ (fm[i].e < 0 \/ fm[j].e < 0)) THEN UNCHANGED vars ELSE
  /\ Put([t |-> o, a |-> i, b |-> j, c |-> IF o = "floor" THEN 0 ELSE c, q |-> Len(fm) + 1]) /\ bud' = bud - est /\ Keep
  /\ fm' = fm \o [x \in 1..(IF o = "divmod" THEN 2 ELSE 1) |-> Free(est \div 2, 0)]
  /\ br' = [x \in DOMAIN br |-> [br[x] EXCEPT !.v = @ \o (IF o = "floor" THEN <<(@[i] \div @[j]) * P2(Scale)>> ELSE IF o = "div" THEN <<<<@[i], @[j]>>>> ELSE <<<<@[i], @[j]>>, <<@[i], @[j]>>>>)]]

Full == Len(toks) >= len \/ (Sampling /\ Len(toks) >= 1 /\ bud < 4)
Step == /\ phase = "build" /\ ~ Full
        /\ \E k \in PickW(IF Tiny THEN <<"add", "mulc", "iadd", "iaddc", "imulc">>
                          ELSE IF Profile = "div" THEN <<"div", "div", "iaddc", "iadd", "dup">>
                          ELSE <<"add", "add", "mul", "mul", "mulc", "addc", "addc", "rsubc", "iadd", "iadd", "iadd", "iaddc", "iaddc", "imulc", "shift", "qshift", "copy", "dup", "pow">>) :
           CASE k = "add" -> DoAdd [] k = "mul" -> DoMul [] k = "mulc" -> DoMulC [] k = "addc" -> DoAddC [] k = "rsubc" -> DoRSubC
             [] k = "iadd" -> DoIAdd [] k = "iaddc" -> DoIAddC [] k = "imulc" -> (IF K = {} THEN UNCHANGED vars ELSE DoIMulC)
             [] k = "shift" -> (IF K = {} THEN UNCHANGED vars ELSE DoShift) [] k = "qshift" -> DoQShift
             [] k = "copy" -> (IF K = {} THEN UNCHANGED vars ELSE DoCopy) [] k = "dup" -> (IF K = {} THEN UNCHANGED vars ELSE DoDup)
             [] k = "pow" -> DoPow [] k = "div" -> (IF K = {} THEN UNCHANGED vars ELSE DoDiv)
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<fm, init, toks, br, len, bud>>
        /\ CSVWrite("%1$s", <<ToJson([init |-> init, prof |-> Profile, toks |-> toks, br |-> br])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

(* meta: no step merges branches; known formats hold their values; in-place *)
(* steps are invertible (checked through distinctness)                      *)
Rev == phase = "build" => Distinct(br)
InFormat == phase = "build" => \A i \in K : AllBr(br, LAMBDA v : Fits(v[i], fm[i]))
=============================================================================
