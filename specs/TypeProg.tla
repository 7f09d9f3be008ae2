------------------------------- MODULE TypeProg -------------------------------
(***************************************************************************)
(* Quantum types: every type maps the codes of its qubits to labels.       *)
(* Writing a label, a superposition of labels with amplitudes, or another  *)
(* variable of the type and then measuring one or several variables        *)
(* returns the labels.  The state is a table of branches with the codes of *)
(* all variables and an unnormalised amplitude in the Gaussian integers.   *)
(*  kinds: qv (bit strings), float (fixed point), bool, mod (numbers       *)
(*  modulo n with Montgomery shift m), char, charx (8 bit), custom (listed *)
(*  labels), merge (a user type whose decoder maps two codes to one label),*)
(*  str (two characters)                                                   *)
(***************************************************************************)
EXTENDS Val

CONSTANTS MinLen, MaxLen, MaxVars, MaxQ, Profile, OutFile
(* fresh: 2 untouched, 1 written with the zero code (which needs no gate), 0 used *)
VARIABLES ty, fresh, toks, br, len, phase
vars == <<ty, fresh, toks, br, len, phase>>
Tiny == Profile = "tiny"

Rec(k, sz, e, sg, n, m) == [k |-> k, sz |-> sz, e |-> e, sg |-> sg, n |-> n, m |-> m]
RECURSIVE Lg(_, _)
Lg(n, k) == IF P2(k) >= n THEN k ELSE Lg(n, k + 1)
PickType(k) ==
  CASE k = "qv" -> {Rec(k, s, 0, FALSE, 0, 0) : s \in Pick(1..(IF Tiny THEN 2 ELSE 4))}
    [] k = "float" -> {Rec(k, s, e, g, 0, 0) : s \in Pick(2..(IF Tiny THEN 3 ELSE 5)), e \in Pick(IF Tiny THEN {-1, 0, 1} ELSE -3..2), g \in Pick(BOOLEAN)}
    [] k = "bool" -> {Rec(k, 1, 0, FALSE, 0, 0)}
    [] k = "mod" -> UNION {{Rec(k, MaxI(Lg(n, 0), 1), 0, FALSE, n, IF n % 2 = 1 THEN m ELSE 0) : m \in Pick({0, 0, 1, 2})} : n \in Pick(IF Tiny THEN {3, 4} ELSE {2, 3, 4, 5, 6, 7, 9, 13})}
    [] k = "char" -> {Rec(k, 5, 0, FALSE, 0, 0)}
    [] k = "charx" -> {Rec(k, 8, 0, FALSE, 0, 0)}
    [] k = "custom" -> {Rec(k, MaxI(Lg(n, 0), 1), 0, FALSE, n, 0) : n \in Pick(1..6)}
    [] k = "merge" -> {Rec(k, s, 0, FALSE, 0, 0) : s \in Pick(2..3)}
    [] k = "str" -> {Rec(k, 10, 0, FALSE, 0, 0)}
Kinds == IF Tiny THEN <<"qv", "float", "bool", "mod", "custom">>
         ELSE <<"qv", "qv", "float", "float", "float", "float", "bool", "mod", "mod", "char", "charx", "custom", "custom", "merge", "str">>

(* ---- labels ---- *)
Chars == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"," ",".","!","?",":",",">>
Half(n) == (n + 1) \div 2
RECURSIVE Halve(_, _, _)
Halve(v, k, n) == IF k = 0 THEN v ELSE Halve((v * Half(n)) % n, k - 1, n)
FF(t) == Fmt(t.sz, t.e, t.sg)
Label(t, c) ==
  CASE t.k = "qv" -> [b |-> [i \in 1..t.sz |-> Bt(c, i - 1)]]
    [] t.k = "float" -> [x |-> Dec(c, FF(t))]
    [] t.k = "mod" -> [i |-> IF c < t.n THEN Halve(c, t.m, t.n) ELSE -1]
    [] t.k = "char" -> [s |-> Chars[c + 1]]
    [] t.k = "custom" -> [i |-> c, u |-> c >= t.n]
    [] t.k = "merge" -> [i |-> c \div 2]
    [] t.k = "str" -> [s |-> Chars[(c % 32) + 1] \o Chars[(c \div 32) + 1]]
    [] OTHER -> [i |-> c]
Codes(t) == CASE t.k = "mod" -> 0..(t.n - 1) [] t.k = "merge" -> {2 * i : i \in 0..(P2(t.sz - 1) - 1)} [] OTHER -> 0..(P2(t.sz) - 1)

(* ---- amplitudes ---- *)
Mul(a, z) == [a EXCEPT !.re = a.re * z[1] - a.im * z[2], !.im = a.re * z[2] + a.im * z[1]]
Amps == IF Tiny THEN {<<1, 0>>, <<0, -1>>} ELSE {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<2, 0>>, <<1, 1>>, <<2, -1>>, <<-1, 2>>, <<3, 0>>}
Xor(a, b, n) == FoldSet(LAMBDA i, s : s + P2(i) * ((Bt(a, i) + Bt(b, i)) % 2), 0, 0..(n - 1))

Init == ty = <<>> /\ fresh = <<>> /\ toks = <<>> /\ br = <<>> /\ len = 0 /\ phase = "start"
Start == /\ phase = "start"
         /\ \E n \in Pick(1..MaxVars), l \in Pick(MinLen..MaxLen) : \E kk \in (IF n = 1 THEN {<<a>> : a \in PickW(Kinds)} ELSE IF n = 2 THEN {<<a, b>> : a \in PickW(Kinds), b \in PickW(Kinds)}
                                                    ELSE {<<a, b, c>> : a \in PickW(Kinds), b \in PickW(Kinds), c \in PickW(Kinds)}) :
            \E t1 \in PickType(kk[1]) : \E t2 \in (IF n < 2 THEN {t1} ELSE PickType(kk[2])) : \E t3 \in (IF n < 3 THEN {t1} ELSE PickType(kk[3])) :
            LET all == <<t1, t2, t3>>
                ts == SubSeq(all, 1, IF t1.sz + t2.sz > MaxQ THEN 1 ELSE IF t1.sz + t2.sz + t3.sz > MaxQ THEN MinI(n, 2) ELSE n)
            IN /\ ty' = ts /\ fresh' = [i \in 1..Len(ts) |-> 2] /\ len' = l
               /\ br' = <<[c |-> [i \in 1..Len(ts) |-> 0], re |-> 1, im |-> 0]>>
         /\ toks' = <<>> /\ phase' = "build"

V == 1..Len(ty)
Keep == UNCHANGED <<len, phase>>
Used == FoldSeq(LAMBDA t, a : a + t.sz, 0, ty)
Wet(i) == fresh' = [fresh EXCEPT ![i] = 0]
Do(tok, i, F(_)) == /\ toks' = Append(toks, tok) /\ br' = [b \in DOMAIN br |-> [br[b] EXCEPT !.c = [@ EXCEPT ![i] = F(br[b].c)]]]
                    /\ fresh' = [fresh EXCEPT ![i] = IF tok.t \in {"val", "round"} /\ fresh[i] > 0 /\ F(br[1].c) = 0 THEN 1 ELSE 0] /\ UNCHANGED ty /\ Keep
Fr == {i \in V : fresh[i] = 2}

Val1 == IF Fr = {} THEN UNCHANGED vars ELSE \E i \in Pick(Fr) : \E c \in Pick(Codes(ty[i])) :
          Do([t |-> "val", i |-> i, l |-> Label(ty[i], c)], i, LAMBDA v : c)
(* a set of labels with amplitudes; how: by dictionary or as a full vector with one of the preparation methods *)
Sup == LET S == {i \in Fr : ty[i].k \notin {"str"}} IN IF S = {} \/ Len(br) > 8 THEN UNCHANGED vars ELSE
  \E i \in Pick(S) : LET m == MinI(Cardinality(Codes(ty[i])), IF Tiny THEN 2 ELSE 4) IN
  \E k \in Pick(1..m) : \E cs \in PickTuple(Codes(ty[i]), k), am \in PickSeq(Amps, k), how \in PickW(<<"dict", "qiskit", "qswitch", "item">>) :
    (* large vectors by qswitch are only slow *)
    LET hw == IF how = "qswitch" /\ ty[i].sz > 4 THEN "dict" ELSE how IN
    /\ toks' = Append(toks, [t |-> "sup", i |-> i, ls |-> [j \in 1..k |-> Label(ty[i], cs[j])], cs |-> cs, am |-> am, how |-> hw])
    /\ br' = FlattenSeq([b \in DOMAIN br |-> [j \in 1..k |-> Mul([br[b] EXCEPT !.c = [@ EXCEPT ![i] = cs[j]]], am[j])]])
    /\ Wet(i) /\ UNCHANGED ty /\ Keep
Copy == LET prs == {p \in V \X Fr : p[1] # p[2] /\ ty[p[1]] = ty[p[2]] /\ ty[p[1]].k \notin {"str", "custom"} /\ ty[p[1]].m = 0} IN IF prs = {} THEN UNCHANGED vars ELSE
        \E p \in Pick(prs) :
          /\ toks' = Append(toks, [t |-> "from", i |-> p[2], j |-> p[1]])
          /\ br' = [b \in DOMAIN br |-> [br[b] EXCEPT !.c = [@ EXCEPT ![p[2]] = br[b].c[p[1]]]]]
          /\ fresh' = [fresh EXCEPT ![p[1]] = 0, ![p[2]] = 0] /\ UNCHANGED ty /\ Keep
Dup == \E i \in Pick(V), ini \in Pick(BOOLEAN) :
       IF Used + ty[i].sz > MaxQ \/ Len(ty) > MaxVars \/ ty[i].k \in {"str"} THEN UNCHANGED vars
       ELSE /\ toks' = Append(toks, [t |-> "dup", i |-> i, init |-> ini]) /\ ty' = Append(ty, ty[i]) /\ fresh' = Append([fresh EXCEPT ![i] = IF ini THEN 0 ELSE @], IF ini THEN 0 ELSE 2)
            /\ br' = [b \in DOMAIN br |-> [br[b] EXCEPT !.c = Append(@, IF ini THEN @[i] ELSE 0)]] /\ Keep
Loose == {i \in V : ty[i].k # "mod"}
Gate == IF Loose = {} THEN UNCHANGED vars ELSE \E i \in Pick(Loose) : \E q \in Pick(0..(ty[i].sz - 1)) :
          Do([t |-> "x", i |-> i, q |-> q], i, LAMBDA v : Xor(v[i], P2(q), ty[i].sz))
CX == LET prs == {p \in V \X Loose : p[1] # p[2]} IN IF prs = {} THEN UNCHANGED vars ELSE
      \E p \in Pick(prs) : \E q \in Pick(0..(ty[p[1]].sz - 1)), r \in Pick(0..(ty[p[2]].sz - 1)) :
        /\ toks' = Append(toks, [t |-> "cx", i |-> p[1], q |-> q, j |-> p[2], r |-> r])
        /\ br' = [b \in DOMAIN br |-> IF Bt(br[b].c[p[1]], q) = 1 THEN [br[b] EXCEPT !.c = [@ EXCEPT ![p[2]] = Xor(@, P2(r), ty[p[2]].sz)]] ELSE br[b]]
        /\ fresh' = [fresh EXCEPT ![p[1]] = 0, ![p[2]] = 0] /\ UNCHANGED ty /\ Keep
Phase == \E i \in Pick(V), g \in PickW(<<"z", "s", "s_dg">>) : \E q \in Pick(0..(ty[i].sz - 1)) :
        LET z == CASE g = "z" -> <<-1, 0>> [] g = "s" -> <<0, 1>> [] OTHER -> <<0, -1>> IN
        /\ toks' = Append(toks, [t |-> "ph", i |-> i, q |-> q, g |-> g])
        /\ br' = [b \in DOMAIN br |-> IF Bt(br[b].c[i], q) = 1 THEN Mul(br[b], z) ELSE br[b]]
        /\ Wet(i) /\ UNCHANGED ty /\ Keep
(* writing on used qubits is refused unless dirtiness is permitted, in which case the code is added bitwise *)
Again == LET S == {i \in V : fresh[i] = 0 /\ ty[i].k \notin {"str"}} IN IF S = {} THEN UNCHANGED vars ELSE
         \E i \in Pick(S), d \in Pick(BOOLEAN) : \E c \in Pick(Codes(ty[i])) :
           IF d /\ ty[i].k = "mod" THEN UNCHANGED vars
           ELSE Do([t |-> IF d THEN "dirty" ELSE "refuse", i |-> i, l |-> Label(ty[i], c)], i, LAMBDA v : IF d THEN Xor(v[i], c, ty[i].sz) ELSE v[i])
(* a number outside of the range or between two values; rounding picks the closest *)
Odd == LET S == {i \in Fr : ty[i].k = "float"} IN IF S = {} THEN UNCHANGED vars ELSE
       \E i \in Pick(S) : \E o \in PickW(<<"above", "below", "between", "round">>), c \in Pick(Codes(ty[i])), f \in Pick({1, 3}) :
       LET F == FF(ty[i]) u == Unit(F)
           x == CASE o = "above" -> MaxV(F) + u * f [] o = "below" -> MinV(F) - u * f [] OTHER -> Dec(c, F) + (u * f) \div 4
           near == IF x > MaxV(F) THEN MaxV(F) ELSE IF f = 1 THEN Dec(c, F) ELSE Dec(c, F) + u IN
       IF u < 4 THEN UNCHANGED vars
       ELSE IF o = "round" THEN Do([t |-> "round", i |-> i, x |-> x], i, LAMBDA v : Enc(near, F))
       ELSE IF o = "between" /\ x > MaxV(F) THEN UNCHANGED vars
       ELSE /\ toks' = Append(toks, [t |-> "bad", i |-> i, x |-> x, o |-> o]) /\ UNCHANGED <<ty, fresh, br>> /\ Keep

Acts == IF Tiny THEN <<"val", "sup", "from", "dup", "x", "cx">>
        ELSE <<"val", "val", "val", "sup", "sup", "sup", "sup", "from", "from", "dup", "x", "cx", "cx", "ph", "again", "odd">>
Full == Len(toks) >= len
Step == phase = "build" /\ ~ Full /\ \E t \in PickW(Acts) :
  CASE t = "val" -> Val1 [] t = "sup" -> Sup [] t = "from" -> Copy [] t = "dup" -> Dup [] t = "x" -> Gate [] t = "cx" -> CX
    [] t = "ph" -> Phase [] t = "again" -> Again [] t = "odd" -> Odd
Row(b) == [c |-> b.c, l |-> [i \in V |-> Label(ty[i], b.c[i])], re |-> b.re, im |-> b.im]
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<ty, fresh, toks, br, len>>
        /\ \E ord \in PickTuple(V, Len(ty)) :
           CSVWrite("%1$s", <<ToJson([ty |-> ty, toks |-> toks, ord |-> ord, rows |-> [b \in DOMAIN br |-> Row(br[b])]])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

(* ---- meta-properties ---- *)
(* labels of writable codes identify them, so decoding inverts encoding *)
Inj == \A i \in V : \A a, b \in Codes(ty[i]) : Label(ty[i], a) = Label(ty[i], b) => a = b
(* branches keep distinct codes and never vanish *)
Rev == /\ \A a, b \in DOMAIN br : a # b => br[a].c # br[b].c
       /\ \A b \in DOMAIN br : br[b].re * br[b].re + br[b].im * br[b].im > 0
InRange == \A b \in DOMAIN br : \A i \in V : br[b].c[i] \in (IF ty[i].k = "mod" THEN Codes(ty[i]) ELSE 0..(P2(ty[i].sz) - 1))
=============================================================================
