------------------------------- MODULE ModProg -------------------------------
(***************************************************************************)
(* Histories of operations on numbers modulo N in superposition.           *)
(* Variable kinds:                                                         *)
(*   mod    a number modulo N with a Montgomery shift m: the code of the   *)
(*          value v is v * 2^m mod N.  The shift of a product is chosen by *)
(*          the implementation (m = 99): only its value is specified.      *)
(*   float  an unsigned integer with values below N                        *)
(*   bit    control bits and results of comparisons                        *)
(* The values in the table are the values modulo N, not the codes.         *)
(***************************************************************************)
EXTENDS Val

CONSTANTS Moduli, MinLen, MaxLen, MaxH, Budget, Profile, OutFile
VARIABLES N, ks, init, toks, br, len, bud, phase
vars == <<N, ks, init, toks, br, len, bud, phase>>

Tiny == Profile = "tiny"
RECURSIVE SzF(_, _)
SzF(n, k) == IF P2(k) >= n THEN k ELSE SzF(n, k + 1)
Sz(n) == MaxI(SzF(n, 0), 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Half(n) == (n + 1) \div 2                       \* 1/2 modulo an odd n
RECURSIVE TimesP2(_, _, _)
TimesP2(v, k, n) == IF k = 0 THEN v ELSE IF k > 0 THEN TimesP2((v * 2) % n, k - 1, n) ELSE TimesP2((v * Half(n)) % n, k + 1, n)
F(s) == Fmt(s, -Scale, FALSE)
Free == 99

K(k, m) == [k |-> k, m |-> m]
Init == N = 0 /\ ks = <<>> /\ init = 0 /\ toks = <<>> /\ br = <<>> /\ len = 0 /\ bud = 0 /\ phase = "start"
(* a superposition in which some number reaches N is dropped to its base    *)
Start == /\ phase = "start"
         /\ \E n \in Pick(Moduli), l \in Pick(MinLen..MaxLen), kk \in PickW(<<<<"mod">>, <<"mod", "mod">>, <<"mod", "bit">>, <<"mod", "mod", "bit">>, <<"mod", "float">>, <<"mod", "mod">>, <<"mod", "bit">>>>) :
            LET fs == [i \in 1..Len(kk) |-> F(IF kk[i] = "bit" THEN 1 ELSE Sz(n))] T == Total(fs) IN
            \E h \in Pick((IF Tiny THEN 1 ELSE 0)..MinI(T, MaxH)) : \E base0 \in (IF Tiny THEN {[j \in 1..T |-> 0]} ELSE PickBits(T)), sup \in PickTuple(1..T, h) :
              \E ph \in (IF Tiny THEN {[i \in 1..h |-> 1]} ELSE PickSeq(0..7, h)) :
              LET ok(bb) == AllBr(bb, LAMBDA v : \A i \in 1..Len(kk) : kk[i] = "bit" \/ v[i] < n)
                  top == {Offset(fs, i) + Sz(n) : i \in {x \in 1..Len(kk) : kk[x] # "bit"}}
                  clr == [j \in 1..T |-> IF j \in top THEN 0 ELSE base0[j]]
                  s2 == SelectSeq(sup, LAMBDA j : j \notin top)
                  full == Branches(fs, base0, sup, ph)
                  cut == Branches(fs, clr, s2, [i \in 1..Len(s2) |-> ph[i]])
                  use == IF ok(full) THEN <<base0, sup, ph, full>> ELSE <<clr, s2, [i \in 1..Len(s2) |-> ph[i]], cut>>
              IN /\ N' = n /\ len' = l /\ ks' = [i \in 1..Len(kk) |-> K(kk[i], 0)]
                 /\ init' = [n |-> n, fs |-> fs, ks |-> kk, base |-> use[1], sup |-> use[2], ph |-> use[3]]
                 /\ br' = use[4]
                 /\ bud' = Budget - T
         /\ toks' = <<>> /\ phase' = "build"

V == 1..Len(ks)
Mods == {i \in V : ks[i].k = "mod"}
Own == {i \in Mods : ks[i].m # Free}
Floats == {i \in V : ks[i].k = "float"}
Bits == {i \in V : ks[i].k = "bit"}
Odd == N % 2 = 1
Keep == UNCHANGED <<N, init, len, phase>>
Tok(t, a, b, c, o, e) == [t |-> t, a |-> a, b |-> b, c |-> c, o |-> o, e |-> e]
PickEnv(C, inv) == UNION {IF k = "ctl" THEN UNION {{[k |-> k, q |-> q, b |-> b] : b \in Pick({0, 1})} : q \in Pick(C)}
                          ELSE {[k |-> k, q |-> 0, b |-> 0]} :
                          k \in PickW((IF inv THEN <<"inv">> ELSE <<>>) \o (IF C = {} THEN <<"none">> ELSE <<"none", "ctl", "ctl">>))}
On(e, v) == e.k # "ctl" \/ v[e.q] = e.b
(* in-place on variable a *)
Inpl(tok, Fn(_)) == /\ toks' = Append(toks, tok) /\ br' = SetVar(br, tok.a, LAMBDA v : IF On(tok.e, v) THEN Fn(v) ELSE v[tok.a])
                    /\ UNCHANGED <<ks, bud>> /\ Keep
Outpl(tok, k, cost, Fn(_)) == /\ toks' = Append(toks, tok) /\ br' = NewVar(br, Fn) /\ ks' = Append(ks, k) /\ bud' = bud - cost /\ Keep
None == [k |-> "none", q |-> 0, b |-> 0]
Cs == IF Tiny THEN 1..(N - 1) ELSE (-N)..(2 * N)

IAdd == \E a \in Pick(Own), c \in Pick(Cs), s \in Pick({1, -1}) : \E e \in PickEnv(Bits, TRUE) :
          Inpl(Tok("iaddc", a, 0, c, s, e), LAMBDA v : (v[a] + (IF e.k = "inv" THEN -s ELSE s) * c) % N)
IAddQ == LET prs == {<<a, b>> \in Own \X (Mods \cup Floats) : a # b} IN IF prs = {} THEN UNCHANGED vars ELSE
         \E p \in Pick(prs), s \in Pick({1, -1}) : \E e \in PickEnv(Bits, TRUE) :
         LET a == p[1] b == p[2]
             (* operands with different shifts can only be added; a float needs shift 0 *)
             ok == IF b \in Floats THEN ks[a].m = 0 ELSE ks[a].m = ks[b].m \/ s = 1
         IN IF ~ ok THEN UNCHANGED vars
            ELSE Inpl(Tok("iaddq", a, b, 0, s, e), LAMBDA v : (v[a] + (IF e.k = "inv" THEN -s ELSE s) * v[b]) % N)
Room == bud >= Sz(N)
NewAdd == IF ~ Room THEN UNCHANGED vars ELSE
          \E a \in Pick(Own), c \in Pick(Cs), o \in PickW(<<"add", "radd", "sub", "rsub">>) :
            Outpl(Tok("addc", a, 0, c, o, None), K("mod", ks[a].m), Sz(N),
                  LAMBDA v : (CASE o = "sub" -> v[a] - c [] o = "rsub" -> c - v[a] [] OTHER -> v[a] + c) % N)
NewAddQ == LET prs == {<<a, b>> \in Own \X (Own \cup Floats) : a # b /\ (IF b \in Floats THEN ks[a].m = 0 ELSE ks[a].m = ks[b].m)} IN
           IF ~ Room \/ prs = {} THEN UNCHANGED vars ELSE
           \E p \in Pick(prs), o \in PickW(<<"add", "sub">>) :
             Outpl(Tok("addq", p[1], p[2], 0, o, None), K("mod", ks[p[1]].m), Sz(N),
                   LAMBDA v : (IF o = "sub" THEN v[p[1]] - v[p[2]] ELSE v[p[1]] + v[p[2]]) % N)
IMul == IF ~ Odd \/ N < 3 THEN UNCHANGED vars ELSE
        \E a \in Pick(Mods), c \in Pick({x \in Cs : Gcd(x % N, N) = 1}) : \E e \in PickEnv(Bits, TRUE) :
          (* dividing by c is multiplying with its inverse *)
          LET d == IF e.k = "inv" THEN CHOOSE x \in 1..(N-1) : (x * c) % N = 1 ELSE c IN
          Inpl(Tok("imul", a, 0, c, 0, e), LAMBDA v : (v[a] * d) % N)
NewMul == IF ~ Room \/ ~ Odd \/ N < 3 THEN UNCHANGED vars ELSE
          \E a \in Pick(Mods), c \in Pick(Cs), o \in PickW(<<"mul", "rmul">>) :
            Outpl(Tok("mulc", a, 0, c, o, None), K("mod", Free), Sz(N), LAMBDA v : (v[a] * c) % N)
NewMulQ == LET prs == {p \in Mods \X Mods : p[1] # p[2]} IN IF ~ Room \/ ~ Odd \/ N < 3 \/ prs = {} THEN UNCHANGED vars ELSE
           \E p \in Pick(prs) : Outpl(Tok("mulq", p[1], p[2], 0, "mul", None), K("mod", Free), Sz(N), LAMBDA v : (v[p[1]] * v[p[2]]) % N)
(* relabelling: the codes stay, the shift changes by d *)
Shift == IF ~ Odd \/ N < 3 THEN UNCHANGED vars ELSE
         \E a \in Pick(Mods), d \in Pick({-2, -1, 1, 2, 3}) :
           /\ toks' = Append(toks, Tok("shift", a, 0, d, 0, None)) /\ br' = SetVar(br, a, LAMBDA v : TimesP2(v[a], -d, N))
           /\ ks' = [ks EXCEPT ![a] = K("mod", IF @.m = Free THEN Free ELSE @.m + d)] /\ UNCHANGED bud /\ Keep
Rel(o, x, y) == CASE o = "eq" -> x = y [] o = "ne" -> x # y [] o = "lt" -> x < y [] o = "gt" -> x > y [] o = "le" -> x <= y [] OTHER -> x >= y
Tv(x) == IF x THEN 1 ELSE 0
Cmp == IF bud < 1 THEN UNCHANGED vars ELSE
       \E a \in Pick(Own), o \in PickW(<<"eq", "ne", "lt", "gt", "le", "ge">>), c \in Pick(0..(N - 1)) :
       LET B == {b \in Own : b # a /\ ks[a].m = ks[b].m} IN
       \E q \in Pick(IF B = {} THEN {0} ELSE {0} \cup B) :
         IF ks[a].m # 0 /\ q = 0 THEN UNCHANGED vars
         (* "order": an order relation between numbers with a shift *)
         ELSE Outpl(Tok(IF ks[a].m # 0 /\ o \notin {"eq", "ne"} THEN "order" ELSE "cmp", a, q, c, o, None), K("bit", 0), 1, LAMBDA v : Tv(Rel(o, v[a], IF q = 0 THEN c ELSE v[q])))

Acts == IF Tiny THEN <<"iadd", "iaddq", "imul", "shift", "addq">>
        ELSE IF Profile = "traced" THEN <<"iadd", "iadd", "iaddq", "iaddq", "imul", "imul", "mul", "mulq", "cmp", "add", "addq">>
        ELSE <<"iadd", "iadd", "iaddq", "iaddq", "add", "addq", "imul", "imul", "imul", "mul", "mul", "mulq", "mulq", "shift", "cmp">>
Full == Len(toks) >= len
Step == phase = "build" /\ ~ Full /\ \E t \in PickW(Acts) :
  CASE t = "iadd" -> IAdd [] t = "iaddq" -> IAddQ [] t = "add" -> NewAdd [] t = "addq" -> NewAddQ
    [] t = "imul" -> IMul [] t = "mul" -> NewMul [] t = "mulq" -> NewMulQ [] t = "shift" -> Shift [] t = "cmp" -> Cmp
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<N, ks, init, toks, br, len, bud>>
        /\ CSVWrite("%1$s", <<ToJson([init |-> init, prof |-> Profile, ks |-> ks, toks |-> toks, br |-> br])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

Rev == phase = "build" => Distinct(br)
Reduced == phase = "build" => AllBr(br, LAMBDA v : \A i \in V : v[i] \in 0..((IF ks[i].k = "bit" THEN 2 ELSE N) - 1))
=============================================================================
