------------------------------- MODULE BlockEnc ------------------------------
(***************************************************************************)
(* Block encodings: every constructor and every combinator denotes an      *)
(* exact matrix on the operand values (first operand least significant).   *)
(* al is the normalisation factor where it is documented as a sum of       *)
(* coefficients, otherwise 0.                                              *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS MaxN, MinLen, MaxLen, Profile, OutFile
VARIABLES n, reg, toks, len, phase
vars == <<n, reg, toks, len, phase>>
Tiny == Profile = "tiny"
Bound == 5000
N == P2(n)
NoMat == [sc |-> 0, m |-> <<>>]

Init == n = 0 /\ reg = <<>> /\ toks = <<>> /\ len = 0 /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "build" /\ \E k \in Pick(1..MaxN), l \in Pick(MinLen..MaxLen) : n' = k /\ len' = l
         /\ UNCHANGED <<reg, toks>>
(* a register: matrix, number of operands, normalisation, hermitian matrix, number of factors *)
Herm(M) == MEq(M, MAdj(M))
Put(t, M, k, al, w) == toks' = Append(toks, t) /\ reg' = Append(reg, [M |-> MNorm(M), k |-> k, al |-> al, h |-> Herm(M), w |-> w])
Room(M, w) == ~ MBig(M, Bound) /\ M.sc <= 6 /\ w <= 4
Rev(fs) == [i \in 1..Len(fs) |-> fs[Len(fs) + 1 - i]]
(* factor i acts on qubit i of the operand: bit i - 1 of the value *)
Str(fs) == Kron(Rev(fs))
Half(M) == MScale(GOne, 1, M)
HermPart(M) == Half(MAdd(M, MAdj(M)))
Sum(s, M(_)) == FoldSet(LAMBDA i, a : MAdd(a, M(s[i])), MZero(N), 1..Len(s))
PauliS == {"I", "X", "Y", "Z"}
AnyS == PauliS \cup {"A", "C", "P0", "P1"}
RECURSIVE PickTerms(_, _, _)
PickTerms(m, S, C) == IF m = 0 THEN {<<>>} ELSE UNION {{<<[fs |-> f, c |-> c]>> \o r : r \in PickTerms(m - 1, S, C)} : f \in PickSeq(S, n), c \in Pick(C)}
Reals == IF Tiny THEN {<<1, 0>>, <<-2, 0>>} ELSE {<<1, 0>>, <<-1, 0>>, <<2, 0>>, <<3, 0>>, <<-2, 0>>}
AllDiff(ts) == \A i, j \in 1..Len(ts) : i # j => ts[i].fs # ts[j].fs
Size(ts) == FoldSet(LAMBDA i, a : a + AbsI(ts[i].c[1]), 0, 1..Len(ts))
TermM(t) == MScale(t.c, 0, Str(t.fs))
Oper == \E m \in Pick(IF Tiny THEN {1, 2} ELSE 1..4), S \in Pick(IF Tiny THEN {PauliS} ELSE {PauliS, AnyS}) : \E ts \in PickTerms(m, S, Reals) :
        LET M == HermPart(Sum(ts, TermM)) IN
        IF ~ AllDiff(ts) \/ MIsZero(M) THEN UNCHANGED vars ELSE Put([t |-> "oper", ts |-> ts], M, 1, IF S = PauliS THEN Size(ts) ELSE 0, 1)
RECURSIVE PickRows(_, _)
PickRows(m, k) == IF m = 0 THEN {<<>>} ELSE UNION {{<<r>> \o s : s \in PickRows(m - 1, k)} : r \in PickSeq({<<0, 0>>, <<1, 0>>, <<-2, 0>>, <<0, 1>>, <<2, -1>>}, k)}
Array == \E rows \in PickRows(N, N), h \in Pick({TRUE, FALSE}) :
         LET A == [sc |-> 0, m |-> rows] G == MAdd(A, MAdj(A)) IN
         IF MIsZero(G) THEN UNCHANGED vars ELSE Put([t |-> "array", A |-> IF h THEN G ELSE A], IF h THEN G ELSE Half(G), 1, 0, 1)
Lcu == \E m \in Pick(1..4), z \in Pick({1, 2}) : \E ts \in PickTerms(m, PauliS, IF z = 1 THEN Reals ELSE Reals \cup {<<0, 1>>, <<1, 1>>, <<0, -2>>}) :
       IF m = 1 /\ z = 2 THEN UNCHANGED vars ELSE
       Put([t |-> "lcu", ts |-> ts], Sum(ts, TermM), 1, IF z = 1 THEN Size(ts) ELSE 0, 1)
Eye == \E d \in Pick((1 - N)..(N - 1)) : Put([t |-> "eye", d |-> d], [sc |-> 0, m |-> [i \in 1..N |-> [j \in 1..N |-> IF j - i = d THEN GOne ELSE GZero]]], 1, 1, 1)
Ket(l, r) == [sc |-> 0, m |-> [i \in 1..N |-> [j \in 1..N |-> IF i = l + 1 /\ j = r + 1 THEN GOne ELSE GZero]]]
Proj == \E l \in Pick(0..(N - 1)), r \in Pick(0..(N - 1)), o \in Pick({"ket", "proj", "kernel"}) :
        Put([t |-> o, l |-> l, r |-> r], CASE o = "ket" -> Ket(l, r) [] o = "proj" -> Ket(l, l) [] OTHER -> MSub(MId(N), Ket(l, l)), 1, 1, 1)

L == Len(reg)
(* operands of transformations; profile "prod" transforms the last compound *)
Args == IF Profile = "prod" THEN {L} ELSE 1..L
Lim == IF Profile = "prod" THEN 14 ELSE 8
Sz(r) == P2(n * r.k)
MKron(A, B) == LET d == Dim(A) IN
  [sc |-> A.sc + B.sc, m |-> [i \in 1..(d * Dim(B)) |-> [j \in 1..(d * Dim(B)) |->
      GMul(A.m[((i - 1) % d) + 1][((j - 1) % d) + 1], B.m[((i - 1) \div d) + 1][((j - 1) \div d) + 1])]]]
Bin == \E o \in PickW(IF Profile = "prod" THEN <<"add", "sub", "mul", "mul", "mul">> ELSE <<"add", "add", "sub", "sub", "mul", "mul", "kron">>), a \in Pick({L}), b \in Pick(1..L), f \in Pick({TRUE, FALSE}) :
       LET x == IF f THEN a ELSE b y == IF f THEN b ELSE a P == reg[x] Q == reg[y] IN
       IF P.w + Q.w > 4 \/ (o = "kron" /\ n * (P.k + Q.k) > 3) \/ (o # "kron" /\ P.k # Q.k) THEN UNCHANGED vars ELSE
       LET M == CASE o = "add" -> MAdd(P.M, Q.M) [] o = "sub" -> MSub(P.M, Q.M) [] o = "mul" -> MMul(P.M, Q.M) [] o = "kron" -> MKron(P.M, Q.M) IN
       IF ~ Room(M, 0) THEN UNCHANGED vars ELSE
       Put([t |-> o, a |-> x, b |-> y], M, IF o = "kron" THEN P.k + Q.k ELSE P.k, IF P.al = 0 \/ Q.al = 0 THEN 0 ELSE IF o \in {"add", "sub"} THEN P.al + Q.al ELSE P.al * Q.al, P.w + Q.w)
Un == \E o \in Pick({"neg", "dag", "scal", "walk1"}), a \in Pick(1..L), c \in Pick({<<2, 0>>, <<-1, 0>>, <<-3, 0>>, <<-1, 1>>, <<3, 1>>}) :
      LET P == reg[a]
          M == CASE o = "neg" -> MScale(<<-1, 0>>, 0, P.M) [] o = "dag" -> MAdj(P.M) [] o = "scal" -> MScale(<<c[1], 0>>, c[2], P.M) [] o = "walk1" -> P.M IN
      IF ~ Room(M, P.w) \/ (o = "walk1" /\ ~ P.h) THEN UNCHANGED vars ELSE Put([t |-> o, a |-> a, c |-> c], M, P.k, IF o \in {"neg", "dag"} THEN P.al ELSE 0, P.w)
(* walks and Chebyshev polynomials: al^k T_k(A / al) *)
Cheb(A, al, k) == LET I == MId(Dim(A)) Sq == MMul(A, A) IN
                  CASE k = 1 -> A [] k = 2 -> MSub(MScale(<<2, 0>>, 0, Sq), MScale(<<al * al, 0>>, 0, I))
                    [] k = 3 -> MSub(MScale(<<4, 0>>, 0, MMul(Sq, A)), MScale(<<3 * al * al, 0>>, 0, A))
Walk == \E o \in Pick({"walk", "cheb"}), a \in Pick(Args), k \in Pick(1..3) :
        LET P == reg[a] IN
        IF P.al = 0 \/ ~ P.h \/ P.w > 2 \/ MBig(P.M, Lim + 2) \/ P.M.sc > 2 THEN UNCHANGED vars ELSE
        LET M == Cheb(P.M, P.al, k) IN
        IF ~ Room(M, P.w) THEN UNCHANGED vars ELSE Put([t |-> o, a |-> a, k |-> k, al |-> P.al], M, P.k, 0, P.w + 1)
(* polynomials of hermitian matrices; odd and even ones also as singular value or eigenvalue transformations *)
PolyM(A, p) == MAdd(MScale(p[1], 0, MId(Dim(A))), MAdd(MScale(p[2], 0, A), MAdd(MScale(p[3], 0, MMul(A, A)), MScale(p[4], 0, MMul(A, MMul(A, A))))))
Z0 == <<0, 0>>
Poly == \E a \in Pick(Args), o \in Pick({"poly", "pcheb", "svt", "tcheb"}), d \in Pick({"all", "odd", "even"}), k \in Pick(1..3), q \in PickSeq({<<1, 0>>, <<-1, 0>>, <<2, 0>>, <<0, 0>>}, 4) :
        LET P == reg[a] A == P.M
            e == IF o = "svt" /\ d = "all" THEN "odd" ELSE d
            p == CASE e = "all" -> <<q[1], q[2], q[3], Z0>> [] e = "odd" -> <<Z0, q[2], Z0, q[4]>> [] OTHER -> <<q[1], Z0, q[3], Z0>>
            (* coefficients in powers of A *)
            r == CASE o = "pcheb" -> <<GSub(p[1], p[3]), GSub(p[2], GScale(3, p[4])), GScale(2, p[3]), GScale(4, p[4])>>
                   [] o = "tcheb" -> (CASE k = 1 -> <<Z0, GOne, Z0, Z0>> [] k = 2 -> <<<<-1, 0>>, Z0, <<2, 0>>, Z0>> [] k = 3 -> <<Z0, <<-3, 0>>, Z0, <<4, 0>>>>)
                   [] OTHER -> p IN
        IF ~ P.h \/ P.w > 2 \/ MBig(A, Lim) \/ A.sc > 1 \/ (o # "tcheb" /\ p[2] = Z0 /\ p[3] = Z0 /\ p[4] = Z0) THEN UNCHANGED vars ELSE
        LET M == PolyM(A, r) IN
        IF ~ Room(M, P.w) \/ MIsZero(M) THEN UNCHANGED vars ELSE Put([t |-> o, a |-> a, p |-> p, k |-> k, d |-> e], M, P.k, 0, 4)

Leaf == \E t \in PickW(IF Tiny THEN <<"oper", "proj">> ELSE <<"oper", "oper", "oper", "array", "lcu", "lcu", "eye", "proj">>) :
        CASE t = "oper" -> Oper [] t = "array" -> Array [] t = "lcu" -> Lcu [] t = "eye" -> Eye [] t = "proj" -> Proj
Acts == IF Tiny THEN <<"bin", "un">> ELSE IF Profile = "poly" THEN <<"walk", "poly", "poly", "poly", "un">>
        ELSE IF Profile = "prod" THEN (IF L = 1 THEN <<"leaf">> ELSE IF L = 2 THEN <<"bin">> ELSE <<"walk", "poly">>) ELSE <<"leaf", "bin", "bin", "bin", "un", "un", "walk">>
Full == L >= len
Step == phase = "build" /\ ~ Full /\ UNCHANGED <<n, len, phase>> /\ IF reg = <<>> THEN Leaf ELSE
        \E t \in PickW(Acts) : CASE t = "leaf" -> Leaf [] t = "bin" -> Bin [] t = "un" -> Un [] t = "walk" -> Walk [] t = "poly" -> Poly
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<n, reg, toks, len>>
        /\ CSVWrite("%1$s", <<ToJson([n |-> n, toks |-> toks, k |-> reg[L].k, M |-> reg[L].M])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
(* the tensor product multiplies factor by factor; hermitian flags are right *)
Laws == phase = "build" => \A a, b \in 1..L : /\ (reg[a].k = 1 /\ reg[b].k = 1 => MEq(MMul(MKron(reg[a].M, reg[b].M), MKron(reg[b].M, reg[a].M)), MKron(MMul(reg[a].M, reg[b].M), MMul(reg[b].M, reg[a].M))))
                                               /\ (reg[a].h <=> MEq(reg[a].M, MAdj(reg[a].M)))
=============================================================================
