--------------------------------- MODULE Mat ---------------------------------
(***************************************************************************)
(* Exact matrices: entries are Gaussian integers <<re, im>>, a matrix      *)
(* record carries a common denominator 2^sc.                               *)
(***************************************************************************)
EXTENDS Val

GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
GMul(a, b) == <<(a[1] * b[1]) - (a[2] * b[2]), (a[1] * b[2]) + (a[2] * b[1])>>
GConj(a) == <<a[1], -a[2]>>
GScale(k, a) == <<k * a[1], k * a[2]>>
GZero == <<0, 0>>
GOne == <<1, 0>>

Dim(M) == Len(M.m)
MSup(M, sc) == [sc |-> sc, m |-> [i \in 1..Dim(M) |-> [j \in 1..Dim(M) |-> GScale(P2(sc - M.sc), M.m[i][j])]]]
MLin(M, B, Op(_, _)) == LET sc == MaxI(M.sc, B.sc) X == MSup(M, sc) Y == MSup(B, sc) IN
                        [sc |-> sc, m |-> [i \in 1..Dim(M) |-> [j \in 1..Dim(M) |-> Op(X.m[i][j], Y.m[i][j])]]]
MAdd(M, B) == MLin(M, B, GAdd)
MSub(M, B) == MLin(M, B, GSub)
MScale(c, sc, M) == [sc |-> M.sc + sc, m |-> [i \in 1..Dim(M) |-> [j \in 1..Dim(M) |-> GMul(c, M.m[i][j])]]]
MDot(r, M, j) == FoldSet(LAMBDA k, a : IF r[k] = GZero THEN a ELSE GAdd(a, GMul(r[k], M.m[k][j])), GZero, 1..Len(r))
MMul(M, B) == [sc |-> M.sc + B.sc, m |-> [i \in 1..Dim(M) |-> [j \in 1..Dim(M) |-> MDot(M.m[i], B, j)]]]
MAdj(M) == [sc |-> M.sc, m |-> [i \in 1..Dim(M) |-> [j \in 1..Dim(M) |-> GConj(M.m[j][i])]]]
MId(N) == [sc |-> 0, m |-> [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN GOne ELSE GZero]]]
MZero(N) == [sc |-> 0, m |-> [i \in 1..N |-> [j \in 1..N |-> GZero]]]
MEq(M, B) == LET sc == MaxI(M.sc, B.sc) IN MSup(M, sc).m = MSup(B, sc).m
MBig(M, b) == \E i, j \in 1..Dim(M) : AbsI(M.m[i][j][1]) > b \/ AbsI(M.m[i][j][2]) > b
(* lowest terms *)
RECURSIVE MNorm(_)
MNorm(M) == IF M.sc = 0 \/ \E i, j \in 1..Dim(M) : M.m[i][j][1] % 2 = 1 \/ M.m[i][j][2] % 2 = 1 THEN M
            ELSE MNorm([sc |-> M.sc - 1, m |-> [i \in 1..Dim(M) |-> [j \in 1..Dim(M) |-> <<M.m[i][j][1] \div 2, M.m[i][j][2] \div 2>>]]])
MComm(M, B) == MSub(MMul(M, B), MMul(B, M))
MIsZero(M) == \A i, j \in 1..Dim(M) : M.m[i][j] = GZero

(* single qubit factors *)
Fac == [I |-> <<<<GOne, GZero>>, <<GZero, GOne>>>>, X |-> <<<<GZero, GOne>>, <<GOne, GZero>>>>,
        Y |-> <<<<GZero, <<0, -1>>>>, <<<<0, 1>>, GZero>>>>, Z |-> <<<<GOne, GZero>>, <<GZero, <<-1, 0>>>>>>,
        A |-> <<<<GZero, GOne>>, <<GZero, GZero>>>>, C |-> <<<<GZero, GZero>>, <<GOne, GZero>>>>,
        P0 |-> <<<<GOne, GZero>>, <<GZero, GZero>>>>, P1 |-> <<<<GZero, GZero>>, <<GZero, GOne>>>>]
(* product of factors, the first one most significant *)
Kron(fs) == LET n == Len(fs) N == P2(n) IN
  [sc |-> 0, m |-> [i \in 1..N |-> [j \in 1..N |->
     FoldSet(LAMBDA k, a : IF a = GZero THEN a ELSE GMul(a, Fac[fs[k]][Bt(i - 1, n - k) + 1][Bt(j - 1, n - k) + 1]), GOne, 1..n)]]]
=============================================================================
