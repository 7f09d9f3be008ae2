------------------------------ MODULE FermiAlg -------------------------------
(***************************************************************************)
(* Algebra of fermionic operators.  A ladder operator on mode i acts on    *)
(* occupation states with the sign of the number of occupied modes below   *)
(* i; registers hold the exact matrices on n modes.                        *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS MaxN, MinLen, MaxLen, Profile, OutFile
VARIABLES n, reg, toks, len, phase
vars == <<n, reg, toks, len, phase>>
Tiny == Profile = "tiny"
Coeffs == IF Tiny THEN {<<1, 0>>} ELSE IF Profile = "real" THEN {<<1, 0>>, <<-1, 0>>, <<2, 0>>, <<3, 0>>} ELSE {<<1, 0>>, <<-1, 0>>, <<2, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<-1, 2>>, <<3, 0>>}
Bound == 3000

(* occupation of mode i (0 is the most significant position) *)
Occ(x, i) == Bt(x, n - 1 - i)
Below(x, i) == FoldSet(LAMBDA j, a : a + Occ(x, j), 0, 0..(i - 1))
(* <<state, sign>>, sign 0 where it vanishes *)
Lad(s, l) == LET x == s[1] i == l[1] IN
             IF s[2] = 0 \/ Occ(x, i) = l[2] THEN <<x, 0>>
             ELSE <<IF l[2] = 1 THEN x + P2(n - 1 - i) ELSE x - P2(n - 1 - i), IF Below(x, i) % 2 = 1 THEN -s[2] ELSE s[2]>>
(* the rightmost factor acts first *)
RECURSIVE Act(_, _)
Act(ls, s) == IF ls = <<>> THEN s ELSE Act(SubSeq(ls, 1, Len(ls) - 1), Lad(s, ls[Len(ls)]))
N == P2(n)
TermM(ls) == LET im == [j \in 1..N |-> Act(ls, <<j - 1, 1>>)] IN
             [sc |-> 0, m |-> [i \in 1..N |-> [j \in 1..N |-> IF im[j][2] # 0 /\ im[j][1] = i - 1 THEN <<im[j][2], 0>> ELSE GZero]]]

Init == n = 0 /\ reg = <<>> /\ toks = <<>> /\ len = 0 /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "build" /\ \E k \in Pick(1..MaxN), l \in Pick(MinLen..MaxLen) : n' = k /\ len' = l
         /\ UNCHANGED <<reg, toks>>
Tok(t, M) == toks' = Append(toks, t) /\ reg' = Append(reg, M)
Set(t, a, M) == toks' = Append(toks, t) /\ reg' = [reg EXCEPT ![a] = M]
Rest == UNCHANGED <<n, len, phase>>
PickL(d) == PickSeq({<<i, c>> : i \in 0..(n - 1), c \in {0, 1}}, d)

New == \E d \in PickW(IF Tiny THEN <<1, 2>> ELSE <<0, 1, 1, 2, 2, 2, 3, 3, 4, 5>>), c \in Pick(Coeffs) : \E ls \in PickL(d) : Tok([t |-> "term", ls |-> ls, c |-> c], MScale(c, 0, TermM(ls)))
Bin == \E o \in Pick({"add", "sub", "mul"}), a \in Pick(1..Len(reg)), b \in Pick(1..Len(reg)) :
       LET R == CASE o = "add" -> MAdd(reg[a], reg[b]) [] o = "sub" -> MSub(reg[a], reg[b]) [] o = "mul" -> MMul(reg[a], reg[b]) IN
       IF MBig(R, Bound) \/ R.sc > 6 THEN UNCHANGED vars ELSE Tok([t |-> o, a |-> a, b |-> b], R)
Scal == \E o \in Pick({"smul", "muls", "sadd", "adds", "ssub", "subs", "neg"}), a \in Pick(1..Len(reg)), c \in Pick(Coeffs) :
       LET S == MScale(c, 0, MId(N))
           R == CASE o \in {"smul", "muls"} -> MScale(c, 0, reg[a]) [] o \in {"sadd", "adds"} -> MAdd(reg[a], S)
                  [] o = "ssub" -> MSub(S, reg[a]) [] o = "subs" -> MSub(reg[a], S) [] o = "neg" -> MScale(<<-1, 0>>, 0, reg[a]) IN
       IF MBig(R, Bound) THEN UNCHANGED vars ELSE Tok([t |-> o, a |-> a, c |-> c], R)
(* reduceh keeps the hermitian part only; the token carries it *)
Herm(M) == MScale(GOne, 1, MAdd(M, MAdj(M)))
Un == \E o \in PickW(<<"adj", "herm", "reduce", "reduce", "reduceh", "thr">>), a \in Pick(1..Len(reg)) :
      LET R == CASE o = "adj" -> MAdj(reg[a]) [] o \in {"herm", "reduceh"} -> Herm(reg[a]) [] OTHER -> reg[a] IN
      IF R.sc > 6 THEN UNCHANGED vars ELSE Tok([t |-> o, a |-> a], R)
InPl == \E o \in Pick({"iadd", "isub", "imul"}), a \in Pick(1..Len(reg)), b \in Pick(1..Len(reg)) :
       LET R == CASE o = "iadd" -> MAdd(reg[a], reg[b]) [] o = "isub" -> MSub(reg[a], reg[b]) [] o = "imul" -> MMul(reg[a], reg[b]) IN
       IF MBig(R, Bound) \/ R.sc > 6 THEN UNCHANGED vars ELSE Set([t |-> o, a |-> a, b |-> b], a, R)
InPlS == \E o \in Pick({"iadds", "isubs", "imuls"}), a \in Pick(1..Len(reg)), c \in Pick(Coeffs) :
       LET S == MScale(c, 0, MId(N)) R == CASE o = "iadds" -> MAdd(reg[a], S) [] o = "isubs" -> MSub(reg[a], S) [] o = "imuls" -> MScale(c, 0, reg[a]) IN
       IF MBig(R, Bound) THEN UNCHANGED vars ELSE Set([t |-> o, a |-> a, c |-> c], a, R)
(* the same term with its factors permuted: equal up to the sign of the permutation when the modes differ *)
Swap == n >= 2 /\ \E ls \in UNION {PickL(d) : d \in Pick(2..3)} :
        IF \E i \in 1..Len(ls) : \E j \in 1..(i - 1) : ls[i][1] = ls[j][1] THEN UNCHANGED vars
        ELSE \E i \in Pick(1..(Len(ls) - 1)) :
             LET g == [ls EXCEPT ![i] = ls[i + 1], ![i + 1] = ls[i]] IN
             /\ MEq(TermM(ls), MScale(<<-1, 0>>, 0, TermM(g)))
             /\ toks' = Append(toks, [t |-> "eq", f |-> ls, g |-> g]) /\ UNCHANGED reg

Acts == IF Tiny THEN <<"new", "bin">> ELSE <<"new", "new", "new", "new", "bin", "bin", "bin", "scal", "un", "un", "inpl", "inpls", "eq">>
Full == Len(toks) >= len
Step == phase = "build" /\ ~ Full /\ Rest /\ IF reg = <<>> THEN New ELSE \E t \in PickW(Acts) :
  CASE t = "new" -> New [] t = "bin" -> Bin [] t = "scal" -> Scal [] t = "un" -> Un [] t = "inpl" -> InPl [] t = "inpls" -> InPlS [] t = "eq" -> IF n >= 2 THEN Swap ELSE New
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<n, reg, toks, len>>
        /\ CSVWrite("%1$s", <<ToJson([n |-> n, toks |-> toks, reg |-> reg])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
(* canonical anticommutation relations *)
Anti(M, B) == MAdd(MMul(M, B), MMul(B, M))
CAR == phase = "build" => \A i, j \in 0..(n - 1) :
         /\ MEq(Anti(TermM(<<<<i, 0>>>>), TermM(<<<<j, 1>>>>)), IF i = j THEN MId(N) ELSE MZero(N))
         /\ MIsZero(Anti(TermM(<<<<i, 0>>>>), TermM(<<<<j, 0>>>>)))
         /\ MEq(MAdj(TermM(<<<<i, 0>>>>)), TermM(<<<<i, 1>>>>))
=============================================================================
