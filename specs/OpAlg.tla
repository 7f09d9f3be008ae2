-------------------------------- MODULE OpAlg --------------------------------
(***************************************************************************)
(* Algebra of qubit operators: registers hold operators, every operation   *)
(* is the matrix operation of the same name.  Queries compare terms.       *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS MaxN, MinLen, MaxLen, Profile, OutFile
VARIABLES n, reg, toks, len, phase
vars == <<n, reg, toks, len, phase>>
Tiny == Profile = "tiny"
Names == IF Profile = "pauli" THEN {"I", "X", "Y", "Z"} ELSE {"I", "X", "Y", "Z", "A", "C", "P0", "P1"}
Coeffs == IF Tiny THEN {<<1, 0>>, <<0, -1>>} ELSE {<<1, 0>>, <<-1, 0>>, <<2, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<-1, 2>>, <<3, 0>>}
Bound == 3000

Init == n = 0 /\ reg = <<>> /\ toks = <<>> /\ len = 0 /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "build" /\ \E k \in Pick(1..MaxN), l \in Pick(MinLen..MaxLen) : n' = k /\ len' = l
         /\ UNCHANGED <<reg, toks>>
N == P2(n)
Tok(t, M) == toks' = Append(toks, t) /\ reg' = Append(reg, M)
Set(t, a, M) == toks' = Append(toks, t) /\ reg' = [reg EXCEPT ![a] = M]
Rest == UNCHANGED <<n, len, phase>>
PickTerm(k) == IF Tiny THEN {<<x>> : x \in Names} ELSE PickSeq(Names, k)

New == \E fs \in PickTerm(n), c \in Pick(Coeffs) : Tok([t |-> "term", fs |-> fs, c |-> c], MScale(c, 0, Kron(fs)))
Bin == \E o \in Pick({"add", "sub", "mul", "comm"}), a \in Pick(1..Len(reg)), b \in Pick(1..Len(reg)) :
       LET R == CASE o = "add" -> MAdd(reg[a], reg[b]) [] o = "sub" -> MSub(reg[a], reg[b]) [] o = "mul" -> MMul(reg[a], reg[b]) [] o = "comm" -> MComm(reg[a], reg[b]) IN
       IF MBig(R, Bound) \/ R.sc > 6 THEN UNCHANGED vars ELSE Tok([t |-> o, a |-> a, b |-> b], R)
Scal == \E o \in Pick({"smul", "muls", "sadd", "adds", "ssub", "subs", "half"}), a \in Pick(1..Len(reg)), c \in Pick(Coeffs) :
       LET S == MScale(c, 0, MId(N))
           R == CASE o \in {"smul", "muls"} -> MScale(c, 0, reg[a]) [] o \in {"sadd", "adds"} -> MAdd(reg[a], S)
                  [] o = "ssub" -> MSub(S, reg[a]) [] o = "subs" -> MSub(reg[a], S) [] o = "half" -> MScale(GOne, 1, reg[a]) IN
       IF MBig(R, Bound) \/ R.sc > 6 THEN UNCHANGED vars ELSE Tok([t |-> o, a |-> a, c |-> c], R)
Un == \E o \in Pick({"adj", "herm", "pauli", "matrix", "numpy", "copy", "thr"}), a \in Pick(1..Len(reg)) :
      IF o = "numpy" /\ n > 2 THEN UNCHANGED vars ELSE
      LET R == CASE o = "adj" -> MAdj(reg[a]) [] o = "herm" -> MScale(GOne, 1, MAdd(reg[a], MAdj(reg[a]))) [] OTHER -> reg[a] IN
      IF R.sc > 6 THEN UNCHANGED vars ELSE Tok([t |-> o, a |-> a], R)
Pow == \E a \in Pick(1..Len(reg)), k \in Pick(1..3) :
       LET R == IF k = 1 THEN reg[a] ELSE IF k = 2 THEN MMul(reg[a], reg[a]) ELSE MMul(MMul(reg[a], reg[a]), reg[a]) IN
       IF MBig(reg[a], 12) \/ R.sc > 6 THEN UNCHANGED vars ELSE Tok([t |-> "pow", a |-> a, k |-> k], R)
InPl == \E o \in Pick({"iadd", "isub", "imul"}), a \in Pick(1..Len(reg)), b \in Pick(1..Len(reg)) :
       LET R == CASE o = "iadd" -> MAdd(reg[a], reg[b]) [] o = "isub" -> MSub(reg[a], reg[b]) [] o = "imul" -> MMul(reg[a], reg[b]) IN
       IF MBig(R, Bound) \/ R.sc > 6 THEN UNCHANGED vars ELSE Set([t |-> o, a |-> a, b |-> b], a, R)
InPlS == \E o \in Pick({"iadds", "isubs", "imuls"}), a \in Pick(1..Len(reg)), c \in Pick(Coeffs) :
       LET S == MScale(c, 0, MId(N)) R == CASE o = "iadds" -> MAdd(reg[a], S) [] o = "isubs" -> MSub(reg[a], S) [] o = "imuls" -> MScale(c, 0, reg[a]) IN
       IF MBig(R, Bound) THEN UNCHANGED vars ELSE Set([t |-> o, a |-> a, c |-> c], a, R)
(* relations between two terms *)
Pauli(fs) == \A i \in 1..Len(fs) : fs[i] \in {"I", "X", "Y", "Z"}
Rel == \E f \in PickTerm(n), g \in PickTerm(n) :
       /\ toks' = Append(toks, [t |-> "rel", f |-> f, g |-> g, commute |-> MIsZero(MComm(Kron(f), Kron(g))), pauli |-> Pauli(f) /\ Pauli(g),
                                qw |-> \A i \in 1..n : MIsZero(MComm(Kron(<<f[i]>>), Kron(<<g[i]>>))),
                                meet |-> \E i \in 1..n : f[i] # "I" /\ g[i] # "I"])
       /\ UNCHANGED reg

Acts == IF Tiny THEN <<"new", "bin", "rel">> ELSE <<"new", "new", "new", "bin", "bin", "bin", "scal", "un", "un", "pow", "inpl", "inpls", "rel">>
Full == Len(toks) >= len
Step == phase = "build" /\ ~ Full /\ Rest /\ IF reg = <<>> THEN New ELSE \E t \in PickW(Acts) :
  CASE t = "new" -> New [] t = "bin" -> Bin [] t = "scal" -> Scal [] t = "un" -> Un [] t = "pow" -> Pow [] t = "inpl" -> InPl [] t = "inpls" -> InPlS [] t = "rel" -> Rel
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<n, reg, toks, len>>
        /\ CSVWrite("%1$s", <<ToJson([n |-> n, toks |-> toks, reg |-> reg])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
(* the adjoint reverses products, commutators are antisymmetric *)
Laws == phase = "build" => \A a, b \in 1..Len(reg) : /\ MEq(MAdj(MMul(reg[a], reg[b])), MMul(MAdj(reg[b]), MAdj(reg[a])))
                                                     /\ MEq(MComm(reg[a], reg[b]), MScale(<<-1, 0>>, 0, MComm(reg[b], reg[a])))
=============================================================================
