-------------------------------- MODULE OpGen --------------------------------
(***************************************************************************)
(* Choice of operations.  With Sampling = TRUE every choice is one random  *)
(* element (TLC -simulate, reproducible from -seed); with FALSE it is the  *)
(* whole set, so the same specification is also explored exhaustively.     *)
(* Always use the result as a quantifier bound:  \E x \in Pick(S) : ...    *)
(***************************************************************************)
EXTENDS QSem, TLC

CONSTANT Sampling
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

(* draw from a sequence: repeats are weights *)
PickW(seq) == IF Sampling THEN {seq[i] : i \in {RandomElement(1..Len(seq))}}
              ELSE {seq[i] : i \in 1..Len(seq)}

(* tuples of m distinct elements of S *)
RECURSIVE PickTuple(_, _)
PickTuple(S, m) == IF m = 0 THEN {<<>>}
                   ELSE UNION {{<<x>> \o t : t \in PickTuple(S \ {x}, m - 1)} : x \in Pick(S)}

PickBits(m) == IF m = 0 THEN {<<>>} ELSE Pick([1..m -> {0, 1}])

Fixed1 == {"x", "y", "z", "h", "s", "s_dg", "t", "t_dg", "sx", "sx_dg"}
Perm1  == {"x", "y", "z", "s", "s_dg", "t", "t_dg"}

(* angles; Pyth = TRUE admits the irrational ones *)
AngC == {<<k, 0>> : k \in {-5, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 9}}
AngP == {<<0, 1>>, <<0, -1>>, <<1, 1>>, <<2, -1>>, <<3, 1>>, <<4, -1>>}
Ang(pyth) == IF pyth THEN AngC \cup AngP ELSE AngC

(* number of irrational angles in a program; bounded so that the 32-bit    *)
(* integers of TLC never overflow                                          *)
RECURSIVE PythOf(_)
PythOf(ps) == IF ps = <<>> THEN 0 ELSE Abs(Head(ps)[2]) + PythOf(Tail(ps))
RECURSIVE PythCount(_)
PythCount(ops) == IF ops = <<>> THEN 0 ELSE PythOf(Head(ops).p) + PythCount(Tail(ops))

(* one operation of the given kind on the qubits Q *)
PickOp(kind, Q, pyth) ==
  CASE kind = "fixed" -> {Op(g, <<>>, t, <<>>, <<>>) : g \in Pick(Fixed1), t \in PickTuple(Q, 1)}
    [] kind = "perm"  -> {Op(g, <<>>, t, <<>>, <<>>) : g \in Pick(Perm1), t \in PickTuple(Q, 1)}
    [] kind = "h"     -> {Op("h", <<>>, t, <<>>, <<>>) : t \in PickTuple(Q, 1)}
    [] kind = "x"     -> {Op("x", <<>>, t, <<>>, <<>>) : t \in PickTuple(Q, 1)}
    [] kind = "rot"   -> {Op(g, <<a>>, t, <<>>, <<>>) :
                            g \in Pick({"rx", "ry", "rz", "p"}), a \in Pick(Ang(pyth)), t \in PickTuple(Q, 1)}
    [] kind = "phase" -> {Op(g, <<a>>, t, <<>>, <<>>) :
                            g \in Pick({"rz", "p"}), a \in Pick(Ang(pyth)), t \in PickTuple(Q, 1)}
    [] kind = "gphase" -> {Op("gphase", <<a>>, t, <<>>, <<>>) : a \in Pick(Ang(pyth)), t \in PickTuple(Q, 1)}
    [] kind = "u3"    -> {Op("u3", <<a, b, c>>, t, <<>>, <<>>) :
                            a \in Pick(Ang(pyth)), b \in Pick(Ang(FALSE)), c \in Pick(Ang(FALSE)), t \in PickTuple(Q, 1)}
    [] kind = "r"     -> {Op("r", <<a, b>>, t, <<>>, <<>>) :
                            a \in Pick(Ang(pyth)), b \in Pick(Ang(FALSE)), t \in PickTuple(Q, 1)}
    [] kind = "c1"    -> {Op(g, <<>>, <<t[2]>>, <<t[1]>>, <<1>>) :
                            g \in PickW(<<"x", "x", "x", "y", "z", "z">>), t \in PickTuple(Q, 2)}
    [] kind = "cx"    -> {Op("x", <<>>, <<t[2]>>, <<t[1]>>, <<1>>) : t \in PickTuple(Q, 2)}
    [] kind = "cp"    -> {Op("p", <<a>>, <<t[2]>>, <<t[1]>>, <<1>>) : a \in Pick(Ang(pyth)), t \in PickTuple(Q, 2)}
    [] kind = "crz"   -> {Op("rz", <<a>>, <<t[2]>>, <<t[1]>>, <<1>>) : a \in Pick(Ang(pyth)), t \in PickTuple(Q, 2)}
    [] kind = "swap"  -> {Op("swap", <<>>, t, <<>>, <<>>) : t \in PickTuple(Q, 2)}
    [] kind = "rzz"   -> {Op(g, <<a>>, t, <<>>, <<>>) : g \in Pick({"rzz", "rxx"}), a \in Pick(Ang(pyth)), t \in PickTuple(Q, 2)}
    [] kind = "xxyy"  -> {Op("xxyy", <<a, b>>, t, <<>>, <<>>) :
                            a \in Pick(Ang(pyth)), b \in Pick(Ang(FALSE)), t \in PickTuple(Q, 2)}
    [] kind = "mcx"   -> UNION {{Op("x", <<>>, <<t[Len(t)]>>, SubSeq(t, 1, Len(t)-1), s) : s \in PickBits(Len(t)-1)} :
                            t \in UNION {PickTuple(Q, n) : n \in Pick(3..(IF Cardinality(Q) < 5 THEN Cardinality(Q) ELSE 5))}}
    [] kind = "mcz"   -> UNION {{Op("z", <<>>, <<t[Len(t)]>>, SubSeq(t, 1, Len(t)-1), s) : s \in PickBits(Len(t)-1)} :
                            t \in UNION {PickTuple(Q, n) : n \in Pick(2..(IF Cardinality(Q) < 4 THEN Cardinality(Q) ELSE 4))}}
    [] kind = "mcp"   -> UNION {{Op("p", <<a>>, <<t[Len(t)]>>, SubSeq(t, 1, Len(t)-1), s) : s \in PickBits(Len(t)-1), a \in Pick(Ang(pyth))} :
                            t \in UNION {PickTuple(Q, n) : n \in Pick(2..(IF Cardinality(Q) < 4 THEN Cardinality(Q) ELSE 4))}}
    [] kind = "ctrl"  -> \* any one-qubit gate under any number of controls and any control state
                         UNION {{Op(g, IF g \in {"rx","ry","rz","p","gphase"} THEN <<a>>
                                       ELSE IF g = "u3" THEN <<a, <<1,0>>, <<-3,0>>>> ELSE <<>>,
                                    <<t[Len(t)]>>, SubSeq(t, 1, Len(t)-1), s) :
                                    g \in Pick(Fixed1 \cup {"rx","ry","rz","p","gphase","u3"}),
                                    s \in PickBits(Len(t)-1), a \in Pick(Ang(pyth))} :
                            t \in UNION {PickTuple(Q, n) : n \in Pick(2..(IF Cardinality(Q) < 4 THEN Cardinality(Q) ELSE 4))}}
    [] kind = "barrier" -> {Op("barrier", <<>>, t, <<>>, <<>>) : t \in UNION {PickTuple(Q, n) : n \in Pick(1..Cardinality(Q))}}
    [] kind = "id"    -> {Op("id", <<>>, t, <<>>, <<>>) : t \in PickTuple(Q, 1)}
=============================================================================
