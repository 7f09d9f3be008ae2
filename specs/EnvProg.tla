------------------------------- MODULE EnvProg -------------------------------
(***************************************************************************)
(* Programs with nested quantum environments and the gate sequence they    *)
(* stand for.  The behaviour of the specification writes the program from  *)
(* left to right; `stack` holds the open environments, each with the gate  *)
(* sequence of its content so far, and closing an environment replaces the *)
(* content by its meaning:                                                 *)
(*   control   every gate under the controls (invert: unless they match)   *)
(*   cond      every gate under the patterns that satisfy the condition    *)
(*   invert    the adjoint                                                 *)
(*   conj      V . content . V^-1                                          *)
(*   iter      the content repeated                                        *)
(*   plain, wrap, gms   the content itself                                 *)
(* "local" steps allocate a variable inside the environment, compute into  *)
(* it, use it, uncompute and delete it (it is qubit n here).  "cust" steps  *)
(* call a function that brings its own controlled version b instead of a.  *)
(***************************************************************************)
EXTENDS OpGen, Sequences, SequencesExt, FiniteSetsExt, CSV, Json

CONSTANTS MinN, MaxN, MinLen, MaxLen, MaxDepth, MaxFlat, MaxPyth, Profile, OutFile

VARIABLES n, len, toks, stack, flat, phase
vars == <<n, len, toks, stack, flat, phase>>

Frame(k, c, s, i, v, p, r) == [kind |-> k, c |-> c, s |-> s, inv |-> i, v |-> v, pats |-> p, reps |-> r, ops |-> <<>>]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Meaning(f) ==
  CASE f.kind = "control" -> IF f.inv = 0 THEN WithCtrl(f.ops, f.c, f.s)
                             ELSE f.ops \o WithCtrl(InvSeq(f.ops), f.c, f.s)
    [] f.kind = "cond"    -> Concat([i \in 1..Len(f.pats) |-> WithCtrl(f.ops, f.c, f.pats[i])])
    [] f.kind = "invert"  -> InvSeq(f.ops)
    [] f.kind = "conj"    -> f.v \o f.ops \o InvSeq(f.v)
    [] f.kind = "iter"    -> Concat([i \in 1..f.reps |-> f.ops])
    [] OTHER              -> f.ops

(* the qubits that an instruction inside the open environments may use *)
Held(st) == UNION {{st[i].c[j] : j \in 1..Len(st[i].c)} : i \in 1..Len(st)}
Free == (0..(n-1)) \ Held(stack)

InCtrl == \E i \in 1..Len(stack) : stack[i].kind \in {"control", "cond"}
OnlyCtrl == \A i \in 1..Len(stack) : stack[i].kind = "control" /\ stack[i].inv = 0
InGms == Len(stack) > 0 /\ stack[Len(stack)].kind = "gms"

Tiny == Profile = "tiny"
GateKinds == IF Tiny THEN <<"x", "cx">>
             ELSE <<"fixed","fixed","h","rot","rot","phase","u3","c1","c1","c1","cx","cp","crz","swap","rzz","mcx","mcz",
                    "ctrl","ctrl","gphase","xxyy","barrier">>
StepKinds == IF Tiny THEN <<"gate","open","close">>
             ELSE <<"gate","gate","gate","gate","open","open","open","close","close","local","cust">>
EnvKinds == IF Tiny THEN <<"control", "invert", "cond">>
            ELSE <<"control","control","control","control","cond","cond","invert","invert","conj","conj","plain","wrap","iter","gms">>

Pyths == PythCount(flat) + FoldLeft(LAMBDA a, f : a + PythCount(f.ops) + PythCount(f.v), 0, stack)

KindOK(kd, Q) == /\ Q # {}
                 /\ kd \in {"c1","cx","cp","crz","swap","rzz","mcz","ctrl","xxyy"} => Cardinality(Q) >= 2
                 /\ kd = "mcx" => Cardinality(Q) >= 3

Push(ops, tok) ==
  /\ toks' = Append(toks, tok)
  /\ IF stack = <<>> THEN flat' = flat \o ops /\ UNCHANGED stack
     ELSE stack' = [stack EXCEPT ![Len(stack)].ops = @ \o ops] /\ UNCHANGED flat
  /\ UNCHANGED <<n, len, phase>>

Init == n = 0 /\ len = 0 /\ toks = <<>> /\ stack = <<>> /\ flat = <<>> /\ phase = "start"

(* a state with every amplitude different enough to notice any mix-up *)
Prep(k, q) == CASE k = 1 -> <<Gate("h", q)>>
                [] k = 2 -> <<Gate("h", q), Gate("t", q), Gate("h", q)>>
                [] k = 3 -> <<Gate("h", q), Gate("s", q), Op("ry", <<<<0, 1>>>>, <<q>>, <<>>, <<>>)>>
                [] k = 4 -> <<Gate("x", q)>>
                [] k = 5 -> <<Gate("h", q), Gate("t", q)>>
RECURSIVE Preps(_)
Preps(q) == IF q < 0 THEN {<<>>}
            ELSE {p \o Prep(k, q) : p \in Preps(q - 1), k \in PickW(IF Tiny THEN <<1>> ELSE <<1, 2, 2, 4, 5, 5>>)}

Start == /\ phase = "start"
         /\ \E a \in Pick(MinN..MaxN), l \in Pick(MinLen..MaxLen) :
              /\ n' = a /\ len' = l
              /\ \E p \in Preps(a - 1), k \in PickW(IF Tiny THEN <<0>> ELSE <<0, 1>>) :
                   LET pr == IF k = 1 THEN p \o <<Op("ry", <<<<0, 1>>>>, <<0>>, <<>>, <<>>)>> ELSE p
                   IN /\ flat' = pr
                      /\ toks' = [i \in 1..Len(pr) |-> [t |-> "gate", op |-> pr[i]]]
         /\ phase' = "build" /\ UNCHANGED stack

(* an iteration environment refuses content that creates variables without  *)
(* deleting them, which includes the truth values of conditions            *)
InIter == \E i \in 1..Len(stack) : stack[i].kind = "iter"

DoGate == \E kd \in PickW(IF InGms THEN <<"phase", "cp">> ELSE GateKinds) :
            IF ~KindOK(kd, Free) \/ (InIter /\ kd = "ctrl") THEN UNCHANGED vars
            ELSE \E o \in PickOp(kd, Free, Pyths < MaxPyth) : Push(<<o>>, [t |-> "gate", op |-> o])

ConjKinds == <<"h", "fixed", "rot", "c1", "cx", "mcx", "ctrl", "swap">>
Open(f) == /\ stack' = Append(stack, f)
           /\ toks' = Append(toks, [t |-> "open", kind |-> f.kind, c |-> f.c, s |-> f.s, inv |-> f.inv, v |-> f.v,
                                    pats |-> f.pats, reps |-> f.reps])
           /\ UNCHANGED <<n, len, flat, phase>>

DoOpen == \E k \in PickW(EnvKinds) :
  IF Len(stack) >= MaxDepth \/ InGms \/ (InIter /\ k = "cond") THEN UNCHANGED vars
  ELSE CASE k = "control" ->
              IF Cardinality(Free) < 2 THEN UNCHANGED vars
              ELSE \E m \in Pick(1..(IF Cardinality(Free) > 2 /\ ~InIter THEN 2 ELSE 1)), i \in PickW(<<0, 0, 0, 1>>) :
                   \E c \in PickTuple(Free, m), s \in PickBits(m) : Open(Frame("control", c, s, i, <<>>, <<>>, 0))
         [] k = "cond" ->
              IF Cardinality(Free) < 2 THEN UNCHANGED vars
              ELSE \E m \in Pick(1..(IF Cardinality(Free) > 2 THEN 2 ELSE 1)) :
                   \E c \in PickTuple(Free, m), S \in Pick((SUBSET [1..m -> {0, 1}]) \ {{}}) :
                     Open(Frame("cond", c, <<>>, 0, <<>>, SetToSeq(S), 0))
         [] k = "conj" ->
              \E m \in Pick(1..3) : \E k1 \in PickW(ConjKinds), k2 \in PickW(ConjKinds), k3 \in PickW(ConjKinds) :
                IF ~KindOK(k1, Free) \/ ~KindOK(k2, Free) \/ ~KindOK(k3, Free) THEN UNCHANGED vars
                ELSE \E o1 \in PickOp(k1, Free, FALSE), o2 \in PickOp(k2, Free, FALSE), o3 \in PickOp(k3, Free, FALSE) :
                       Open(Frame("conj", <<>>, <<>>, 0, SubSeq(<<o1, o2, o3>>, 1, m), <<>>, 0))
         [] k = "iter" -> \E r \in Pick(1..3), i \in PickW(<<0, 1>>) : Open(Frame("iter", <<>>, <<>>, i, <<>>, <<>>, r))
         [] OTHER -> Open(Frame(k, <<>>, <<>>, 0, <<>>, <<>>, 0))

DoClose ==
  IF stack = <<>> THEN UNCHANGED vars
  ELSE LET f == stack[Len(stack)]  ops == Meaning(f)  rest == SubSeq(stack, 1, Len(stack) - 1)
       IN /\ toks' = Append(toks, [t |-> "close"])
          /\ IF rest = <<>> THEN flat' = flat \o ops /\ stack' = <<>>
             ELSE stack' = [rest EXCEPT ![Len(rest)].ops = @ \o ops] /\ UNCHANGED flat
          /\ UNCHANGED <<n, len, phase>>

(* compute into a fresh qubit, use it, uncompute *)
DoLocal ==
  IF Cardinality(Free) < 2 \/ InGms THEN UNCHANGED vars
  ELSE \E m \in Pick(1..(Cardinality(Free) - 1)) :
       \E c \in PickTuple(Free, m), s \in PickBits(m) :
       \E t \in Pick(Free \ {c[i] : i \in 1..m}), g \in PickW(<<"x", "z", "y", "p">>) :
         LET V == <<Op("x", <<>>, <<n>>, c, s)>>
             W == <<Op(g, IF g = "p" THEN <<<<1, 0>>>> ELSE <<>>, <<t>>, <<n>>, <<1>>)>>
         IN Push(V \o W \o InvSeq(V), [t |-> "local", v |-> V, w |-> W, u |-> InvSeq(V)])

CustOps(Q) == \* x, z, p with at most one control: gates the replay can control without an environment
  UNION {{Op(g, IF g = "p" THEN <<<<a, 0>>>> ELSE <<>>, <<t[1]>>, SubSeq(t, 2, k), [i \in 1..(k-1) |-> 1]) :
            g \in PickW(<<"x", "z", "p">>), a \in Pick({1, 2, 3, -1})} : t \in PickTuple(Q, 2), k \in Pick({1, 2})}
DoCust ==
  IF Cardinality(Free) < 2 \/ InGms THEN UNCHANGED vars
  ELSE \E a1 \in CustOps(Free), a2 \in CustOps(Free), b1 \in CustOps(Free), b2 \in CustOps(Free) :
         LET A == <<a1, a2>>  B == IF OnlyCtrl THEN <<b1, b2>> ELSE A
         IN Push(IF InCtrl THEN B ELSE A, [t |-> "cust", a |-> A, b |-> B])

Step == /\ phase = "build" /\ Len(toks) < len
        /\ \E k \in PickW(StepKinds) :
             CASE k = "gate" -> DoGate [] k = "open" -> DoOpen [] k = "close" -> DoClose
               [] k = "local" -> DoLocal [] k = "cust" -> DoCust
Finish == /\ phase = "build" /\ Len(toks) >= len /\ stack # <<>> /\ DoClose
Final == Run(ZeroState, flat)
Emit == /\ phase = "build" /\ Len(toks) >= len /\ stack = <<>>
        /\ phase' = "done" /\ UNCHANGED <<n, len, toks, stack, flat>>
        /\ IF Len(flat) > MaxFlat \/ PythCount(flat) > MaxPyth THEN TRUE
           ELSE LET st == Final IN
             CSVWrite("%1$s", <<ToJson([n |-> n, toks |-> toks, gates |-> Len(flat), k |-> st.k, m |-> st.m,
               v |-> SetToSeq({<<x>> \o st.v[x] : x \in DOMAIN st.v})])>>, OutFile)
Next == Start \/ Step \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars

(* the specification's own sanity *)
Norms == phase = "build" /\ stack = <<>> => UnitNorm(Final)
(* environments restore what they allocated: qubit n is never left dirty *)
Clean == phase = "build" /\ stack = <<>> => \A x \in DOMAIN Final.v : Bit(x, n) = 0
(* inverting an environment's meaning is the meaning of the inverted content *)
Laws == \A i \in 1..Len(stack) :
          LET f == stack[i]  g == [f EXCEPT !.ops = InvSeq(@)]  T(o) == Run(Run(ZeroState, flat), o)
          IN f.kind \in {"control", "cond"} => EqState(Run(T(Meaning(f)), Meaning(g)), T(<<>>))
=============================================================================
