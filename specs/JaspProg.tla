------------------------------ MODULE JaspProg -------------------------------
(***************************************************************************)
(* Structured programs of the traced language: gates whose qubits follow a *)
(* loop index, loops with static or dynamic bounds, quantum control,       *)
(* inversion, conjugation, a subroutine, measurements into classical       *)
(* variables, resets, classical branches and computations, bounded while   *)
(* loops.  The data register is qubits 0..n-1, controls are n and n+1.     *)
(*                                                                         *)
(* A configuration is [st, cl]: an unnormalised exact state and the        *)
(* classical variables; Exec yields every reachable final configuration.   *)
(* Path is the sequence of operations along the run in which every         *)
(* measurement returns the same fixed bit.                                 *)
(***************************************************************************)
EXTENDS OpGen, SequencesExt, FiniteSetsExt, CSV, Json

CONSTANTS MaxN, MinLen, MaxLen, MaxDepth, MaxFlat, Profile, OutFile
VARIABLES n, len, init, sub, prog, phase
vars == <<n, len, init, sub, prog, phase>>
Tiny == Profile = "tiny"
Pure == Profile \in {"pure", "count"}
NCl == 2

(* --- meaning ----------------------------------------------------------- *)
Loop(lv, l) == IF l = 0 \/ l > Len(lv) THEN 0 ELSE lv[l]
Sh(q, d) == IF q < n THEN (q + d) % n ELSE q
Place(o, d, am) == [o EXCEPT !.q = [i \in 1..Len(@) |-> Sh(@[i], d)], !.c = [i \in 1..Len(@) |-> Sh(@[i], d)],
                             !.p = [i \in 1..Len(@) |-> IF am = 1 THEN <<@[i][1] * (d + 1), 0>> ELSE @[i]]]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Count(s, cl) == IF s.dyn = 0 THEN s.n ELSE cl[s.dyn] % 4
(* circuits can be extracted for two branches only *)
Branch(s, cl) == s.bs[(cl[s.k] % Len(s.bs)) + 1]
(* part of the data register from lo on, to hi, or followed by the controls or by the part before lo *)
View(s, lv) == LET lo == (s.lo + Loop(lv, s.l)) % n
                   Seg(a, b) == [i \in 1..(IF b > a THEN b - a ELSE 0) |-> a + i - 1] IN
               CASE s.fu = "cut" -> Seg(lo, s.hi) [] s.fu = "ctl" -> Seg(lo, n) \o <<n, n + 1>> [] s.fu = "rot" -> Seg(lo, n) \o Seg(0, lo)
(* the operations of a block without measurements *)
RECURSIVE Flat(_, _, _), FlatS(_, _, _)
FlatS(s, cl, lv) ==
  CASE s.t = "g" -> <<Place(s.op, Loop(lv, s.l), s.am)>>
    [] s.t = "view" -> LET w == View(s, lv) IN
                       CASE s.i = 0 -> [i \in 1..Len(w) |-> Gate(s.g, w[i])] [] s.i > Len(w) -> <<>> [] OTHER -> <<Gate(s.g, w[s.i])>>
    [] s.t = "ctl" -> WithCtrl(Flat(s.b, cl, lv), s.c, s.s)
    [] s.t = "inv" -> InvSeq(Flat(s.b, cl, lv))
    [] s.t = "conj" -> s.v \o Flat(s.b, cl, lv) \o InvSeq(s.v)
    [] s.t = "for" -> Concat([i \in 1..Count(s, cl) |-> Flat(s.b, cl, lv \o <<i - 1>>)])
    [] s.t = "call" -> [i \in 1..Len(sub) |-> Place(sub[i], s.a + Loop(lv, s.l), 0)]
    [] s.t = "if" -> IF (cl[s.k] = s.v) THEN Flat(s.b, cl, lv) ELSE Flat(s.e, cl, lv)
    [] s.t = "switch" -> Flat(Branch(s, cl), cl, lv)
Flat(b, cl, lv) == IF b = <<>> THEN <<>> ELSE FlatS(Head(b), cl, lv) \o Flat(Tail(b), cl, lv)

Val1(s, cl) == CASE s.op = "add" -> (cl[s.a] + cl[s.b] + 1) % 8 [] s.op = "mul" -> (cl[s.a] * cl[s.b]) % 8 [] s.op = "copy" -> cl[s.a] [] s.op = "xor" -> (cl[s.a] + cl[s.b]) % 2
Project(st, q, b) == Tidy(st.k, st.m, [x \in {y \in DOMAIN st.v : Bit(y, q) = b} |-> st.v[x]])
MeasB(c, q) == {b \in {0, 1} : \E x \in DOMAIN c.st.v : Bit(x, q) = b}
RECURSIVE Exec(_, _, _), ExecS(_, _, _), ExecFor(_, _, _, _, _), ExecWhile(_, _, _, _)
ExecS(s, c, lv) ==
  CASE s.t = "meas" -> LET q == Sh(s.q, Loop(lv, s.l)) IN {[st |-> Project(c.st, q, b), cl |-> [c.cl EXCEPT ![s.k] = b]] : b \in MeasB(c, q)}
    [] s.t = "reset" -> LET q == Sh(s.q, Loop(lv, s.l)) IN
                        {[st |-> IF b = 1 THEN ApplyOp(Project(c.st, q, 1), Gate("x", q)) ELSE Project(c.st, q, 0), cl |-> c.cl] : b \in MeasB(c, q)}
    [] s.t = "set" -> {[c EXCEPT !.cl[s.k] = Val1(s, c.cl)]}
    [] s.t = "if" -> IF c.cl[s.k] = s.v THEN Exec(s.b, {c}, lv) ELSE Exec(s.e, {c}, lv)
    [] s.t = "switch" -> Exec(Branch(s, c.cl), {c}, lv)
    [] s.t = "for" -> ExecFor(s, {c}, lv, 0, Count(s, c.cl))
    [] s.t = "while" -> ExecWhile(s, {c}, lv, 0)
    [] OTHER -> {[c EXCEPT !.st = Run(@, FlatS(s, c.cl, lv))]}
Exec(b, cs, lv) == IF b = <<>> THEN cs ELSE Exec(Tail(b), UNION {ExecS(Head(b), c, lv) : c \in cs}, lv)
ExecFor(s, cs, lv, i, m) == IF i >= m THEN cs ELSE ExecFor(s, Exec(s.b, cs, lv \o <<i>>), lv, i + 1, m)
ExecWhile(s, cs, lv, i) ==
  LET go == {c \in cs : i < s.max /\ c.cl[s.k] = s.v} IN
  IF go = {} THEN cs ELSE (cs \ go) \cup ExecWhile(s, Exec(s.b, go, lv \o <<i>>), lv, i + 1)

(* one forced run: [cl, ops] *)
MeasOp(q) == Op("measure", <<>>, <<q>>, <<>>, <<>>)
RECURSIVE Path(_, _, _, _), PathS(_, _, _, _), PathFor(_, _, _, _, _, _), PathWhile(_, _, _, _, _)
PathS(s, r, lv, f) ==
  CASE s.t = "meas" -> [cl |-> [r.cl EXCEPT ![s.k] = f], ops |-> r.ops \o <<MeasOp(Sh(s.q, Loop(lv, s.l)))>>]
    [] s.t = "reset" -> [r EXCEPT !.ops = @ \o <<Op("reset", <<>>, <<Sh(s.q, Loop(lv, s.l))>>, <<>>, <<>>)>>]
    [] s.t = "set" -> [r EXCEPT !.cl[s.k] = Val1(s, r.cl)]
    [] s.t = "if" -> IF r.cl[s.k] = s.v THEN Path(s.b, r, lv, f) ELSE Path(s.e, r, lv, f)
    [] s.t = "switch" -> Path(Branch(s, r.cl), r, lv, f)
    [] s.t = "for" -> PathFor(s, r, lv, 0, Count(s, r.cl), f)
    [] s.t = "while" -> PathWhile(s, r, lv, 0, f)
    [] OTHER -> [r EXCEPT !.ops = @ \o FlatS(s, r.cl, lv)]
Path(b, r, lv, f) == IF b = <<>> THEN r ELSE Path(Tail(b), PathS(Head(b), r, lv, f), lv, f)
PathFor(s, r, lv, i, m, f) == IF i >= m THEN r ELSE PathFor(s, Path(s.b, r, lv \o <<i>>, f), lv, i + 1, m, f)
PathWhile(s, r, lv, i, f) == IF i < s.max /\ r.cl[s.k] = s.v THEN PathWhile(s, Path(s.b, r, lv \o <<i>>, f), lv, i + 1, f) ELSE r

(* depth: every operation takes one layer on its qubits *)
RECURSIVE DepthOf(_, _)
DepthOf(ops, d) == IF ops = <<>> THEN FoldSet(LAMBDA q, a : IF d[q] > a THEN d[q] ELSE a, 0, DOMAIN d)
                   ELSE LET o == Head(ops) T == {o.q[i] : i \in 1..Len(o.q)} \cup {o.c[i] : i \in 1..Len(o.c)}
                            m == 1 + FoldSet(LAMBDA q, a : IF d[q] > a THEN d[q] ELSE a, 0, T)
                        IN DepthOf(Tail(ops), [q \in DOMAIN d |-> IF q \in T THEN m ELSE d[q]])
Depth(ops) == DepthOf(ops, [q \in 0..(n + 1) |-> 0])

(* --- choice ------------------------------------------------------------ *)
GK == IF Tiny THEN <<"h">> ELSE IF Profile = "count" THEN <<"h", "x", "fixed", "cx", "phase", "cz">> ELSE <<"h", "h", "x", "fixed", "fixed", "c1", "cx", "cp", "phase", "rot", "swap", "mcx">>
D == 0..(n - 1)
PickG(Q) == UNION {LET k == IF kd = "cz" THEN "c1" ELSE kd IN
                   PickOp(IF (Cardinality(Q) < 2 /\ k \in {"c1", "cx", "cp", "swap"}) \/ (Cardinality(Q) < 3 /\ k = "mcx") THEN "fixed" ELSE k, Q, FALSE) : kd \in PickW(GK)}
RECURSIVE PickOps(_, _)
PickOps(Q, l) == IF l = 0 THEN {<<>>} ELSE UNION {{<<o>> \o t : t \in PickOps(Q, l - 1)} : o \in PickG(Q)}
(* ctx: d depth left, p pure, lv open loops, cq control qubits left, q quantum environment *)
StmtK(x) == IF Tiny THEN <<"g">> \o (IF x.d > 0 THEN <<"ctl", "for">> ELSE <<>>) \o (IF x.p THEN <<>> ELSE <<"meas">>)
            ELSE <<"g", "g", "g", "g">> \o (IF x.d > 0 THEN <<"for", "for", "inv", "conj", "if", "switch">> \o (IF Profile = "count" THEN <<>> ELSE <<"ctl", "ctl">>) ELSE <<>>)
                 \o <<"call", "view">> \o (IF x.p THEN <<>> ELSE <<"meas", "meas", "set", "reset">> \o (IF x.d > 0 THEN <<"if", "while">> ELSE <<>>))
RECURSIVE PickB(_, _), PickS(_), PickBs(_, _)
PickBs(x, m) == IF m = 0 THEN {<<>>} ELSE UNION {{<<b>> \o r : r \in PickBs(x, m - 1)} : b \in UNION {PickB(x, l) : l \in PickW(<<0, 1, 1, 2>>)}}
PickS(x) == UNION {
  CASE k = "g" -> {[t |-> "g", op |-> o, l |-> l, am |-> IF o.p # <<>> /\ o.g = "p" THEN am ELSE 0] : o \in PickG(D), l \in Pick(0..x.lv), am \in Pick({0, 1})}
    [] k = "call" -> {[t |-> "call", a |-> a, l |-> l] : a \in Pick(0..2), l \in Pick(0..x.lv)}
    [] k = "view" -> {[t |-> "view", g |-> g, lo |-> lo, hi |-> hi, l |-> l, fu |-> fu, i |-> IF fu = "cut" THEN 0 ELSE i] : g \in Pick({"h", "x", "s", "t"}), lo \in Pick(D), hi \in Pick(1..n),
                        l \in Pick(0..x.lv), fu \in PickW(IF x.cq = {n, n + 1} THEN <<"cut", "ctl", "rot">> ELSE <<"cut", "rot">>), i \in Pick(0..2)}
    [] k = "ctl" -> IF x.cq = {} THEN {[t |-> "call", a |-> 0, l |-> 0]}
                    ELSE UNION {UNION {{[t |-> "ctl", c |-> c, s |-> s, b |-> b] : s \in PickBits(m),
                                 b \in UNION {PickB([x EXCEPT !.d = @ - 1, !.p = TRUE, !.cq = @ \ {c[i] : i \in 1..m}], l) : l \in Pick(1..2)}} : c \in PickTuple(x.cq, m)} : m \in Pick(1..Cardinality(x.cq))}
    [] k = "inv" -> {[t |-> "inv", b |-> b] : b \in UNION {PickB([x EXCEPT !.d = @ - 1, !.p = TRUE], l) : l \in Pick(1..3)}}
    [] k = "conj" -> {[t |-> "conj", v |-> v, b |-> b] : v \in UNION {PickOps(D, l) : l \in Pick(1..2)}, b \in UNION {PickB([x EXCEPT !.d = @ - 1, !.p = TRUE], l) : l \in Pick(1..2)}}
    [] k = "for" -> {[t |-> "for", n |-> m, dyn |-> dy, b |-> b] : m \in Pick(0..3), dy \in PickW(<<0, 0, 1, 2>>), b \in UNION {PickB([x EXCEPT !.d = @ - 1, !.lv = @ + 1], l) : l \in Pick(1..2)}}
    [] k = "if" -> {[t |-> "if", k |-> i, v |-> v, b |-> b, e |-> e] : i \in Pick(1..NCl), v \in PickW(<<0, 1, 1>>),
                     b \in UNION {PickB([x EXCEPT !.d = @ - 1], l) : l \in Pick(1..2)}, e \in UNION {PickB([x EXCEPT !.d = @ - 1], l) : l \in PickW(<<0, 0, 1>>)}}
    [] k = "switch" -> {[t |-> "switch", k |-> i, bs |-> bs] : i \in Pick(1..NCl), bs \in UNION {PickBs([x EXCEPT !.d = @ - 1], m) : m \in Pick(2..(IF Pure THEN 2 ELSE 3))}}
    [] k = "meas" -> {[t |-> "meas", k |-> i, q |-> q, l |-> l] : i \in Pick(1..NCl), q \in Pick(D), l \in Pick(0..x.lv)}
    [] k = "reset" -> {[t |-> "reset", q |-> q, l |-> l] : q \in Pick(D), l \in Pick(0..x.lv)}
    [] k = "set" -> {[t |-> "set", k |-> i, op |-> o, a |-> a, b |-> b] : i \in Pick(1..NCl), o \in Pick({"add", "mul", "copy", "xor"}), a \in Pick(1..NCl), b \in Pick(1..NCl)}
    [] k = "while" -> {[t |-> "while", k |-> i, v |-> v, max |-> m, b |-> b] : i \in Pick(1..NCl), v \in Pick({0, 1}), m \in Pick(1..3), b \in UNION {PickB([x EXCEPT !.d = @ - 1, !.lv = @ + 1], l) : l \in Pick(1..3)}}
  : k \in PickW(StmtK(x))}
PickB(x, l) == IF l = 0 THEN {<<>>} ELSE UNION {{<<s>> \o t : t \in PickB(x, l - 1)} : s \in PickS(x)}
Ctx == [d |-> MaxDepth, p |-> Pure, lv |-> 0, cq |-> {n, n + 1}]

Init == n = 0 /\ len = 0 /\ init = <<0, 0>> /\ sub = <<>> /\ prog = <<>> /\ phase = "start"
Start == /\ phase = "start"
         /\ \E k \in Pick((IF Tiny THEN 1 ELSE 2)..MaxN), l \in Pick(MinLen..MaxLen), a \in PickW(IF Tiny THEN <<1>> ELSE <<0, 1, 2, 3>>), b \in PickW(IF Tiny THEN <<1>> ELSE <<0, 1, 1, 3>>) :
              n' = k /\ len' = l /\ init' = <<a, b>>
         /\ phase' = "sub" /\ UNCHANGED <<sub, prog>>
(* the controls start in superposition *)
Prep == [i \in 1..2 |-> [t |-> "g", op |-> Gate("h", n + i - 1), l |-> 0, am |-> 0]]
Sub == phase = "sub" /\ phase' = "build" /\ prog' = (IF Profile = "count" THEN <<>> ELSE Prep) /\ (\E l \in Pick(1..2) : \E s \in PickOps(D, l) : sub' = s) /\ UNCHANGED <<n, len, init>>
Full == Len(prog) >= len + 2
Step == phase = "build" /\ ~ Full /\ (\E s \in PickS(Ctx) : prog' = Append(prog, s)) /\ UNCHANGED <<n, len, init, sub, phase>>
AmpSet(s) == {<<x>> \o s.v[x] : x \in DOMAIN s.v}
P(f) == Path(prog, [cl |-> init, ops |-> <<>>], <<>>, f)
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<n, len, init, sub, prog>>
        /\ LET p0 == P(0) p1 == P(1) IN
           IF Len(p0.ops) > MaxFlat \/ Len(p1.ops) > MaxFlat THEN TRUE
           ELSE LET R == Exec(prog, {[st |-> ZeroState, cl |-> init]}, <<>>) IN
             IF Cardinality(R) > 40 THEN TRUE
             ELSE CSVWrite("%1$s", <<ToJson([n |-> n, init |-> init, sub |-> sub, prog |-> prog, pure |-> Pure,
                    paths |-> <<[ops |-> p0.ops, depth |-> Depth(p0.ops)], [ops |-> p1.ops, depth |-> Depth(p1.ops)]>>,
                    state |-> IF Pure THEN LET r == CHOOSE c \in R : TRUE IN {[k |-> r.st.k, m |-> r.st.m, v |-> AmpSet(r.st)]} ELSE {},
                    (* lower bounds of the probabilities of classical results *)
                    probs |-> {<<c.cl, Prob(c.st, DOMAIN c.st.v)>> : c \in R},
                    outs |-> UNION {{c.cl \o <<x>> : x \in DOMAIN c.st.v} : c \in R}])>>, OutFile)
Next == Start \/ Sub \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
(* branches together carry the whole norm: the sum over all branches is one *)
Norm(c) == Prob(c.st, DOMAIN c.st.v)
TotalOne == (phase = "build" /\ Full) =>
  LET R == Exec(prog, {[st |-> ZeroState, cl |-> init]}, <<>>)
      K == FoldSet(LAMBDA c, a : IF c.st.k > a THEN c.st.k ELSE a, 0, R)
      S == FoldSet(LAMBDA c, a : LET p == Norm(c) IN <<a[1] + p[1] * Pow2[K - p[3]], a[2] + p[2] * Pow2[K - p[3]]>>, <<0, 0>>, R)
  IN Pure \/ S[1] <= Pow2[K]
(* without measurements there is one branch and both forced runs agree with it *)
PureOne == (phase = "build" /\ Full /\ Pure) => EqState((CHOOSE c \in Exec(prog, {[st |-> ZeroState, cl |-> init]}, <<>>) : TRUE).st, Run(ZeroState, P(0).ops))
=============================================================================
