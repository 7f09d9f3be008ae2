------------------------------ MODULE PrimProg -------------------------------
(***************************************************************************)
(* The subroutine library: one call of a library routine on a prepared     *)
(* state, plain, under a control qubit, or followed by its inverse, with   *)
(* the exact resulting state.                                              *)
(***************************************************************************)
EXTENDS OpGen, SequencesExt, FiniteSetsExt, CSV, Json

CONSTANTS Kind, MaxPrep, Profile, OutFile
VARIABLES n, call, wrap, prog, len, st, phase
vars == <<n, call, wrap, prog, len, st, phase>>
Tiny == Profile = "tiny"

C == IF wrap = "ctrl" THEN <<n>> ELSE <<>>
S == IF wrap = "ctrl" THEN <<1>> ELSE <<>>
AmpSet(s) == {<<x>> \o s.v[x] : x \in DOMAIN s.v}

(* registers: sequences of qubits, lowest bit first *)
RECURSIVE RVal(_, _)
RVal(x, Q) == IF Q = <<>> THEN 0 ELSE Bit(x, Head(Q)) + 2 * RVal(x, Tail(Q))
RECURSIVE RSet(_, _, _)
RSet(x, Q, y) == IF Q = <<>> THEN x ELSE RSet(IF Bit(x, Head(Q)) = y % 2 THEN x ELSE Flip(x, Head(Q)), Tail(Q), y \div 2)
Reg(lo, sz) == [i \in 1..sz |-> lo + i - 1]
RECURSIVE Rev(_, _)
Rev(x, m) == IF m = 0 THEN 0 ELSE (x % 2) * Pow2[m - 1] + Rev(x \div 2, m - 1)

(* a linear map on one register, entries M(x, y) over sqrt(2)^k *)
LinMap(s, Q, k, M(_, _)) ==
  LET N == Pow2[Len(Q)]
      D == UNION {IF CtrlOn(x, C, S) THEN {RSet(x, Q, y) : y \in 0..(N - 1)} ELSE {x} : x \in DOMAIN s.v}
  IN Tidy(s.k + k, s.m, [z \in D |-> IF ~ CtrlOn(z, C, S) THEN Blow(s.v[z], k, 0)
       ELSE FoldSet(LAMBDA x, a : LET w == RSet(z, Q, x) IN IF w \in DOMAIN s.v THEN RAdd(a, RMul(s.v[w], M(x, RVal(z, Q)))) ELSE a, RZero, 0..(N - 1))])
(* basis states f(x), under the control *)
PermMap(s, f(_)) == LET g(x) == IF CtrlOn(x, C, S) THEN f(x) ELSE x IN Permute(s, g)
PhaseIf(s, P(_), a) == Tidy(s.k, s.m, [x \in DOMAIN s.v |-> IF CtrlOn(x, C, S) /\ P(x) THEN RMul(s.v[x], RPhase(a[1], 0)) ELSE s.v[x]])
RunC(s, ops) == Run(s, WithCtrl(ops, C, S))
RECURSIVE Times(_, _, _)
Times(s, ops, k) == IF k = 0 THEN s ELSE Times(Run(s, ops), ops, k - 1)

(* --- the routines ------------------------------------------------------ *)
(* |x> -> sum_y exp(2 pi i m x y / N) |y>; e: reversed bit order; w: without the final swaps *)
QftEntry(o, m, x, y) ==
  LET N == Pow2[m]
      E(z) == IF o.endian THEN z ELSE Rev(z, m)
      W(z) == IF o.swap THEN z ELSE Rev(z, m)
      F(a, b) == ROmega(((o.mult * E(a) * W(E(b))) % N) * (8 \div N))
  IN IF o.inv THEN RConj(F(y, x)) ELSE F(x, y)
Qft(s, Q, o) == LinMap(s, Q, Len(Q), LAMBDA x, y : QftEntry(o, Len(Q), x, y))

Refl(s, c) == LET t == RunC(s, InvSeq(c.sf))
                  u == PhaseIf(t, LAMBDA x : RVal(x, c.idx) = 0, c.a)
              IN PhaseIf(RunC(u, c.sf), LAMBDA x : TRUE, <<4, 0>>)
RECURSIVE Ampl(_, _, _)
Ampl(s, c, k) == IF k = 0 THEN s ELSE Ampl(Refl(RunC(s, c.oracle), c), c, k - 1)

RECURSIVE QpeU(_, _, _)
QpeU(s, c, i) == IF i > Len(c.res) THEN s ELSE QpeU(Times(s, WithCtrl(c.u, C \o <<c.res[i]>>, S \o <<1>>), Pow2[i - 1]), c, i + 1)
Qpe(s, c) == LET t == RunC(s, [i \in 1..Len(c.res) |-> Gate("h", c.res[i])])
             IN Qft(QpeU(t, c, 1), c.res, [inv |-> TRUE, mult |-> 1, endian |-> TRUE, swap |-> TRUE])

BitsOf(i, m) == [j \in 1..m |-> Bit(i, j - 1)]
RECURSIVE Switch(_, _, _)
Switch(s, c, i) == IF i > Len(c.br) THEN s ELSE Switch(Run(s, WithCtrl(c.br[i], C \o c.index, S \o BitsOf(i - 1, Len(c.index)))), c, i + 1)

Elem(c, i) == Reg(c.lo + i * c.sz, c.sz)
SVal(x, c) == LET k == Len(c.by) r == RVal(x, c.by) IN (IF c.signed /\ k > 0 /\ r >= Pow2[k - 1] THEN r - Pow2[k] ELSE r) * Pow2[c.exp]
(* element i of the result is element src(i) *)
RECURSIVE Place(_, _, _, _, _)
Place(z, x, c, src(_), i) == IF i = c.m THEN z ELSE Place(RSet(z, Elem(c, i), RVal(x, Elem(c, src(i)))), x, c, src, i + 1)
Mod(a, b) == ((a % b) + b) % b
Shift(s, c) == PermMap(s, LAMBDA x : Place(x, x, c, LAMBDA i : Mod(i - (IF c.by = <<>> THEN c.amount ELSE SVal(x, c)), c.m), 0))
Perm(s, c) == PermMap(s, LAMBDA x : Place(x, x, c, LAMBDA i : c.perm[i + 1], 0))
(* the input moves to the output with the number of the index; the other outputs are zero before *)
Demux(s, c) == PermMap(s, LAMBDA x : RSet(RSet(x, c.src, 0), Elem(c, RVal(x, c.by)), RVal(x, c.src)))

Do(s, c) == CASE c.k = "qft" -> Qft(s, c.q, c)
              [] c.k = "refl" -> Refl(s, c)
              [] c.k = "aa" -> Ampl(s, c, c.iter)
              [] c.k = "qpe" -> Qpe(s, c)
              [] c.k = "sw" -> Switch(s, c, 1)
              [] c.k = "shift" -> Shift(s, c)
              [] c.k = "perm" -> Perm(s, c)
              [] c.k = "demux" -> Demux(s, c)
              [] OTHER -> s

(* --- choice ------------------------------------------------------------ *)
RECURSIVE PickOps(_, _, _)
PickOps(kinds, Q, l) == IF l = 0 THEN {<<>>} ELSE UNION {{<<o>> \o t : t \in PickOps(kinds, Q, l - 1)} : o \in UNION {PickOp(IF Cardinality(Q) < 2 /\ kd \in {"cx", "cp", "c1", "swap", "mcz"} THEN "fixed" ELSE kd, Q, FALSE) : kd \in PickW(kinds)}}
GenK == IF Tiny THEN <<"h">> ELSE <<"h", "fixed", "fixed", "rot", "c1", "cp", "swap">>
PickSeqs2(m, Q) == UNION {PickOps(GenK, Q, l) : l \in Pick(0..2)}
RECURSIVE PickSeqs(_, _)
PickSeqs(m, Q) == IF m = 0 THEN {<<>>} ELSE UNION {{<<p>> \o t : t \in PickSeqs(m - 1, Q)} : p \in PickSeqs2(m, Q)}

Init == n = 0 /\ call = [k |-> "none"] /\ wrap = "plain" /\ prog = <<>> /\ len = 0 /\ st = ZeroState /\ phase = "start"
Wraps == IF Tiny THEN <<"plain", "ctrl">> ELSE <<"plain", "plain", "ctrl", "undo">>
(* busy: the qubits prepared in an arbitrary state *)
Set(nn, c, w) == n' = nn /\ call' = c /\ wrap' = w
StartQft == \E m \in Pick(1..(IF Tiny THEN 2 ELSE 3)), inv \in Pick(BOOLEAN), sw \in PickW(<<TRUE, TRUE, FALSE>>), en \in PickW(<<TRUE, TRUE, FALSE>>), mu \in PickW(<<1, 1, 3, 5, -1>>), way \in PickW(<<"std", "std", "gms", "adder", "adder">>), w \in PickW(Wraps) :
  Set(m, [k |-> "qft", q |-> Reg(0, m), inv |-> inv, swap |-> sw, endian |-> en, mult |-> IF way = "adder" THEN 1 ELSE mu, way |-> way, sizes |-> <<m>>, busy |-> m], w)
StartRefl == \E a \in Pick(1..2), b \in Pick(0..2), w \in PickW(Wraps), ph \in PickW(<<<<4, 0>>, <<4, 0>>, <<1, 0>>, <<3, 0>>, <<-2, 0>>>>), it \in PickW(<<0, 1, 1, 2>>), part \in Pick(0..2) :
  LET Q == 0..(a + b - 1) IN
  \E sf \in UNION {PickOps(GenK, Q, l) : l \in Pick(0..4)}, orc \in UNION {PickOps(IF Cardinality(Q) < 2 THEN <<"phase">> ELSE <<"mcz", "phase">>, Q, l) : l \in Pick(1..2)} :
  Set(a + b, [k |-> IF Kind = "aa" THEN "aa" ELSE "refl", sf |-> sf, a |-> IF Kind = "aa" THEN <<4, 0>> ELSE ph, oracle |-> orc, iter |-> it, sizes |-> IF b = 0 THEN <<a>> ELSE <<a, b>>, part |-> IF b = 0 THEN 0 ELSE part,
              idx |-> IF b = 0 \/ part = 0 THEN Reg(0, a + b) ELSE IF part = 1 THEN Reg(0, a) ELSE Reg(a, b), busy |-> a + b], w)
StartQpe == \E a \in Pick(1..2), pr \in Pick(1..3), w \in PickW(Wraps), sp \in Pick(BOOLEAN) :
  \E u \in UNION {PickOps(<<"fixed", "phase", "phase", "phase", "cp", "cx">>, 0..(a - 1), l) : l \in Pick(1..3)} :
  Set(a + pr, [k |-> "qpe", u |-> u, res |-> Reg(a, pr), sizes |-> <<a, pr>>, busy |-> a, spec |-> sp], w)
StartSw == \E i \in Pick(1..3), a \in Pick(1..2), b \in Pick(0..1), w \in PickW(Wraps), mt \in Pick({"sequential", "parallel", "tree", "auto"}), fn \in Pick(BOOLEAN) :
  LET Q == i..(i + a + b - 1) IN
  \E m \in PickW(<<1, Pow2[i] - 1, Pow2[i], Pow2[i]>> \o (IF i > 2 THEN <<3, 5, 6>> ELSE <<>>)) :
  \E br \in PickSeqs(m, Q) :
  Set(i + a + b, [k |-> "sw", index |-> Reg(0, i), br |-> br, sizes |-> IF b = 0 THEN <<i, a>> ELSE <<i, a, b>>, method |-> mt, fn |-> fn, busy |-> i + a + b], w)
RECURSIVE PickPerm(_)
PickPerm(T) == IF T = {} THEN {<<>>} ELSE UNION {{<<x>> \o t : t \in PickPerm(T \ {x})} : x \in Pick(T)}
StartShift == \E m \in PickW(IF Tiny THEN <<2>> ELSE <<1, 2, 3, 4, 5, 6>>), sz \in Pick(1..2), b \in PickW(<<0, 0, 1, 2, 3>>), e \in PickW(<<0, 0, 0, 1>>), sg \in Pick(BOOLEAN), am \in Pick((-7)..9), w \in PickW(Wraps), as \in Pick({"array", "vars", "qubits"}) :
  LET z == IF m > 3 \/ as = "qubits" THEN 1 ELSE sz IN
  Set(b + m * z, [k |-> "shift", m |-> m, sz |-> z, lo |-> b, by |-> Reg(0, b), exp |-> e, signed |-> sg, amount |-> am, as |-> as, sizes |-> (IF b > 0 THEN <<b>> ELSE <<>>) \o [j \in 1..m |-> z], busy |-> b + m * z], w)
StartPerm == \E m \in PickW(<<1, 2, 3, 4, 5, 6>>), sz \in Pick(1..2), w \in PickW(Wraps), as \in Pick({"array", "vars", "qubits"}) :
  \E p \in PickPerm(0..(m - 1)) :
  LET z == IF m > 3 \/ as = "qubits" THEN 1 ELSE sz IN
  Set(m * z, [k |-> "perm", m |-> m, sz |-> z, lo |-> 0, perm |-> p, as |-> as, sizes |-> [j \in 1..m |-> z], busy |-> m * z], w)
StartDemux == \E b \in Pick(1..2), sz \in Pick(1..2), w \in PickW(Wraps), as \in PickW(<<"array", "array", "qubits">>), pl \in Pick(BOOLEAN), inpl \in Pick(BOOLEAN) :
  LET z == IF as = "qubits" THEN 1 ELSE sz
      m == Pow2[b]
      lo == IF inpl THEN b ELSE b + z IN
  Set(lo + m * z, [k |-> "demux", m |-> m, sz |-> z, lo |-> lo, by |-> Reg(0, b), src |-> Reg(b, z), as |-> as, par |-> pl, inpl |-> inpl, sizes |-> <<b>> \o [j \in 1..(m + (IF inpl THEN 0 ELSE 1)) |-> z], busy |-> b + z], w)
(* state preparation: integer amplitudes, normalised by the routine *)
Gz == {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<2, 0>>, <<1, -1>>, <<-2, 1>>, <<0, -3>>}
RECURSIVE PickVec(_)
PickVec(m) == IF m = 0 THEN {<<>>} ELSE UNION {{<<x>> \o t : t \in PickVec(m - 1)} : x \in Pick(Gz)}
NonZero(v) == \E i \in 1..Len(v) : v[i] # <<0, 0>>
Weight(x, m) == Cardinality({i \in 0..(m - 1) : Bit(x, i) = 1})
StartAmp == \E m \in Pick(1..4), w \in PickW(Wraps), how \in PickW(<<"prepare", "prepare", "prepare", "wstate", "dicke">>), mt \in Pick({"auto", "qiskit", "qswitch"}), rv \in PickW(<<FALSE, FALSE, TRUE>>), kk \in Pick(1..4) :
  LET sz == IF how = "prepare" /\ m > 3 THEN 3 ELSE m
      k == IF kk > sz THEN sz ELSE kk IN
  \E vec \in PickVec(IF how = "prepare" THEN Pow2[sz] ELSE sz) :
  LET v == IF NonZero(vec) THEN vec ELSE [vec EXCEPT ![1] = <<1, 0>>]
      out == CASE how = "prepare" -> [x \in 1..Pow2[sz] |-> v[(IF rv THEN Rev(x - 1, sz) ELSE x - 1) + 1]]
               [] how = "wstate" -> [x \in 1..Pow2[sz] |-> IF \E i \in 0..(sz - 1) : x - 1 = Pow2[i] THEN v[(CHOOSE i \in 0..(sz - 1) : x - 1 = Pow2[i]) + 1] ELSE <<0, 0>>]
               [] how = "dicke" -> [x \in 1..Pow2[sz] |-> IF Weight(x - 1, sz) = k THEN <<1, 0>> ELSE <<0, 0>>]
  IN Set(sz, [k |-> "amp", how |-> how, vec |-> v, method |-> mt, rev |-> rv, wt |-> k, out |-> out, sizes |-> <<sz>>, busy |-> 0], w)

Start == /\ phase = "start" /\ phase' = "prep" /\ \E l \in Pick(IF Tiny THEN {1} ELSE 1..MaxPrep) : len' = l
         /\ UNCHANGED <<prog, st>>
         /\ CASE Kind = "qft" -> StartQft [] Kind \in {"refl", "aa"} -> StartRefl [] Kind = "qpe" -> StartQpe [] Kind = "sw" -> StartSw
              [] Kind = "shift" -> StartShift [] Kind = "perm" -> StartPerm [] Kind = "demux" -> StartDemux [] Kind = "amp" -> StartAmp
Busy == (0..(call.busy - 1)) \cup (IF wrap = "ctrl" THEN {n} ELSE {})
Kinds == IF Tiny THEN <<"h">> ELSE <<"h", "h", "h", "fixed", "rot", "x", "cx", "cp">>
Prep == /\ phase = "prep" /\ Len(prog) < len
        /\ \E kd \in PickW(Kinds) :
             IF Busy = {} \/ (~ (prog = <<>> /\ wrap = "ctrl") /\ kd \in {"cx", "cp"} /\ Cardinality(Busy) < 2) THEN len' = len - 1 /\ UNCHANGED <<n, call, wrap, prog, st, phase>>
             ELSE \E o \in (IF prog = <<>> /\ wrap = "ctrl" THEN {Gate("h", n)} ELSE PickOp(IF call.k = "amp" THEN "id" ELSE kd, Busy, FALSE)) :
                  prog' = Append(prog, o) /\ st' = ApplyOp(st, o) /\ UNCHANGED <<n, call, wrap, len, phase>>
Full == Len(prog) >= len
(* large supports are not followed up *)
Small == Cardinality(DOMAIN st.v) <= 64
Emit == /\ phase = "prep" /\ Full /\ phase' = "done" /\ UNCHANGED <<n, call, wrap, prog, len, st>>
        /\ Small
        /\ LET r == IF wrap = "undo" THEN st ELSE Do(st, call) IN
           CSVWrite("%1$s", <<ToJson([n |-> n, call |-> call, wrap |-> wrap, prog |-> prog, k |-> r.k, m |-> r.m, v |-> AmpSet(r)])>>, OutFile)
Next == Start \/ Prep \/ Emit
Spec == Init /\ [][Next]_vars
Unitary == (phase = "prep" /\ Full) => UnitNorm(Do(st, call))
(* the inverse transform undoes the transform *)
QftInverse == (phase = "prep" /\ Full /\ call.k = "qft") => EqState(Do(Do(st, call), [call EXCEPT !.inv = ~ @]), st)
=============================================================================
