------------------------------ MODULE TableProg ------------------------------
(***************************************************************************)
(* Lookup of tables on superposed keys.  Variables hold codes.  A table is *)
(* a sequence of entries indexed by the joint code of its key variables    *)
(* (first key variable least significant); -1 means no entry and leaves    *)
(* the value alone.  Loading adds the entry bitwise to the value.          *)
(***************************************************************************)
EXTENDS Val

CONSTANTS MaxKey, MinLen, MaxLen, MaxH, Budget, Profile, OutFile
(* fm: [k, sz, live, src]: src = the load (token index) a variable can be uncomputed from, 0 if none *)
VARIABLES fm, init, toks, br, len, bud, phase
vars == <<fm, init, toks, br, len, bud, phase>>
Tiny == Profile = "tiny"
Kd(k, sz, src, ks) == [k |-> k, sz |-> sz, live |-> TRUE, src |-> src, ks |-> ks]
Kinds == <<"qv", "u", "u", "s", "bool", "custom">>
SzOf(k, s) == IF k = "bool" THEN 1 ELSE IF k = "s" THEN MaxI(s, 2) ELSE s
Init == fm = <<>> /\ init = 0 /\ toks = <<>> /\ br = <<>> /\ len = 0 /\ bud = 0 /\ phase = "start"
Start == /\ phase = "start"
         /\ \E n \in Pick(1..(IF Tiny THEN 1 ELSE 3)), l \in Pick(MinLen..MaxLen) : \E ks \in (IF Tiny THEN {<<"u">>} ELSE PickSeq({"qv", "u", "s", "bool", "custom"}, n)), ss \in (IF Tiny THEN {<<1>>} ELSE PickSeq(1..3, n)) :
            LET fs == [i \in 1..n |-> Kd(ks[i], SzOf(ks[i], ss[i]), 0, {})]
                gs == [i \in 1..n |-> Fmt(fs[i].sz, -Scale, FALSE)] T == Total(gs) IN
            IF T > Budget - 2 THEN UNCHANGED vars ELSE
            \E h \in Pick((IF Tiny THEN 1 ELSE 0)..MinI(T, MaxH)) : \E base \in (IF Tiny THEN {[j \in 1..T |-> 1]} ELSE PickBits(T)), sup \in PickTuple(1..T, h) :
              \E ph \in (IF Tiny THEN {[i \in 1..h |-> 1]} ELSE PickSeq(0..7, h)) :
              /\ fm' = fs /\ len' = l /\ bud' = Budget - T
              /\ init' = [fs |-> gs, ks |-> ks, base |-> base, sup |-> sup, ph |-> ph]
              /\ br' = Branches(gs, base, sup, ph)
         /\ toks' = <<>> /\ phase' = "build"

V == {i \in 1..Len(fm) : fm[i].live}
Keep == UNCHANGED <<init, len, phase>>
KeySz(ks) == FoldSet(LAMBDA i, a : a + fm[ks[i]].sz, 0, 1..Len(ks))
KeyAt(ks, v) == FoldSet(LAMBDA i, a : a + v[ks[i]] * P2(FoldSet(LAMBDA j, b : b + fm[ks[j]].sz, 0, 1..(i - 1))), 0, 1..Len(ks))
Xor(a, b, n) == FoldSet(LAMBDA i, s : s + P2(i) * ((Bt(a, i) + Bt(b, i)) % 2), 0, 0..(n - 1))
Ent(tab, ks, v) == LET e == tab[KeyAt(ks, v) + 1] IN IF e < 0 THEN 0 ELSE e
PickKeys(S) == LET R == {i \in S : fm[i].sz <= MaxKey /\ fm[i].k # "auto"} IN IF R = {} THEN {<<>>} ELSE UNION {LET ks == {t \in PickTuple(R, MinI(n, Cardinality(R))) : KeySz(t) <= MaxKey} IN IF ks = {} THEN {<<>>} ELSE ks : n \in Pick({1, 1, 2})}
Par(x, m) == FoldSet(LAMBDA i, a : (a + Bt(x, i) * Bt(m, i)) % 2, 0, 0..7)
(* arbitrary tables, tables of parities and tables with few entries *)
PickTab(ks, sz, full) == LET N == P2(KeySz(ks)) IN UNION {
  CASE kind = "any" -> PickSeq((IF full THEN 0 ELSE -1)..(P2(sz) - 1), N)
    [] kind = "parity" -> {[n \in 1..N |-> FoldSet(LAMBDA j, a : a + P2(j - 1) * Par(n - 1, ms[j]), 0, 1..sz)] : ms \in PickSeq(0..(N - 1), sz)}
    [] kind = "few" -> {[n \in 1..N |-> IF n \in {t[1], t[2]} THEN e ELSE IF full THEN 0 ELSE -1] : t \in PickSeq(1..N, 2), e \in Pick(1..(P2(sz) - 1))}
  : kind \in IF Tiny THEN {"any"} ELSE PickW(<<"any", "any", "parity", "few">>)}
Meths == {"gray", "pprm"}
Touch(i) == [j \in 1..Len(fm) |-> IF j # i /\ i \in fm[j].ks THEN [fm[j] EXCEPT !.src = 0] ELSE IF j = i THEN [fm[j] EXCEPT !.src = 0] ELSE fm[j]]

(* dictionary lookup or truth table synthesis into a new variable; ret: type of the value; c: controlled on a bit of another variable *)
Load(c) == \E ks \in PickKeys(V), ret \in PickW(IF c THEN <<"qv", "u", "s", "bool", "custom">> ELSE <<"auto", "qv", "u", "s", "bool", "custom">>), s \in Pick(1..3), m \in Pick(Meths) :
        LET sz == SzOf(ret, s) C == {i \in V : fm[i].k # "auto"} \ {ks[i] : i \in 1..Len(ks)} IN IF ks = <<>> \/ sz > bud \/ (c /\ C = {}) THEN UNCHANGED vars ELSE
        \E tab \in PickTab(ks, sz, ret = "auto"), x \in (IF c THEN Pick(C) ELSE {0}) : \E q \in (IF c THEN Pick(0..(fm[x].sz - 1)) ELSE {0}) :
        /\ toks' = Append(toks, [t |-> IF c THEN "cload" ELSE "load", ks |-> ks, tab |-> tab, ret |-> ret, sz |-> sz, m |-> m, x |-> x, q |-> q])
        /\ br' = NewVar(br, LAMBDA v : IF c /\ Bt(v[x], q) = 0 THEN 0 ELSE Ent(tab, ks, v))
        /\ fm' = Append(fm, Kd(ret, sz, IF c THEN 0 ELSE Len(toks) + 1, {ks[i] : i \in 1..Len(ks)})) /\ bud' = bud - sz /\ Keep
(* into an existing variable (the gray method leaves phases there unless the value is one bit), possibly controlled on a bit of a third one *)
Onto(t, c) == \E o \in Pick(V) : \E ks \in PickKeys(V \ {o}), m \in Pick(IF fm[o].sz > 1 THEN {"pprm"} ELSE Meths), inv \in Pick(BOOLEAN) :
        IF ks = <<>> \/ fm[o].k = "auto" THEN UNCHANGED vars ELSE
        LET C == {i \in V : fm[i].k # "auto"} \ ({o} \cup {ks[i] : i \in 1..Len(ks)}) IN
        IF c /\ C = {} THEN UNCHANGED vars ELSE \E x \in (IF c THEN Pick(C) ELSE {0}) : \E q \in (IF c THEN Pick(0..(fm[x].sz - 1)) ELSE {0}) :
        \E tab \in PickTab(ks, fm[o].sz, FALSE) :
        /\ toks' = Append(toks, [t |-> t, ks |-> ks, tab |-> tab, o |-> o, m |-> m, inv |-> inv, x |-> x, q |-> q])
        /\ br' = SetVar(br, o, LAMBDA v : IF c /\ Bt(v[x], q) = 0 THEN v[o] ELSE Xor(v[o], Ent(tab, ks, v), fm[o].sz))
        /\ fm' = Touch(o) /\ UNCHANGED bud /\ Keep
(* phase tolerant synthesis and its inverse around a phase or a copy conditioned on the value *)
Tolerant == \E ks \in PickKeys(V), s \in Pick(1..3), m \in Pick({"gray_pt", "pprm_pt"}), k \in Pick(1..7), q \in Pick(0..2) : IF ks = <<>> \/ s > bud THEN UNCHANGED vars ELSE
        \E tab \in PickTab(ks, s, FALSE) :
        /\ toks' = Append(toks, [t |-> "tol", ks |-> ks, tab |-> tab, sz |-> s, m |-> m, k |-> k, q |-> q % s])
        /\ br' = [b \in DOMAIN br |-> IF Bt(Ent(tab, ks, br[b].v), q % s) = 1 THEN [br[b] EXCEPT !.ph = (@ + k) % 8] ELSE br[b]]
        /\ UNCHANGED <<fm, bud>> /\ Keep
Flip == \E i \in Pick(V) : \E q \in Pick(0..(fm[i].sz - 1)) :
        IF fm[i].k = "auto" THEN UNCHANGED vars ELSE
        /\ toks' = Append(toks, [t |-> "flip", i |-> i, q |-> q])
        /\ br' = SetVar(br, i, LAMBDA v : Xor(v[i], P2(q), fm[i].sz)) /\ fm' = Touch(i) /\ UNCHANGED bud /\ Keep
(* a loaded value whose keys did not change is uncomputed *)
Unc == LET S == {i \in V : fm[i].src > 0 /\ \A j \in fm[i].ks : fm[j].live} IN IF S = {} THEN UNCHANGED vars ELSE \E i \in Pick(S) :
       /\ toks' = Append(toks, [t |-> "unc", i |-> i]) /\ br' = SetVar(br, i, LAMBDA v : 0)
       /\ fm' = [j \in 1..Len(fm) |-> IF j = i THEN [fm[j] EXCEPT !.live = FALSE] ELSE IF i \in fm[j].ks THEN [fm[j] EXCEPT !.src = 0] ELSE fm[j]] /\ UNCHANGED bud /\ Keep

Acts == IF Tiny THEN <<"load">> ELSE <<"load", "load", "load", "cload", "onto", "ctl", "tol", "flip", "unc", "unc">>
Full == Len(toks) >= len
Step == phase = "build" /\ ~ Full /\ \E t \in PickW(Acts) :
  CASE t = "load" -> Load(FALSE) [] t = "cload" -> Load(TRUE) [] t = "onto" -> Onto("onto", FALSE) [] t = "ctl" -> Onto("ctl", TRUE) [] t = "tol" -> Tolerant [] t = "flip" -> Flip [] t = "unc" -> Unc
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<fm, init, toks, br, len, bud>>
        /\ CSVWrite("%1$s", <<ToJson([init |-> init, fm |-> fm, toks |-> toks, br |-> br])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
Rev == phase = "build" => Distinct(br)
InRange == phase = "build" => AllBr(br, LAMBDA v : \A i \in 1..Len(fm) : v[i] \in 0..(P2(fm[i].sz) - 1))
=============================================================================
