------------------------------ MODULE ArrayProg ------------------------------
(***************************************************************************)
(* Arrays of quantum variables.  An array is a shape and a row-major list  *)
(* of cells; views (slices, reshapes, transposes, concatenations) are new  *)
(* lists over the same cells.  Cells hold codes, one per branch.           *)
(*  arr: sequence of [ty, sh, ind]; cells: sequence of [sz, st], st:       *)
(*  2 fresh, 1 in use, 0 deleted                                           *)
(***************************************************************************)
EXTENDS Val

CONSTANTS MinLen, MaxLen, MaxH, Budget, Profile, OutFile
VARIABLES arr, cells, init, toks, br, len, bud, phase
vars == <<arr, cells, init, toks, br, len, bud, phase>>
Tiny == Profile = "tiny"

Prod(s) == FoldSeq(LAMBDA x, a : x * a, 1, s)
(* coordinates of position n, and back *)
Co(sh, n) == [i \in 1..Len(sh) |-> (n \div Prod(SubSeq(sh, i + 1, Len(sh)))) % sh[i]]
Pos(sh, c) == FoldSet(LAMBDA i, a : a + c[i] * Prod(SubSeq(sh, i + 1, Len(sh))), 0, 1..Len(sh))
Sz(ty) == CASE ty \in {"bool", "u1"} -> 1 [] ty = "u3" -> 3 [] OTHER -> 2
Shapes == IF Tiny THEN {<<2>>, <<2, 2>>} ELSE {<<2>>, <<3>>, <<4>>, <<4>>, <<5>>, <<1, 2>>, <<2, 2>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<2, 1, 2>>, <<4, 1>>}
Types == IF Tiny THEN {"bool"} ELSE {"bool", "bool", "u1", "u2", "s2"}
Cell(sz, st) == [sz |-> sz, st |-> st]
Arr(ty, sh, ind) == [ty |-> ty, sh |-> sh, ind |-> ind]
Rng(a, n) == [i \in 1..n |-> a + i - 1]
Seqs(S) == {<<x>> : x \in S}

Init == arr = <<>> /\ cells = <<>> /\ init = 0 /\ toks = <<>> /\ br = <<>> /\ len = 0 /\ bud = 0 /\ phase = "start"
(* array 1 prepared in superposition, index variables as one-cell arrays, array 2 fresh *)
Start == /\ phase = "start"
         /\ \E ty \in Pick(Types), sh \in Pick(Shapes), l \in Pick(MinLen..MaxLen), ix \in Pick(IF Tiny THEN {1} ELSE {0, 1, 2, 2}), two \in Pick(BOOLEAN), sh2 \in Pick(Shapes), s1 \in Pick(1..2), s2 \in Pick(1..2) :
            LET n == Prod(sh) n2 == IF two /\ (n + Prod(sh2)) * Sz(ty) + s1 + s2 <= Budget THEN Prod(sh2) ELSE 0
                ixs == SubSeq(<<s1, s2>>, 1, ix)
                fs == [i \in 1..n |-> Fmt(Sz(ty), -Scale, FALSE)] \o [i \in 1..ix |-> Fmt(ixs[i], -Scale, FALSE)]
                T == Total(fs) IN
            IF T > Budget THEN UNCHANGED vars ELSE
            \E h \in Pick((IF Tiny THEN 1 ELSE 0)..MinI(T, MaxH)) : \E base \in (IF Tiny THEN {[j \in 1..T |-> 1]} ELSE PickBits(T)), sup \in (IF Tiny THEN {<<1>>} ELSE PickTuple(1..T, h)) :
              \E ph \in (IF Tiny THEN {[i \in 1..h |-> 1]} ELSE PickSeq(0..7, h)) :
              /\ arr' = <<Arr(ty, sh, Rng(1, n))>> \o [i \in 1..ix |-> Arr("ix", <<>>, <<n + i>>)] \o (IF n2 > 0 THEN <<Arr(ty, sh2, Rng(n + ix + 1, n2))>> ELSE <<>>)
              /\ cells' = [i \in 1..(n + ix + n2) |-> IF i <= n THEN Cell(Sz(ty), 1) ELSE IF i <= n + ix THEN Cell(ixs[i - n], 1) ELSE Cell(Sz(ty), 2)]
              /\ len' = l /\ bud' = Budget - T - n2 * Sz(ty)
              /\ init' = [fs |-> fs, base |-> base, sup |-> sup, ph |-> ph, ty |-> ty, sh |-> sh, ix |-> ixs, sh2 |-> IF n2 > 0 THEN sh2 ELSE <<>>]
              /\ br' = [b \in 1..P2(h) |-> [v |-> Branches(fs, base, sup, ph)[b].v \o [i \in 1..n2 |-> 0], ph |-> Branches(fs, base, sup, ph)[b].ph]]
         /\ toks' = <<>> /\ phase' = "build"

Live(a) == \A i \in 1..Len(a.ind) : cells[a.ind[i]].st > 0
A == {i \in 1..Len(arr) : arr[i].ty \notin {"ix", "el", "bool1"} /\ Live(arr[i])}
X == {i \in 1..Len(arr) : arr[i].ty = "ix"}
In(a) == {a.ind[i] : i \in 1..Len(a.ind)}
NoDup(a) == Cardinality(In(a)) = Len(a.ind)
Keep == UNCHANGED <<init, len, phase>>
View(tok, a) == toks' = Append(toks, tok) /\ arr' = Append(arr, a) /\ UNCHANGED <<cells, br, bud>> /\ Keep
(* cells change: F(v, c) is the new code of cell c *)
Upd(tok, S, F(_, _)) == /\ toks' = Append(toks, tok)
                        /\ br' = [b \in DOMAIN br |-> [br[b] EXCEPT !.v = [c \in DOMAIN br[b].v |-> IF c \in S THEN F(br[b].v, c) ELSE br[b].v[c]]]]
                        /\ cells' = [c \in DOMAIN cells |-> IF c \in S THEN [cells[c] EXCEPT !.st = 1] ELSE cells[c]]
                        /\ UNCHANGED <<arr, bud>> /\ Keep
(* new cells with codes F(v, i), i in 1..n, forming one array; use: cells that are read *)
NewArr(tok, ty, sh, sz, st, use, F(_, _)) ==
  LET n == Prod(sh) m == Len(cells) IN
  /\ toks' = Append(toks, tok) /\ arr' = Append(arr, Arr(ty, sh, Rng(m + 1, n)))
  /\ cells' = [c \in DOMAIN cells |-> IF c \in use /\ cells[c].st = 2 THEN [cells[c] EXCEPT !.st = 1] ELSE cells[c]] \o [i \in 1..n |-> Cell(sz, st)]
  /\ br' = [b \in DOMAIN br |-> [br[b] EXCEPT !.v = @ \o [i \in 1..n |-> F(br[b].v, i)]]]
  /\ bud' = bud - n * sz /\ Keep

(* ---- views ---- *)
(* a key per axis: an index, or positions a, a+st, .. below b; [::-1] *)
PickKey(n) == UNION {IF k = "i" THEN {[k |-> k, a |-> i, b |-> 0, st |-> 0] : i \in Pick(0..(n - 1))}
                     ELSE IF k = "r" THEN {[k |-> k, a |-> 0, b |-> n, st |-> -1]}
                     ELSE UNION {{[k |-> "s", a |-> a, b |-> b, st |-> st] : b \in Pick((a + 1)..n), st \in Pick({1, 1, 2})} : a \in Pick(0..(n - 1))} : k \in PickW(<<"i", "s", "s", "r">>)}
Sel(k) == IF k.k = "i" THEN <<k.a>> ELSE IF k.k = "r" THEN [j \in 1..k.b |-> k.b - j]
          ELSE [j \in 1..((k.b - k.a + k.st - 1) \div k.st) |-> k.a + (j - 1) * k.st]
RECURSIVE PickKeys(_)
PickKeys(sh) == IF sh = <<>> THEN {<<>>} ELSE UNION {{<<k>> \o t : t \in PickKeys(Tail(sh))} : k \in PickKey(Head(sh))}
Slice(a, ks) ==
  LET full == [i \in 1..Len(a.sh) |-> IF i <= Len(ks) THEN ks[i] ELSE [k |-> "s", a |-> 0, b |-> a.sh[i], st |-> 1]]
      ax == SelectSeq([i \in 1..Len(a.sh) |-> i], LAMBDA i : full[i].k # "i")
      rsh == [j \in 1..Len(ax) |-> Len(Sel(full[ax[j]]))]
      at(i, rc) == IF full[i].k = "i" THEN full[i].a ELSE Sel(full[i])[rc[CHOOSE j \in 1..Len(ax) : ax[j] = i] + 1]
  IN Arr(a.ty, rsh, [m \in 1..Prod(rsh) |-> a.ind[Pos(a.sh, [i \in 1..Len(a.sh) |-> at(i, Co(rsh, m - 1))]) + 1]])
DoSlice == IF A = {} THEN UNCHANGED vars ELSE \E i \in Pick(A) : \E cut \in Pick(1..Len(arr[i].sh)) : \E ks \in PickKeys(SubSeq(arr[i].sh, 1, cut)) :
           LET r == Slice(arr[i], ks) IN IF r.sh = <<>> THEN UNCHANGED vars ELSE View([t |-> "slice", a |-> i, ks |-> ks], r)
(* an index outside the array is refused *)
Oob == IF A = {} THEN UNCHANGED vars ELSE \E i \in Pick(A) : \E ax \in Pick(1..Len(arr[i].sh)), d \in Pick({0, 1, -1, -2}), all \in Pick(BOOLEAN) :
       /\ toks' = Append(toks, [t |-> "oob", a |-> i, ax |-> ax, i |-> IF d >= 0 THEN arr[i].sh[ax] + d ELSE d - arr[i].sh[ax], all |-> all])
       /\ UNCHANGED <<arr, cells, br, bud>> /\ Keep
Facts(n) == {<<n>>} \cup {<<a, n \div a>> : a \in {x \in 1..n : n % x = 0}}
Reshape == IF A = {} THEN UNCHANGED vars ELSE \E i \in Pick(A) : \E sh \in Pick(Facts(Len(arr[i].ind))) :
           View([t |-> "reshape", a |-> i, sh |-> sh], Arr(arr[i].ty, sh, arr[i].ind))
Perm(a, p) == LET rsh == [j \in 1..Len(p) |-> a.sh[p[j]]] IN
              Arr(a.ty, rsh, [m \in 1..Len(a.ind) |-> LET rc == Co(rsh, m - 1) IN a.ind[Pos(a.sh, [i \in 1..Len(p) |-> rc[CHOOSE j \in 1..Len(p) : p[j] = i]]) + 1]])
Transpose == IF A = {} THEN UNCHANGED vars ELSE \E i \in Pick(A) : \E p \in PickTuple(1..Len(arr[i].sh), Len(arr[i].sh)), sw \in Pick(BOOLEAN) :
             LET n == Len(p) id == [j \in 1..n |-> j] IN
             IF sw /\ n > 1 THEN View([t |-> "swapaxes", a |-> i, x |-> p[1] - 1, y |-> p[2] - 1], Perm(arr[i], [id EXCEPT ![p[1]] = p[2], ![p[2]] = p[1]]))
             ELSE View([t |-> "transpose", a |-> i, p |-> [j \in 1..n |-> p[j] - 1]], Perm(arr[i], p))
Concat == IF A = {} THEN UNCHANGED vars ELSE \E i \in Pick(A) : \E j \in Pick(A) : \E ax \in Pick(1..Len(arr[i].sh)) :
          LET a == arr[i] b == arr[j] n == Len(a.sh) IN
          IF i = j \/ a.ty # b.ty \/ Len(b.sh) # n \/ In(a) \cap In(b) # {} \/ (\E k \in 1..n : k # ax /\ a.sh[k] # b.sh[k]) THEN UNCHANGED vars ELSE
          LET rsh == [a.sh EXCEPT ![ax] = @ + b.sh[ax]] IN
          View([t |-> "concat", a |-> i, b |-> j, ax |-> ax - 1],
               Arr(a.ty, rsh, [m \in 1..Prod(rsh) |-> LET c == Co(rsh, m - 1) IN IF c[ax] < a.sh[ax] THEN a.ind[Pos(a.sh, c) + 1] ELSE b.ind[Pos(b.sh, [c EXCEPT ![ax] = @ - a.sh[ax]]) + 1]]))

(* ---- cells ---- *)
Flip == IF A = {} THEN UNCHANGED vars ELSE \E i \in Pick(A) : \E n \in Pick(1..Len(arr[i].ind)), q \in Pick(0..(Sz(arr[i].ty) - 1)) :
        LET c == arr[i].ind[n] IN Upd([t |-> "flip", a |-> i, c |-> Co(arr[i].sh, n - 1), q |-> q], {c}, LAMBDA v, k : v[k] + (IF Bt(v[k], q) = 1 THEN -1 ELSE 1) * P2(q))
Fresh == {i \in A : NoDup(arr[i]) /\ \A c \in In(arr[i]) : cells[c].st = 2}
Write == IF Fresh = {} THEN UNCHANGED vars ELSE \E i \in Pick(Fresh) : \E vs \in PickSeq(0..(P2(Sz(arr[i].ty)) - 1), Len(arr[i].ind)) :
         Upd([t |-> "write", a |-> i, vs |-> vs], In(arr[i]), LAMBDA v, k : vs[CHOOSE n \in 1..Len(vs) : arr[i].ind[n] = k])
Dup == IF A = {} THEN UNCHANGED vars ELSE \E i \in Pick(A), ini \in Pick(BOOLEAN) : LET a == arr[i] IN
       IF Len(a.ind) * Sz(a.ty) > bud THEN UNCHANGED vars ELSE NewArr([t |-> "dup", a |-> i, ini |-> ini], a.ty, a.sh, Sz(a.ty), IF ini THEN 1 ELSE 2, IF ini THEN In(a) ELSE {}, LAMBDA v, n : IF ini THEN v[a.ind[n]] ELSE 0)
Zero(a) == \A c \in In(a) : AllBr(br, LAMBDA v : v[c] = 0)
Del == LET S == {i \in A : NoDup(arr[i]) /\ Zero(arr[i])} IN IF S = {} THEN UNCHANGED vars ELSE \E i \in Pick(S) :
       /\ toks' = Append(toks, [t |-> "del", a |-> i]) /\ cells' = [c \in DOMAIN cells |-> IF c \in In(arr[i]) THEN [cells[c] EXCEPT !.st = 0] ELSE cells[c]]
       /\ UNCHANGED <<arr, br, bud>> /\ Keep
Num == {i \in A : arr[i].ty \in {"u1", "u2", "s2"} /\ NoDup(arr[i])}
Add == IF Num = {} THEN UNCHANGED vars ELSE \E i \in Pick(Num), sc \in Pick(BOOLEAN), sub \in Pick(BOOLEAN) : \E cs \in PickSeq(0..(P2(Sz(arr[i].ty)) - 1), IF sc THEN 1 ELSE Len(arr[i].ind)) :
       LET a == arr[i] n(k) == CHOOSE m \in 1..Len(a.ind) : a.ind[m] = k IN
       Upd([t |-> "add", a |-> i, cs |-> cs, sc |-> sc, sub |-> sub], In(a), LAMBDA v, k : (v[k] + (IF sub THEN -1 ELSE 1) * cs[IF sc THEN 1 ELSE n(k)]) % P2(Sz(a.ty)))
AddQ == IF Num = {} THEN UNCHANGED vars ELSE \E i \in Pick(Num), j \in Pick(A) :
        LET a == arr[i] b == arr[j] n(k) == CHOOSE m \in 1..Len(a.ind) : a.ind[m] = k IN
        IF b.ty # a.ty \/ b.sh # a.sh \/ In(a) \cap In(b) # {} THEN UNCHANGED vars
        ELSE Upd([t |-> "addq", a |-> i, b |-> j], In(a), LAMBDA v, k : (v[k] + v[b.ind[n(k)]]) % P2(Sz(a.ty)))
(* rearrangements of the elements of a one-dimensional view *)
Line == {i \in A : Len(arr[i].sh) = 1 /\ NoDup(arr[i])}
Rearr(tok, a, src(_, _)) == LET n(k) == CHOOSE m \in 1..Len(a.ind) : a.ind[m] = k IN Upd(tok, In(a), LAMBDA v, k : v[a.ind[src(v, n(k))]])
Shift == IF Line = {} THEN UNCHANGED vars ELSE \E i \in Pick(Line), s \in Pick(-5..5) : LET N == Len(arr[i].ind) IN
         Rearr([t |-> "shift", a |-> i, s |-> s], arr[i], LAMBDA v, n : ((n - 1 - s) % N) + 1)
ShiftQ == IF Line = {} \/ X = {} THEN UNCHANGED vars ELSE \E i \in Pick(Line), x \in Pick(X) : LET N == Len(arr[i].ind) c == arr[x].ind[1] IN
          Rearr([t |-> "shiftq", a |-> i, x |-> x], arr[i], LAMBDA v, n : ((n - 1 - v[c]) % N) + 1)
Permute == IF Line = {} THEN UNCHANGED vars ELSE \E i \in Pick(Line) : \E p \in PickTuple(1..Len(arr[i].ind), Len(arr[i].ind)) :
           Rearr([t |-> "permute", a |-> i, p |-> [k \in 1..Len(p) |-> p[k] - 1]], arr[i], LAMBDA v, n : p[n])
(* quantum indices: one per axis *)
QFit == {t \in A \X (X \X X) : LET a == arr[t[1]] IN NoDup(a) /\ t[2][1] # t[2][2] /\ Len(a.sh) = 2
                              /\ a.sh[1] = P2(cells[arr[t[2][1]].ind[1]].sz) /\ a.sh[2] = P2(cells[arr[t[2][2]].ind[1]].sz)}
QFit1 == {t \in A \X X : LET a == arr[t[1]] IN NoDup(a) /\ Len(a.sh) = 1 /\ a.sh[1] = P2(cells[arr[t[2]].ind[1]].sz)}
At(a, xs, v) == a.ind[Pos(a.sh, [k \in 1..Len(xs) |-> v[arr[xs[k]].ind[1]]]) + 1]
QIdx == LET S == {<<t[1], t[2]>> : t \in QFit} \cup {<<t[1], <<t[2]>>>> : t \in QFit1} IN IF S = {} THEN UNCHANGED vars ELSE
        \E t \in Pick(S), o \in PickW(<<"flip", "flip", "read", "swap">>) : LET a == arr[t[1]] IN
        IF o = "read" THEN IF Len(t[2]) > 1 \/ Sz(a.ty) > bud THEN UNCHANGED vars
          ELSE NewArr([t |-> "qread", a |-> t[1], x |-> t[2]], "el", <<>>, Sz(a.ty), 1, In(a), LAMBDA v, n : v[At(a, t[2], v)])
        ELSE IF o = "swap" THEN LET E == {j \in 1..Len(arr) : arr[j].ty = "el" /\ cells[arr[j].ind[1]].sz = Sz(a.ty)} IN
          IF E = {} \/ Len(t[2]) > 1 THEN UNCHANGED vars ELSE \E j \in Pick(E) : LET e == arr[j].ind[1] IN
          Upd([t |-> "qswap", a |-> t[1], x |-> t[2], e |-> j], In(a) \cup {e}, LAMBDA v, k : IF k = e THEN v[At(a, t[2], v)] ELSE IF k = At(a, t[2], v) THEN v[e] ELSE v[k])
        ELSE \E q \in Pick(0..(Sz(a.ty) - 1)) : Upd([t |-> "qflip", a |-> t[1], x |-> t[2], q |-> q], In(a),
               LAMBDA v, k : IF k = At(a, t[2], v) THEN v[k] + (IF Bt(v[k], q) = 1 THEN -1 ELSE 1) * P2(q) ELSE v[k])
(* reductions and element-wise relations *)
Bools == {i \in A : arr[i].ty = "bool"}
Reduce == IF Bools = {} THEN UNCHANGED vars ELSE \E i \in Pick(Bools), o \in Pick({"all", "any"}) : \E ax \in Pick(0..Len(arr[i].sh)) :
          LET a == arr[i] n == Len(a.sh) IN
          IF ax = 0 \/ n = 1 THEN IF bud < 1 \/ ~ NoDup(a) THEN UNCHANGED vars
            ELSE NewArr([t |-> "reduce", a |-> i, o |-> o, ax |-> IF n = 1 /\ ax = 1 THEN 0 ELSE 99], "bool1", <<>>, 1, 1, In(a), LAMBDA v, m : IF o = "all" THEN (IF \A c \in In(a) : v[c] = 1 THEN 1 ELSE 0) ELSE (IF \E c \in In(a) : v[c] = 1 THEN 1 ELSE 0))
          ELSE LET rsh == [j \in 1..(n - 1) |-> a.sh[IF j < ax THEN j ELSE j + 1]]
                   on(m, v) == {v[a.ind[Pos(a.sh, [k \in 1..n |-> IF k < ax THEN Co(rsh, m - 1)[k] ELSE IF k = ax THEN y ELSE Co(rsh, m - 1)[k - 1]]) + 1]] : y \in 0..(a.sh[ax] - 1)} IN
            IF Prod(rsh) > bud \/ ~ NoDup(a) THEN UNCHANGED vars
            ELSE NewArr([t |-> "reduce", a |-> i, o |-> o, ax |-> ax - 1], "bool", rsh, 1, 1, In(a), LAMBDA v, m : IF o = "all" THEN (IF on(m, v) = {1} THEN 1 ELSE 0) ELSE IF 1 \in on(m, v) THEN 1 ELSE 0)
Relate == IF Num = {} THEN UNCHANGED vars ELSE \E i \in Pick(Num), o \in Pick({"eq", "ne", "lt", "ge"}) : \E cs \in PickSeq(0..1, Len(arr[i].ind)) :
          LET a == arr[i] d(x) == IF a.ty = "s2" /\ x > 1 THEN x - 4 ELSE x
              rel(x, y) == CASE o = "eq" -> x = y [] o = "ne" -> x # y [] o = "lt" -> x < y [] OTHER -> x >= y IN
          IF Len(a.ind) > bud THEN UNCHANGED vars
          ELSE NewArr([t |-> "relate", a |-> i, o |-> o, cs |-> cs], "bool", a.sh, 1, 1, In(a), LAMBDA v, m : IF rel(d(v[a.ind[m]]), cs[m]) THEN 1 ELSE 0)

Acts == IF Tiny THEN <<"slice", "transpose", "shift">> ELSE
        IF Profile = "views" THEN <<"slice", "slice", "slice", "oob", "reshape", "transpose", "transpose", "concat", "concat", "flip", "write", "write", "dup", "dup", "del", "permute">>
        ELSE <<"slice", "transpose", "reshape", "add", "add", "addq", "addq", "shift", "shift", "shiftq", "permute", "qidx", "qidx", "qidx", "qidx", "reduce", "reduce", "relate", "dup", "flip">>
Full == Len(toks) >= len
Step == phase = "build" /\ ~ Full /\ \E t \in PickW(Acts) :
  CASE t = "slice" -> DoSlice [] t = "oob" -> Oob [] t = "reshape" -> Reshape [] t = "transpose" -> Transpose [] t = "concat" -> Concat [] t = "flip" -> Flip [] t = "write" -> Write
    [] t = "dup" -> Dup [] t = "del" -> Del [] t = "add" -> Add [] t = "addq" -> AddQ [] t = "shift" -> Shift [] t = "shiftq" -> ShiftQ [] t = "permute" -> Permute [] t = "qidx" -> QIdx
    [] t = "reduce" -> Reduce [] t = "relate" -> Relate
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<arr, cells, init, toks, br, len, bud>>
        /\ CSVWrite("%1$s", <<ToJson([init |-> init, arr |-> arr, cells |-> cells, toks |-> toks, br |-> br])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

Sane == phase = "build" => \A i \in 1..Len(arr) : Len(arr[i].ind) = Prod(arr[i].sh) /\ In(arr[i]) \subseteq 1..Len(cells)
Rev == phase = "build" => Distinct(br)
InRange == phase = "build" => AllBr(br, LAMBDA v : \A c \in 1..Len(cells) : v[c] \in 0..(P2(cells[c].sz) - 1))
=============================================================================
