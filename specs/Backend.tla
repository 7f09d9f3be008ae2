------------------------------- MODULE Backend -------------------------------
(***************************************************************************)
(* Contract of backends and of batched execution.                          *)
(* A submission (id) asks for one circuit and a number of shots (0 = exact *)
(* probabilities).  Batched submissions wait in a queue until the next     *)
(* dispatch hands them over in chunks of at most `lim` circuits; a failing *)
(* chunk ends the dispatch and its error reaches every submission that has *)
(* no result yet.  log is everything the wrapped backend was asked to do.  *)
(***************************************************************************)
EXTENDS Val

CONSTANTS MinLen, MaxLen, MaxId, MaxQ, Profile, OutFile
VARIABLES lim, opt, queue, subs, log, nerr, toks, len, phase
vars == <<lim, opt, queue, subs, log, nerr, toks, len, phase>>
Tiny == Profile = "tiny"
Codes == IF Tiny THEN {1} ELSE 0..7
ShotSet == IF Tiny THEN <<-1>> ELSE <<-1, -1, 3, 5, 20>>         (* -1: not given *)

(* sub: [c: outcome of the circuit, s: shots, st: "queued" "ok" "err" "gone", e: number of the error] *)
Init == lim = 0 /\ opt = <<0, 0>> /\ queue = <<>> /\ subs = <<>> /\ log = <<>> /\ nerr = 0 /\ toks = <<>> /\ len = 0 /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "build"
         /\ \E l \in Pick(MinLen..MaxLen), m \in PickW(IF Tiny THEN <<1, 2>> ELSE <<0, 0, 1, 2, 3>>), s \in Pick(IF Tiny THEN {0} ELSE {0, 7, 9}) :
              len' = l /\ lim' = m /\ opt' = <<s, 1>> /\ toks' = <<[t |-> "init", s |-> s]>>
         /\ UNCHANGED <<queue, subs, log, nerr>>

Shots(s) == IF s = -1 THEN opt[1] ELSE s
Tok(t) == toks' = Append(toks, t)
New(cs, s, st) == [i \in 1..Len(cs) |-> [c |-> cs[i], s |-> Shots(s), st |-> st, e |-> 0]]
Ids(n) == [i \in 1..n |-> Len(subs) + i]
PickCs(k) == UNION {PickSeq(Codes, n) : n \in PickW(IF Tiny THEN <<1, 2>> ELSE <<1, 1, 2, 3, 4>>)}
Room(cs) == Len(subs) + Len(cs) <= MaxId /\ Len(queue) + Len(cs) <= MaxQ

(* submit to the queue; high: through a quantum variable *)
Enq == \E cs \in PickCs(Len(toks)), s \in PickW(ShotSet), form \in PickW(IF Tiny THEN <<"raw">> ELSE <<"raw", "raw", "var", "multi">>) :
       IF ~ Room(cs) THEN UNCHANGED vars ELSE
       LET ds == IF form = "raw" THEN cs ELSE <<cs[1]>> IN
       /\ Tok([t |-> "enq", cs |-> ds, s |-> s, form |-> form])
       /\ subs' = subs \o New(ds, s, "queued") /\ queue' = queue \o Ids(Len(ds))
       /\ UNCHANGED <<lim, opt, log, nerr, len, phase>>
(* refused submissions change nothing *)
Bad == \E w \in Pick({"zero", "neg", "bool", "float", "str"}), d \in Pick(BOOLEAN) : Tok([t |-> "bad", w |-> w, direct |-> d]) /\ UNCHANGED <<lim, opt, queue, subs, log, nerr, len, phase>>

Chunk == IF lim = 0 THEN MaxI(Len(queue), 1) ELSE lim
NCh == (Len(queue) + Chunk - 1) \div Chunk
Item(i) == <<subs[i].c, subs[i].s>>
ChunkOf(k) == SubSeq(queue, (k - 1) * Chunk + 1, MinI(k * Chunk, Len(queue)))
Settled(n) == UNION {{ChunkOf(k)[j] : j \in 1..Len(ChunkOf(k))} : k \in 1..n}
(* f: the chunk that fails (0: none), w: where; extra: circuit submitted to the queue while the first chunk runs (-1: none) *)
Dispatch == \E ff \in (IF Tiny THEN 0..NCh ELSE PickW(<<0, 0, 1, 2, 3>>)), w \in Pick({"submit", "result"}), x \in PickW(IF Tiny THEN <<-1>> ELSE <<-1, -1, -1, 2, 6>>) :
       LET f == IF ff > NCh \/ queue = <<>> THEN 0 ELSE ff
           g == IF queue = <<>> \/ Len(subs) >= MaxId THEN -1 ELSE x
           n == IF f = 0 THEN NCh ELSE f - 1
           ok == IF queue = <<>> THEN {} ELSE Settled(n)
           all == {queue[i] : i \in 1..Len(queue)}
           after == [i \in 1..Len(subs) |-> IF i \in ok THEN [subs[i] EXCEPT !.st = "ok"] ELSE IF i \in all THEN [subs[i] EXCEPT !.st = "err", !.e = nerr + 1] ELSE subs[i]] IN
       /\ Tok([t |-> "dispatch", f |-> f, w |-> w, x |-> g])
       /\ log' = log \o [k \in 1..(IF f = 0 THEN (IF queue = <<>> THEN 0 ELSE NCh) ELSE f) |-> [j \in 1..Len(ChunkOf(k)) |-> Item(ChunkOf(k)[j])]]
       /\ nerr' = IF f = 0 THEN nerr ELSE nerr + 1
       /\ IF g = -1 THEN subs' = after /\ queue' = <<>>
          ELSE subs' = after \o New(<<g>>, -1, "queued") /\ queue' = <<Len(subs) + 1>>
       /\ UNCHANGED <<lim, opt, len, phase>>
Clear == /\ Tok([t |-> "clear"]) /\ queue' = <<>>
         /\ subs' = [i \in 1..Len(subs) |-> IF subs[i].st = "queued" THEN [subs[i] EXCEPT !.st = "gone"] ELSE subs[i]]
         /\ UNCHANGED <<lim, opt, log, nerr, len, phase>>
(* direct execution on the wrapped backend, f: fails *)
Run == \E cs \in PickCs(Len(toks)), s \in PickW(ShotSet), f \in PickW(IF Tiny THEN <<FALSE>> ELSE <<FALSE, FALSE, TRUE>>), w \in Pick({"submit", "result"}), job \in Pick(BOOLEAN) :
       LET over == lim > 0 /\ Len(cs) > lim IN
       IF Len(subs) + Len(cs) > MaxId THEN UNCHANGED vars ELSE
       /\ Tok([t |-> "run", cs |-> cs, s |-> s, f |-> f, w |-> w, job |-> job, over |-> over])
       /\ log' = IF over THEN log ELSE Append(log, [i \in 1..Len(cs) |-> <<cs[i], Shots(s)>>])
       /\ subs' = IF over \/ f THEN subs ELSE subs \o New(cs, s, "ok")
       /\ UNCHANGED <<lim, opt, queue, nerr, len, phase>>
(* options; a queued submission without a number of shots fixes that of the option *)
Upd == \E w \in Pick({"shots", "tag", "both", "unknown", "badshots"}), n \in Pick({4, 6, 11}), v \in Pick(2..5) :
       IF w \in {"shots", "both"} /\ opt[1] = 0 THEN UNCHANGED vars ELSE
       /\ Tok([t |-> "opt", w |-> w, n |-> n, v |-> v])
       /\ opt' = CASE w = "shots" -> <<n, opt[2]>> [] w = "tag" -> <<opt[1], v>> [] w = "both" -> <<n, v>> [] OTHER -> opt
       /\ UNCHANGED <<lim, queue, subs, log, nerr, len, phase>>
Read == IF subs = <<>> THEN UNCHANGED vars ELSE \E i \in Pick(1..Len(subs)), how \in Pick({"get", "len", "iter", "eq", "repr", "dict"}) :
        Tok([t |-> "read", i |-> i, how |-> how, st |-> subs[i].st, e |-> subs[i].e, c |-> subs[i].c, s |-> subs[i].s]) /\ UNCHANGED <<lim, opt, queue, subs, log, nerr, len, phase>>

Acts == IF Tiny THEN <<"enq", "dispatch", "clear", "run">> ELSE <<"enq", "enq", "enq", "dispatch", "dispatch", "clear", "run", "opt", "read", "read", "bad">>
Full == Len(toks) > len
Step == phase = "build" /\ ~ Full /\ \E t \in PickW(Acts) :
  CASE t = "enq" -> Enq [] t = "dispatch" -> Dispatch [] t = "clear" -> Clear [] t = "run" -> Run [] t = "opt" -> Upd [] t = "read" -> Read [] t = "bad" -> Bad
Emit == /\ phase = "build" /\ Full /\ phase' = "done" /\ UNCHANGED <<lim, opt, queue, subs, log, nerr, toks, len>>
        /\ CSVWrite("%1$s", <<ToJson([lim |-> lim, opt |-> opt, queue |-> queue, subs |-> subs, log |-> log, toks |-> toks])>>, OutFile)
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

Flat == FoldSeq(LAMBDA ch, a : a \o ch, <<>>, log)
(* the queue holds exactly the waiting submissions, in order of submission *)
QueueOk == /\ {queue[i] : i \in 1..Len(queue)} = {i \in 1..Len(subs) : subs[i].st = "queued"}
           /\ \A i, j \in 1..Len(queue) : i < j => queue[i] < queue[j]
(* a submission with a result was executed, nothing is executed more often than submitted *)
OnceOk == \A c \in {subs[i].c : i \in 1..Len(subs)} :
            Cardinality({i \in 1..Len(subs) : subs[i].c = c /\ subs[i].st = "ok"}) <= Cardinality({k \in 1..Len(Flat) : Flat[k][1] = c})
LimitOk == lim > 0 => \A k \in 1..Len(log) : Len(log[k]) <= lim /\ Len(log[k]) >= 1
ErrOk == \A i \in 1..Len(subs) : subs[i].st = "err" <=> subs[i].e > 0
=============================================================================
