--------------------------------- MODULE Ens ---------------------------------
(***************************************************************************)
(* Ensembles: all measurement branches of a program with classical bits.   *)
(* An ensemble is a sequence of records                                    *)
(*   [cl |-> classical bits, st |-> unnormalised quantum state].           *)
(* Steps: gate, block (gates under common controls), measure, reset, cif.  *)
(***************************************************************************)
EXTENDS QSem, Sequences, SequencesExt

(* branch selection *)
Part(st, q, b) == LET S == {x \in DOMAIN st.v : Bit(x, q) = b}
                  IN  [st EXCEPT !.v = [x \in S |-> st.v[x]]]
FlipQ(st, q) == LET W == {Flip(x, q) : x \in DOMAIN st.v}
                IN  [st EXCEPT !.v = [x \in W |-> st.v[Flip(x, q)]]]
Alive(br) == DOMAIN br.st.v # {}

StepBranch(br, o) ==
  CASE o.t = "gate"    -> <<[br EXCEPT !.st = ApplyOp(@, o.op)]>>
    [] o.t = "block"   -> <<[br EXCEPT !.st = Run(@, WithCtrl(o.ops, o.c, o.s))]>>
    [] o.t = "measure" -> SelectSeq(<<[cl |-> [br.cl EXCEPT ![o.c] = 0], st |-> Part(br.st, o.q, 0)],
                                      [cl |-> [br.cl EXCEPT ![o.c] = 1], st |-> Part(br.st, o.q, 1)]>>, Alive)
    [] o.t = "reset"   -> SelectSeq(<<[br EXCEPT !.st = Part(@, o.q, 0)],
                                      [br EXCEPT !.st = FlipQ(Part(@, o.q, 1), o.q)]>>, Alive)
    [] o.t = "cif"     -> IF \A i \in 1..Len(o.c) : br.cl[o.c[i]] = o.s[i]
                          THEN <<[br EXCEPT !.st = ApplyOp(@, o.op)]>> ELSE <<br>>

RECURSIVE StepAll(_, _)
StepAll(e, o) == IF e = <<>> THEN <<>> ELSE StepBranch(Head(e), o) \o StepAll(Tail(e), o)

(* total probability over all branches is one: bring to a common denominator *)
RECURSIVE MaxK(_) 
MaxK(e) == IF e = <<>> THEN 0 ELSE LET r == MaxK(Tail(e)) IN IF Head(e).st.k > r THEN Head(e).st.k ELSE r
RECURSIVE Total(_, _)
Total(e, K) == IF e = <<>> THEN <<0, 0>>
               ELSE LET r == SumSq(Head(e).st.v, DOMAIN Head(e).st.v)
                        f == IPow(2, K - Head(e).st.k)
                        t == Total(Tail(e), K)
                    IN  <<r[1] * f + t[1], r[2] * f + t[2]>>
NormOne(e) == Total(e, MaxK(e)) = <<IPow(2, MaxK(e)), 0>>

(* outcome record handed to the replay *)
Outcomes(e, m) == [i \in 1..Len(e) |-> [cl |-> [j \in 1..m |-> e[i].cl[j-1]], p |-> Prob(e[i].st, DOMAIN e[i].st.v)]]
=============================================================================
