------------------------------ MODULE Abstract ------------------------------
(* What parsers mean, independently of how they are run.                     *)
(*                                                                           *)
(* Peg      ordered choice with commitment on consumption, sequencing,       *)
(*          greedy repetition and lexically scoped layout marks, as a        *)
(*          function of the parser and the position: the meaning of a parse  *)
(*          without recovery (C01 C02 C03 C10 C11 C14 C15 C17).              *)
(* Derives  the grammar read as a plain (ambiguous, context-free) grammar    *)
(*          over an edited input: what a repair has to explain (C06).        *)
(* EditsOk, WithinBudget   shape of the edits (C06 C07).                     *)
(* The parsing machine (Machine.tla) and recorded behaviour of the library   *)
(* are both checked against these definitions.                               *)
EXTENDS Machine

Undefined == [ok |-> FALSE, v |-> NoneV, p |-> 0, d |-> TRUE, t |-> << >>, u |-> << >>, x |-> "runtime"]
Exploded == [Undefined EXCEPT !.x = "boom"]
(* t: the primitives that were tried and failed, in grammar order, as        *)
(* <<position, descriptions>>;  u: the calls of user functions, in order;    *)
(* x: "" or the exception raised                                             *)
POk(v, p, d, t) == [ok |-> TRUE, v |-> v, p |-> p, d |-> d, t |-> t, u |-> << >>, x |-> ""]
PFail(d, t) == [ok |-> FALSE, v |-> NoneV, p |-> 0, d |-> d, t |-> t, u |-> << >>, x |-> ""]
Calling(r, u) == [r EXCEPT !.u = r.u \o u]
After(ra, rb) == [rb EXCEPT !.u = ra.u \o rb.u]
(* a call [n parser, v what the function is given; 0 and the result for a    *)
(* chained operator]                                                         *)
Call(n, v) == [n |-> n, v |-> v]
LeafCalls(nd, n, p) ==
  IF nd.k \in {"purefn", "purelist"} THEN <<Call(n, NoneV)>>
  ELSE IF (nd.k = "sat" \/ (nd.k = "tok" /\ env.km # "lex")) /\ p < Len(Inp) THEN <<Call(n, ElemVal(Inp[p + 1]))>>
  ELSE << >>
RECURSIVE FoldLCalls(_, _), FoldRCalls(_, _)
FoldLCalls(acc, tail) ==
  IF tail = << >> THEN << >>
  ELSE LET r == OpV(Head(tail).c[1], acc, Head(tail).c[2]) IN <<Call(0, r)>> \o FoldLCalls(r, Tail(tail))
FoldRCalls(first, tail) ==                     \* also the value, which the next call needs
  IF tail = << >> THEN [v |-> first, u |-> << >>]
  ELSE LET rest == FoldRCalls(Head(tail).c[2], Tail(tail))
           r == OpV(Head(tail).c[1], first, rest.v)
       IN [v |-> r, u |-> Append(rest.u, Call(0, r))]
MapUser(nd, n, v) ==
  CASE nd.k \in {"fmap", "apply"} -> <<Call(n, v)>>
    [] nd.k = "chainl1" -> FoldLCalls(v.c[1], v.c[2].c)
    [] nd.k = "chainr1" -> FoldRCalls(v.c[1], v.c[2].c).u
    [] OTHER -> << >>

Col(p) == LocAt(env.km, Inp, p).c

RECURSIVE Peg(_, _, _), PegMany(_, _, _, _, _, _, _)
(* the second parser runs where the first one stopped *)
PegThen(k, ra, rb) ==
  IF rb.x # "" THEN After(ra, rb)
  ELSE Calling(IF rb.ok THEN POk(Merge(k, ra.v, rb.v), rb.p, ra.d \/ rb.d, ra.t \o rb.t)
               ELSE PFail(ra.d \/ rb.d, ra.t \o rb.t), ra.u \o rb.u)

Peg(n, p, mk) ==
  LET nd == Node(n)
      Sub(m) == Peg(m, p, mk)
      Layout(ok, m2) == IF ok THEN Peg(nd.a, p, m2) ELSE PFail(FALSE, <<<<p, <<"indentation">>>>>>)
  IN
  CASE nd.k \in MatchLeaves ->
         Calling(IF Explodes(nd, Cal(n, p, Ctx0, TRUE, -1, -1)) THEN Exploded
                 ELSE LET m == Match(nd, p)
                      IN IF m.ok THEN POk(m.v, m.p, m.p > p, << >>) ELSE PFail(FALSE, <<<<p, LeafExp(nd)>>>>),
                 LeafCalls(nd, n, p))
    [] nd.k = "eof" -> IF p = Len(Inp) THEN POk(NoneV, p, FALSE, << >>) ELSE PFail(FALSE, <<<<p, <<nd.l>>>>>>)
    [] nd.k \in {"pure", "purefn", "purelist"} -> Calling(POk(PureVal(nd), p, FALSE, << >>), LeafCalls(nd, n, p))
    [] nd.k = "unexp" -> PFail(FALSE, <<<<p, <<nd.l>>>>>>)
    [] nd.k \in Mapping ->
         LET r == Sub(MapTarget(nd, n))
         IN IF ~r.ok THEN r
            ELSE Calling(IF MapBooms(nd, r.v) THEN After(r, Exploded) ELSE [r EXCEPT !.v = MapVal(nd, r.v)],
                         MapUser(nd, n, r.v))
    [] nd.k = "between" -> Sub(8 * VBase + n)
    [] nd.k = "delay" -> IF Definitions(n) = {} THEN Undefined
                         ELSE Sub((CHOOSE d \in Definitions(n) : TRUE)[2])
    [] nd.k = "label" -> LET r == Sub(nd.a) IN IF r.d THEN r ELSE [r EXCEPT !.t = <<<<p, <<nd.l>>>>>>]
    [] nd.k \in Seqs \cup {"bind"} ->
         LET ra == Sub(nd.a)
             rq == IF nd.k = "bind" THEN Calling(ra, <<Call(n, ra.v)>>) ELSE ra
         IN IF ~ra.ok THEN ra ELSE PegThen(nd.k, rq, Peg(SecondOf(nd, ra.v), ra.p, mk))
    [] nd.k = "alt" ->
         LET ra == Sub(nd.a)
         IN IF ra.ok \/ ra.d THEN ra
            ELSE LET rb == Sub(nd.b) IN [rb EXCEPT !.t = ra.t \o rb.t, !.u = ra.u \o rb.u]
    [] nd.k = "maybe" ->
         LET ra == Sub(nd.a) IN IF ra.ok \/ ra.d THEN ra ELSE Calling(POk(NoneV, p, FALSE, ra.t), ra.u)
    [] nd.k = "many" -> PegMany(nd.a, p, mk, << >>, FALSE, << >>, << >>)
    [] nd.k = "attempt" -> LET r == Sub(nd.a) IN IF r.ok \/ r.x # "" THEN r ELSE [r EXCEPT !.d = FALSE]
    [] nd.k \in {"recover", "rwith", "rwithfn"} -> Sub(nd.a)
    [] nd.k = "block" -> Peg(nd.a, p, Col(p))
    [] nd.k = "aligned" -> Layout(mk = Col(p), mk)
    [] nd.k = "indented" -> Layout(mk + nd.n = Col(p), Col(p))

PegMany(a, p, mk, vs, d, t, u) ==
  LET r == Peg(a, p, mk)
      u2 == u \o r.u
  IN IF r.x # "" THEN [r EXCEPT !.u = u2]
     ELSE IF r.ok THEN IF r.d THEN PegMany(a, r.p, mk, Append(vs, r.v), TRUE, t \o r.t, u2) ELSE Calling(Undefined, u2)
     ELSE IF r.d THEN Calling(PFail(TRUE, t \o r.t), u2)
     ELSE Calling(POk(ListV(vs), p, d, t \o r.t), u2)

(* with a run's env in force: meaning of parsing from the start *)
PegRun(n) == Peg(n, 0, 0)

(* the descriptions of everything tried at position q, in grammar order *)
RECURSIVE TriedAt(_, _)
TriedAt(t, q) == IF t = << >> THEN << >>
                 ELSE (IF Head(t)[1] = q THEN Head(t)[2] ELSE << >>) \o TriedAt(Tail(t), q)
Furthest(t) == MaxOf({t[j][1] : j \in 1..Len(t)})

AttemptFree == \A j \in 1..Len(Graph(env.g)) : Graph(env.g)[j].k # "attempt"

------------------------------------------------------------------------------
(* Edited inputs.  An edit is [k, n, b, p]: k "ins"/"skip", n elements       *)
(* skipped, b label inserted, p stream index.                                *)
Index(it) == CASE env.km = "lex" -> Cardinality({j \in 1..Len(Inp) : Inp[j].o.p < it.p})
               [] env.km = "abs" -> 3 * it.l + it.c
               [] OTHER          -> it.p
Edits(items) == [j \in 1..Len(items) |->
                   [k |-> items[j].k, n |-> items[j].n, b |-> items[j].b, p |-> Index(items[j])]]

EditEnd(e) == IF e.k = "skip" THEN e.p + e.n ELSE e.p
EditsOk(es) ==
  \A j \in 1..Len(es) :
     /\ es[j].k \in {"ins", "skip"}
     /\ es[j].k = "skip" => es[j].n >= 1
     /\ es[j].p >= 0 /\ EditEnd(es[j]) <= Len(Inp)
     /\ j > 1 => es[j].p >= EditEnd(es[j - 1])

(* no more than mi insertions with nothing consumed or skipped between them *)
WithinBudget(es, mi) ==
  \A i, j \in 1..Len(es) :
     (i <= j /\ \A k \in i..j : es[k].k = "ins" /\ es[k].p = es[i].p) => j - i + 1 <= mi

(* The edited text: real elements [t "r", p index], insertions [t "i", p, b] *)
Real(from, to) == [j \in 1..(to - from) |-> [t |-> "r", p |-> from + j - 1, b |-> ""]]
RECURSIVE Tape(_, _, _)
Tape(es, j, at) ==
  IF j > Len(es) THEN Real(at, Len(Inp))
  ELSE Real(at, es[j].p)
       \o (IF es[j].k = "ins" THEN <<[t |-> "i", p |-> es[j].p, b |-> es[j].b]>> ELSE << >>)
       \o Tape(es, j + 1, EditEnd(es[j]))

(* positions at which an empty match may have been found in front of item i *)
GapPositions(tp, i) ==
  (IF i = 1 THEN 0 ELSE IF tp[i - 1].t = "r" THEN tp[i - 1].p + 1 ELSE tp[i - 1].p)
  ..(IF i > Len(tp) THEN Len(Inp) ELSE tp[i].p)

LeafInserts(nd, b, p) ==        \* values an inserted b may stand for
  CASE nd.k = "sym" /\ nd.l = b ->
         {SymVal(nd)}
    [] nd.k = "lit" /\ nd.l = b -> {T("tok", CatStr(nd.ts), 0, << >>)}
    [] nd.k = "tokins" /\ nd.l = b -> {TokInsVal(nd, Cal(0, p, Ctx0, FALSE, 0, 0))}
    [] nd.k \in {"rwith", "rwithfn"} /\ At_(nd.l, p) = b -> {InsVal(nd, Cal(0, p, Ctx0, FALSE, 0, 0))}
    [] OTHER -> {}

Contiguous(tp, i, len) ==
  i + len - 1 <= Len(tp) /\ \A j \in 0..(len - 1) : tp[i + j].t = "r" /\ tp[i + j].p = tp[i].p + j

LeafDerives(nd, tp, i) ==
     (IF i <= Len(tp) /\ tp[i].t = "r"
      THEN LET m == Match(nd, tp[i].p)
           IN IF m.ok /\ m.p > tp[i].p /\ Contiguous(tp, i, m.p - tp[i].p)
              THEN {[j |-> i + (m.p - tp[i].p), v |-> m.v]} ELSE {}
      ELSE {})
  \cup (IF nd.k # "rex" THEN {}
        ELSE {[j |-> i, v |-> Match(nd, q).v] :
                 q \in {q \in GapPositions(tp, i) : Match(nd, q).ok /\ Match(nd, q).p = q}})

RECURSIVE Derives(_, _, _), DerivesMany(_, _, _)
(* all [j, v] such that the parser derives items i..j-1 of the tape with v *)
Derives(n, tp, i) ==
  LET nd == Node(n)
      Ins == IF i <= Len(tp) /\ tp[i].t = "i"
             THEN {[j |-> i + 1, v |-> v] : v \in LeafInserts(nd, tp[i].b, tp[i].p)} ELSE {}
      Sub(m) == Derives(m, tp, i)
  IN
  CASE nd.k \in MatchLeaves -> LeafDerives(nd, tp, i) \cup Ins
    [] nd.k = "eof" -> IF \A j \in i..Len(tp) : tp[j].t = "i" THEN {[j |-> i, v |-> NoneV]} ELSE {}
    [] nd.k \in {"pure", "purefn", "purelist"} -> {[j |-> i, v |-> PureVal(nd)]}
    [] nd.k = "unexp" -> {}
    [] nd.k \in Mapping -> {[j |-> r.j, v |-> MapVal(nd, r.v)] : r \in Sub(MapTarget(nd, n))}
    [] nd.k = "between" -> Sub(8 * VBase + n)
    [] nd.k = "delay" -> IF Definitions(n) = {} THEN {} ELSE Sub((CHOOSE d \in Definitions(n) : TRUE)[2])
    [] nd.k \in Seqs \cup {"bind"} ->
         UNION {{[j |-> rb.j, v |-> Merge(nd.k, ra.v, rb.v)] : rb \in Derives(SecondOf(nd, ra.v), tp, ra.j)}
                : ra \in Sub(nd.a)}
    [] nd.k = "alt" -> Sub(nd.a) \cup Sub(nd.b)
    [] nd.k = "maybe" -> Sub(nd.a) \cup {[j |-> i, v |-> NoneV]}
    [] nd.k = "many" -> {[j |-> r.j, v |-> ListV(r.v)] : r \in DerivesMany(nd.a, tp, i)}
    [] nd.k \in {"rwith", "rwithfn"} -> Sub(nd.a) \cup Ins
    [] OTHER -> Sub(nd.a)                       \* attempt label recover block aligned indented
DerivesMany(a, tp, i) ==
  {[j |-> i, v |-> << >>]} \cup
  UNION {{[j |-> w.j, v |-> <<r.v>> \o w.v] : w \in DerivesMany(a, tp, r.j)}
         : r \in {r \in Derives(a, tp, i) : r.j > i}}

(* the edited input is derived, entirely up to what the parser leaves over,  *)
(* with this value *)
Explains(n, es, v) ==
  LET tp == Tape(es, 1, 0)
  IN \E r \in Derives(n, tp, 1) : r.v = v /\ \A j \in r.j..Len(tp) : tp[j].t = "r"
=============================================================================
