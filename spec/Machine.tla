------------------------------ MODULE Machine -------------------------------
(* The parsing machine: an explicit small-step model of how reparsec         *)
(* evaluates a parser built from its public combinators on a stream, in      *)
(* plain mode and in error-recovery mode.                                    *)
(*                                                                           *)
(* A parser is a node of an arena (a sequence of node records); a reference  *)
(* to another node is its index, so forward declarations (Delay) and         *)
(* recursive grammars are just references.  Node fields:                     *)
(*   k kind, a b c children, ks children list, ts strings,                   *)
(*   s token kind, v token value, l label, n integer parameter.              *)
(* A stream is a sequence of elements [k kind, v value, n payload (-1: the   *)
(*   element is a plain character), o start location, z end location]        *)
(*   (o and z only matter to km = "lex").                                    *)
(*                                                                           *)
(* One run is fixed by env:                                                  *)
(*   g arena id, i stream id, km location tracking, mi max_insertions,       *)
(*   defd the definitions made so far, a set of <<Delay node, its parser>>.  *)
(* State: pc, cal (the call to evaluate), ret (the result being returned),   *)
(* stk (continuation frames, innermost first), fnlog (positions at which     *)
(* recover_with_fn callbacks ran).                                           *)
EXTENDS Values, Location

CONSTANTS Graph(_), Input(_)

VARIABLES env, pc, cal, ret, stk, fnlog
mvars == <<env, pc, cal, ret, stk, fnlog>>

------------------------------------------------------------------------------
(* Nodes.  Derived combinators are defined by their documented expansion     *)
(* into primitive ones: virtual node  code * VBase + i  belongs to node i.   *)
VBase == 10000

NodeRec(k, a, b) == [k |-> k, a |-> a, b |-> b, c |-> 0, ks |-> << >>, ts |-> << >>,
                     s |-> "", v |-> "", l |-> "", n |-> 0]

Node(j) ==
  IF j < VBase THEN Graph(env.g)[j]
  ELSE LET i == j % VBase
           d == j \div VBase
           o == Graph(env.g)[i]
           V(e) == e * VBase + i
       IN CASE d = 1 -> NodeRec("maybe", V(2), 0)        \* sep_by: maybe(p + many(sep >> p))
            [] d = 2 -> NodeRec("seq", o.a, V(3))
            [] d = 3 -> NodeRec("many", V(4), 0)
            [] d = 4 -> NodeRec("seqr", o.b, o.a)
            [] d = 5 -> NodeRec("seq", o.a, V(6))        \* chains: p + many(op + p)
            [] d = 6 -> NodeRec("many", V(7), 0)
            [] d = 7 -> NodeRec("seq", o.b, o.a)
            [] d = 8 -> NodeRec("seqr", o.a, V(9))       \* between: open >> (p << close)
            [] d = 9 -> NodeRec("seql", o.c, o.b)

Inp == Input(env.i)

------------------------------------------------------------------------------
(* Results.  k: "ok", "err", "rec" (one or more repairs), "exc" (the parse   *)
(* raised).  v value, p position, x context, e expected descriptions,        *)
(* d input was consumed, o error location, r repairs.                        *)
Ctx0 == [mark |-> 0, loc |-> L(0, 0, 0)]
NoLoc == L(0, 0, 0)

Ok(v, p, x, e, d) == [k |-> "ok", v |-> v, p |-> p, x |-> x, e |-> e, d |-> d, o |-> NoLoc, r |-> << >>]
Err(o, e, d) == [k |-> "err", v |-> NoneV, p |-> 0, x |-> Ctx0, e |-> e, d |-> d, o |-> o, r |-> << >>]
Rec(r, o, e, d) == [k |-> "rec", v |-> NoneV, p |-> 0, x |-> Ctx0, e |-> e, d |-> d, o |-> o, r |-> r]
Exc(why) == [Err(NoLoc, <<why>>, TRUE) EXCEPT !.k = "exc"]

(* A repair: c cost, q priority (-1 automatic insertion, 0 otherwise),       *)
(* i insertions left, s edits, and the result it leads to.                   *)
Op(k, n, b, o, e, d) == [k |-> k, n |-> n, b |-> b, o |-> o, e |-> e, d |-> d]
Rep(c, q, i, s, v, p, x, e, d) ==
  [c |-> c, q |-> q, i |-> i, s |-> s, v |-> v, p |-> p, x |-> x, e |-> e, d |-> d]

InsertRep(rem, q, v, p, x, o, lab, exp) ==
  Rep(1, q, rem - 1, <<Op("ins", 0, lab, o, exp, FALSE)>>, v, p, x, << >>, TRUE)
SkipRep(ins, v, p, x, o, n, exp) ==
  Rep(n, 0, ins, <<Op("skip", n, "", o, exp, FALSE)>>, v, p, x, << >>, TRUE)
PendingSkipRep(ins, v, p, x, o, n, exp) ==
  Rep(n, 0, ins, <<Op("skip", n, "", o, exp, FALSE)>>, v, p, x, << >>, FALSE)

GetLoc(x, p) == IncLoc(env.km, Inp, x.loc, p)
UpdLoc(x, p) == [x EXCEPT !.loc = GetLoc(x, p)]

SetExpOps(ops, exp) == [j \in 1..Len(ops) |-> IF ops[j].d THEN ops[j] ELSE [ops[j] EXCEPT !.e = exp]]
PrepOps(ops, exp, d) ==
  [j \in 1..Len(ops) |-> IF ops[j].d THEN ops[j]
                         ELSE [ops[j] EXCEPT !.e = exp \o ops[j].e, !.d = d]]

SetExpected(res, exp) ==
  LET r1 == IF res.d THEN res ELSE [res EXCEPT !.e = exp]
  IN  IF res.k # "rec" THEN r1
      ELSE [r1 EXCEPT !.r = [j \in 1..Len(res.r) |->
              LET rp == res.r[j]
              IN  [rp EXCEPT !.e = IF rp.d THEN rp.e ELSE exp, !.s = SetExpOps(rp.s, exp)]]]

Prepend(res, exp, d) ==
  LET r1 == IF res.d THEN res ELSE [res EXCEPT !.e = exp \o res.e, !.d = d]
  IN  IF res.k # "rec" THEN r1
      ELSE [r1 EXCEPT !.r = [j \in 1..Len(res.r) |->
              LET rp == res.r[j]
              IN  [rp EXCEPT !.e = IF rp.d THEN rp.e ELSE exp \o rp.e,
                             !.d = rp.d \/ d,
                             !.s = PrepOps(rp.s, exp, d)]]]

SetCtx(res, x) ==
  IF res.k = "ok" THEN [res EXCEPT !.x = x]
  ELSE IF res.k = "rec"
       THEN [res EXCEPT !.r = [j \in 1..Len(res.r) |-> [res.r[j] EXCEPT !.x = x]]]
       ELSE res

(* what the mapping combinators do to a value *)
MapVal(nd, v) ==
  CASE nd.k = "fmap"    -> CASE nd.s = "hop" -> T("hop", "", nd.n + Check(v), << >>)
                             [] nd.s = "rop" -> T("rop", nd.v, nd.n, << >>)   \* an operator that ignores its operands
                             [] nd.s = "raw" -> RawVal(nd.v)          \* a constant, whatever it is given
                             [] nd.s = "fst" -> v.c[1]
                             [] nd.s = "snd" -> v.c[2]
                             [] nd.s = "cons" -> IF v = NoneV THEN ListV(<< >>) ELSE ListV(<<v.c[1]>> \o v.c[2].c)
                             [] OTHER -> T("f", "", nd.n, <<v>>)
    [] nd.k = "apply"   -> T("ap", "", nd.n, v.c)
    [] nd.k = "sepby"   -> IF v = NoneV THEN ListV(<< >>) ELSE ListV(<<v.c[1]>> \o v.c[2].c)
    [] nd.k = "chainl1" -> FoldL(v.c[1], v.c[2].c)
    [] nd.k = "chainr1" -> FoldR(v.c[1], v.c[2].c)
    [] OTHER            -> v

(* a mapping function that raises on some values *)
MapBooms(nd, v) == nd.k = "fmap" /\ nd.s = "boom" /\ KeyOf(v) = nd.v
MapRaises(nd, res) == \/ res.k = "ok" /\ MapBooms(nd, res.v)
                      \/ res.k = "rec" /\ \E j \in 1..Len(res.r) : MapBooms(nd, res.r[j].v)
MapRes(nd, res) ==
  IF res.k = "ok" THEN [res EXCEPT !.v = MapVal(nd, res.v)]
  ELSE IF res.k = "rec"
       THEN [res EXCEPT !.r = [j \in 1..Len(res.r) |-> [res.r[j] EXCEPT !.v = MapVal(nd, res.r[j].v)]]]
       ELSE res

(* how two sequenced values are combined *)
Merge(k, va, vb) ==
  CASE k \in {"seq", "then"} -> TupV(<<va, vb>>)
    [] k = "seql"  -> va
    [] k = "seqr"  -> vb
    [] k = "thenN" -> TupV(Append(va.c, vb))
    [] OTHER       -> vb                                \* bind

MergeRes(k, va, res) ==
  IF res.k = "ok" THEN [res EXCEPT !.v = Merge(k, va, res.v)]
  ELSE IF res.k = "rec"
       THEN [res EXCEPT !.r = [j \in 1..Len(res.r) |-> [res.r[j] EXCEPT !.v = Merge(k, va, res.r[j].v)]]]
       ELSE res

------------------------------------------------------------------------------
(* Matching at a stream position, for the parsers that look at the stream.   *)
(* Result [ok, v, p]: matched, value, position after the match.              *)
No == [ok |-> FALSE, v |-> NoneV, p |-> 0]
Yes(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

(* equal but not identical *)
SameRaw(c, d) == {c, d} \in {{"i0", "false"}, {"i1", "true"}}

(* a token carries its start and end *)
TokVal(k, v, o, z) ==
  T("obj", k \o ":" \o v, o.p + 1,
    <<T("at", ToString(o.l) \o ":" \o ToString(o.c) \o "-" \o ToString(z.p) \o ":" \o ToString(z.l) \o ":" \o ToString(z.c),
        0, << >>)>>)
(* the element an automatic insertion stands for: the argument of sym *)
SymVal(nd) == IF nd.s = "raw" THEN RawVal(nd.v)
              ELSE IF nd.n = 0 THEN T("tok", nd.v, 0, << >>)
              ELSE IF env.km = "lex" THEN TokVal(nd.s, nd.v, L(0, 0, 0), L(0, 0, 0))
              ELSE T("obj", nd.s \o ":" \o nd.v, 0, << >>)

ElemVal(el) == IF el.k = "raw" THEN RawVal(el.v)
               ELSE IF el.n = -1 THEN T("tok", el.v, 0, << >>)
               ELSE IF env.km = "lex" THEN TokVal(el.k, el.v, el.o, el.z)
             ELSE T("obj", el.k \o ":" \o el.v, el.n, << >>)

RECURSIVE RunLen(_, _)
(* how many elements from position p on belong to the class *)
RunLen(cls, p) == IF p < Len(Inp) /\ InSeq(Inp[p + 1].v, cls) THEN 1 + RunLen(cls, p + 1) ELSE 0

RECURSIVE LineLen(_)
LineLen(p) == IF (p < Len(Inp) /\ Inp[p + 1].v # NL) THEN 1 + LineLen(p + 1) ELSE 0

Text(p, q) == T("tok", JoinStr(Inp, p + 1, q), 0, << >>)

RexMatch(nd, p) ==
  LET n == RunLen(nd.ts, p)
  IN CASE nd.s = "one"  -> IF n > 0 THEN Yes(Text(p, p + 1), p + 1) ELSE No
       [] nd.s = "star" -> Yes(Text(p, p + n), p + n)
       [] nd.s = "plus" -> IF n > 0 THEN Yes(Text(p, p + n), p + n) ELSE No
       [] nd.s = "opt"  -> IF n > 0 /\ p + 1 < Len(Inp) /\ Inp[p + 2].v = nd.v
                           THEN Yes(Text(p, p + 1), p + 2) ELSE No
       [] nd.s = "pre"  -> IF n > 0 THEN LET m == p + n + (IF p + n < Len(Inp) /\ Inp[p + n + 1].v = nd.v THEN 1 ELSE 0)
                                       IN  Yes(Text(p + n, m), m) ELSE No
       [] nd.s = "either" -> IF p < Len(Inp) /\ (n > 0 \/ Inp[p + 1].v = nd.v) THEN Yes(Text(p, p + 1), p + 1) ELSE No
       [] nd.s = "side" -> IF n > 0 THEN Yes(Text(p, p + 1), p + 1) ELSE No
       [] nd.s = "trail" -> IF n > 0 THEN Yes(Text(p, p + n), p + n + RunLen(<<nd.v>>, p + n)) ELSE No
       [] nd.s = "all"  -> IF n > 0 THEN LET m == p + n + RunLen(<<nd.v>>, p + n) IN Yes(Text(p, m), m) ELSE No
       [] nd.s = "after" -> IF n > 0 /\ p > 0 /\ Inp[p].v = nd.v THEN Yes(Text(p, p + n), p + n) ELSE No
       [] nd.s = "ahead" -> IF n > 0 /\ p + n < Len(Inp) /\ Inp[p + n + 1].v = nd.v
                            THEN Yes(Text(p, p + n), p + n) ELSE No
       [] nd.s = "bof"   -> IF n > 0 /\ p = 0 THEN Yes(Text(p, p + n), p + n) ELSE No
       [] nd.s = "eol"   -> IF n > 0 /\ (p + n = Len(Inp) \/ (p + n + 1 = Len(Inp) /\ Inp[Len(Inp)].v = NL))
                            THEN Yes(Text(p, p + n), p + n) ELSE No
       [] nd.s = "rest"  -> LET m == LineLen(p) IN IF m > 0 THEN Yes(Text(p, p + m), p + m) ELSE No
       [] nd.s = "bol"   -> IF n > 0 /\ (p = 0 \/ Inp[p].v = NL) THEN Yes(Text(p, p + n), p + n) ELSE No

Match(nd, p) ==
  CASE nd.k = "sym"  -> IF p < Len(Inp) /\ Inp[p + 1].k = nd.s /\ ((Inp[p + 1].v = nd.v /\ nd.v # "nan") \/ (nd.s = "raw" /\ SameRaw(Inp[p + 1].v, nd.v)))
                        THEN Yes(ElemVal(Inp[p + 1]), p + 1) ELSE No
    [] nd.k \in {"sat", "letter", "digit"} -> IF p < Len(Inp) /\ InSeq(Inp[p + 1].v, nd.ts)
                        THEN Yes(ElemVal(Inp[p + 1]), p + 1) ELSE No
    [] nd.k \in {"tok", "tokins"} -> IF p < Len(Inp) /\ Inp[p + 1].k = nd.s
                        THEN Yes(ElemVal(Inp[p + 1]), p + 1) ELSE No
    [] nd.k = "lit"  -> IF p + Len(nd.ts) <= Len(Inp) /\ \A j \in 1..Len(nd.ts) : Inp[p + j].v = nd.ts[j]
                        THEN Yes(T("tok", CatStr(nd.ts), 0, << >>), p + Len(nd.ts)) ELSE No
    [] nd.k = "rex"  -> RexMatch(nd, p)

MatchLeaves == {"sym", "sat", "letter", "digit", "tok", "tokins", "lit", "rex"}
OtherLeaves == {"eof", "pure", "purefn", "purelist", "unexp"}
PureVal(nd) == IF nd.k = "purelist" THEN ListV(<< >>)
               ELSE IF nd.s # "" THEN RawVal(nd.s) ELSE T("pure", "", nd.n, << >>)

(* expected descriptions a failing primitive reports *)
LeafExp(nd) == IF nd.k \in {"sat", "rex"} THEN << >> ELSE <<nd.l>>

(* nearest later position at which the primitive matches, -1 if none *)
RECURSIVE Nearest(_, _)
Nearest(nd, p) == IF p >= Len(Inp) THEN -1
                  ELSE IF Match(nd, p).ok THEN p ELSE Nearest(nd, p + 1)

(* text parsers move the known location, single-element parsers do not *)
Advance(nd, x, q) == IF nd.k \in {"lit", "rex"} THEN UpdLoc(x, q) ELSE x

MatchLeaf(nd, c) ==
  LET m == Match(nd, c.p)
      exp == LeafExp(nd)
  IN  IF m.ok THEN Ok(m.v, m.p, Advance(nd, c.x, m.p), << >>, m.p # c.p)
      ELSE LET loc == GetLoc(c.x, c.p)
           IN IF c.f \/ c.r = -1 THEN Err(loc, exp, FALSE)
              ELSE LET canIns == nd.k \in {"sym", "lit"} /\ c.r > 0
                       insv == IF nd.k = "lit" THEN T("tok", CatStr(nd.ts), 0, << >>)
                               ELSE SymVal(nd)
                       ins == IF canIns THEN <<InsertRep(c.r, -1, insv, c.p, c.x, loc, nd.l, exp)>> ELSE << >>
                       q == Nearest(nd, c.p + 1)
                       mq == Match(nd, q)
                       skp == IF q = -1 THEN << >>
                              ELSE <<SkipRep(c.i, mq.v, mq.p, UpdLoc(c.x, mq.p), loc, q - c.p, exp)>>
                   IN IF nd.k \in {"sym", "lit"} THEN Rec(ins \o skp, loc, exp, FALSE)
                      ELSE IF skp = << >> THEN Err(loc, exp, FALSE)
                      ELSE Rec(skp, loc, exp, FALSE)

(* A user predicate (n = 1) that raises an exception of its own on the       *)
(* element "!": when the current element or, in recovery mode, one of those  *)
(* examined for a skip is that element.                                      *)
Boom == "!"
RECURSIVE ScanBooms(_, _)
ScanBooms(nd, p) == IF p >= Len(Inp) THEN FALSE
                    ELSE IF Inp[p + 1].v = Boom THEN TRUE
                    ELSE IF Match(nd, p).ok THEN FALSE ELSE ScanBooms(nd, p + 1)
Explodes(nd, c) ==
  nd.k = "sat" /\ nd.n = 1 /\ c.p < Len(Inp)
  /\ \/ Inp[c.p + 1].v = Boom
     \/ ~c.f /\ c.r # -1 /\ ScanBooms(nd, c.p)

(* recover_with and recover_with_fn around a result *)
OfferInsert(res, c, v, lab) ==
  IF c.f \/ c.r <= 0 \/ res.k = "ok" \/ res.d THEN res
  ELSE LET loc == GetLoc(c.x, c.p)
           rp == InsertRep(c.r, 0, v, c.p, c.x, loc, lab, res.e)
       IN  Rec(<<rp>> \o res.r, loc, res.e, FALSE)

Offers(res, c) == ~(c.f \/ c.r <= 0 \/ res.k = "ok" \/ res.d)

(* token_ins supplies a token that is where the input goes on *)
TokInsVal(nd, c) == TokVal(nd.s, nd.v, LexLoc(Inp, c.p), LexLoc(Inp, c.p))

LeafRes(nd, c) ==
  CASE nd.k = "tokins" -> OfferInsert(MatchLeaf(nd, c), c, TokInsVal(nd, c), nd.l)
    [] nd.k \in MatchLeaves \ {"tokins"} -> MatchLeaf(nd, c)
    [] nd.k = "eof" ->
         IF c.p = Len(Inp) THEN Ok(NoneV, c.p, c.x, << >>, FALSE)
         ELSE LET loc == GetLoc(c.x, c.p)
              IN  IF c.f \/ c.r = -1 THEN Err(loc, <<nd.l>>, FALSE)
                  ELSE Rec(<<PendingSkipRep(c.i, NoneV, Len(Inp), c.x, loc, Len(Inp) - c.p, <<nd.l>>)>>,
                           loc, <<nd.l>>, FALSE)
    [] nd.k \in {"pure", "purefn", "purelist"} -> Ok(PureVal(nd), c.p, c.x, << >>, FALSE)
    [] nd.k = "unexp" -> Err(GetLoc(c.x, c.p), <<nd.l>>, FALSE)

------------------------------------------------------------------------------
(* Transitions.  Call transitions start a node; Ret transitions resume the   *)
(* innermost frame with the result of its child.                             *)
Cal(n, p, x, f, i, r) == [n |-> n, p |-> p, x |-> x, f |-> f, i |-> i, r |-> r]

Is(k) == pc = "call" /\ Node(cal.n).k = k
IsIn(S) == pc = "call" /\ Node(cal.n).k \in S
At(f) == pc = "ret" /\ stk # << >> /\ Head(stk).f = f
Fr == Head(stk)

Enter(frame, c) == /\ pc' = "call" /\ cal' = c /\ stk' = <<frame>> \o stk
                   /\ UNCHANGED <<env, ret, fnlog>>
Resume(frame, c) == /\ pc' = "call" /\ cal' = c /\ stk' = <<frame>> \o Tail(stk)
                    /\ UNCHANGED <<env, ret, fnlog>>
Jump(c) == pc' = "call" /\ cal' = c /\ UNCHANGED <<env, ret, stk, fnlog>>
Leave(res) == /\ pc' = "ret" /\ ret' = res /\ stk' = Tail(stk)
              /\ UNCHANGED <<env, cal, fnlog>>
Raise(why) == /\ pc' = "ret" /\ ret' = Exc(why) /\ stk' = << >>
              /\ UNCHANGED <<env, cal, fnlog>>

Leaf == /\ IsIn(MatchLeaves \cup OtherLeaves) /\ ~Explodes(Node(cal.n), cal)
        /\ pc' = "ret" /\ ret' = LeafRes(Node(cal.n), cal)
        /\ UNCHANGED <<env, cal, stk, fnlog>>
LeafRaises == IsIn({"sat"}) /\ Explodes(Node(cal.n), cal) /\ Raise("boom")

(* --- transparent wrappers ------------------------------------------------ *)
Mapping == {"fmap", "apply", "sepby", "chainl1", "chainr1"}
MapTarget(nd, j) == CASE nd.k = "sepby" -> VBase + j
                      [] nd.k \in {"chainl1", "chainr1"} -> 5 * VBase + j
                      [] OTHER -> nd.a
CallMap == IsIn(Mapping) /\ Enter([f |-> "map", n |-> cal.n],
                                  [cal EXCEPT !.n = MapTarget(Node(cal.n), cal.n)])
RetMap == At("map") /\ IF MapRaises(Node(Fr.n), ret) THEN Raise("boom") ELSE Leave(MapRes(Node(Fr.n), ret))

CallBetween == Is("between") /\ Jump([cal EXCEPT !.n = 8 * VBase + cal.n])

Definitions(n) == {d \in env.defd : d[1] = n}
CallDelay == Is("delay") /\ IF Definitions(cal.n) = {} THEN Raise("runtime")
                            ELSE Jump([cal EXCEPT !.n = (CHOOSE d \in Definitions(cal.n) : TRUE)[2]])

CallLabel == Is("label") /\ Enter([f |-> "label", l |-> Node(cal.n).l], [cal EXCEPT !.n = Node(cal.n).a])
RetLabel == At("label") /\ Leave(SetExpected(ret, <<Fr.l>>))

(* --- sequencing ---------------------------------------------------------- *)
Seqs == {"seq", "seql", "seqr", "then", "thenN"}
CallSeq == /\ IsIn(Seqs)
           /\ Enter([f |-> "seq1", n |-> cal.n, i |-> cal.i, r |-> cal.r, m |-> cal.f],
                    [cal EXCEPT !.n = Node(cal.n).a])

BindTarget(nd, v) == LET k == KeyOf(v)
                     IN  IF InSeq(k, nd.ts) THEN nd.ks[IndexOf(k, nd.ts)] ELSE nd.b
CallBind == /\ Is("bind")
            /\ Enter([f |-> "seq1", n |-> cal.n, i |-> cal.i, r |-> cal.r, m |-> cal.f],
                     [cal EXCEPT !.n = Node(cal.n).a])

SecondOf(nd, v) == IF nd.k = "bind" THEN BindTarget(nd, v) ELSE nd.b

(* Continuing after a repair: every repair of the first parser is carried    *)
(* through the rest of the sequence on its own.                              *)
ContFrame(n, ra, i, vs) == [f |-> "cont", n |-> n, ra |-> ra, j |-> 1, acc |-> << >>, i |-> i, vs |-> vs]
ContCall(fr) ==
  LET nd == Node(fr.n)
      rp == fr.ra.r[fr.j]
  IN  IF nd.k = "many" THEN Cal(fr.n, rp.p, rp.x, FALSE, fr.i, -1)
      ELSE Cal(SecondOf(nd, rp.v), rp.p, rp.x, FALSE, fr.i, rp.i)
ContStart(fr) ==              \* replaces the innermost frame
  IF Len(fr.ra.r) = 0 THEN Leave(Rec(<< >>, fr.ra.o, fr.ra.e, fr.ra.d))
  ELSE Resume(fr, ContCall(fr))

RetSeq1 ==
  /\ At("seq1")
  /\ LET nd == Node(Fr.n)
     IN CASE ret.k = "err" -> Leave(ret)
          [] ret.k = "rec" -> ContStart(ContFrame(Fr.n, ret, Fr.i, << >>))
          [] ret.k = "ok"  ->
               Resume([f |-> "seq2", n |-> Fr.n, v |-> ret.v, e |-> ret.e, d |-> ret.d],
                      Cal(SecondOf(nd, ret.v), ret.p, ret.x, Fr.m, Fr.i, IF ret.d THEN Fr.i ELSE Fr.r))

RetSeq2 == At("seq2") /\ Leave(Prepend(MergeRes(Node(Fr.n).k, Fr.v, ret), Fr.e, Fr.d))

ContMerge(fr, va, vb) ==
  IF Node(fr.n).k = "many" THEN ListV(fr.vs \o <<va>> \o vb.c) ELSE Merge(Node(fr.n).k, va, vb)
ContAppendExp(ra, e, d) == IF d THEN e ELSE ra.e \o e
ContCollect(fr, rb) ==
  LET ra == fr.ra.r[fr.j]
  IN CASE rb.k = "ok" ->
            <<Rep(ra.c, ra.q, IF ra.p = rb.p THEN ra.i ELSE fr.i, ra.s, ContMerge(fr, ra.v, rb.v), rb.p, rb.x,
                  ContAppendExp(ra, rb.e, rb.d), ra.d \/ rb.d)>>
       [] rb.k = "rec" ->
            [j \in 1..Len(rb.r) |->
               LET b == rb.r[j]
               IN  Rep(ra.c + b.c, ra.q, b.i, ra.s \o PrepOps(b.s, ra.e, ra.d), ContMerge(fr, ra.v, b.v), b.p, b.x,
                       ContAppendExp(ra, b.e, b.d), ra.d \/ b.d)]
       [] OTHER -> << >>
RetCont ==
  /\ At("cont")
  /\ LET fr == [Fr EXCEPT !.acc = Fr.acc \o ContCollect(Fr, ret), !.j = Fr.j + 1]
     IN  IF fr.j > Len(fr.ra.r) THEN Leave(Rec(fr.acc, fr.ra.o, fr.ra.e, fr.ra.d))
         ELSE Resume(fr, ContCall(fr))

(* --- choice -------------------------------------------------------------- *)
(* Both alternatives are first tried without recovery at this position; only *)
(* if both fail without consuming are their repairs considered.              *)
CallAlt == Is("alt") /\ Enter([f |-> "alt1", c |-> cal], [cal EXCEPT !.n = Node(cal.n).a, !.r = -1])
RetAlt1 == /\ At("alt1")
           /\ IF ret.k = "ok" \/ ret.d THEN Leave(ret)
              ELSE Resume([f |-> "alt2", c |-> Fr.c, o |-> ret.o, e |-> ret.e],
                          [Fr.c EXCEPT !.n = Node(Fr.c.n).b, !.r = -1])
RetAlt2 == /\ At("alt2")
           /\ LET e == Fr.e \o ret.e
              IN IF ret.d THEN Leave(ret)
                 ELSE IF ret.k = "ok" THEN Leave(SetExpected(ret, e))
                 ELSE IF Fr.c.f \/ Fr.c.r = -1 THEN Leave(Err(Fr.o, e, FALSE))
                 ELSE Resume([f |-> "alt3", c |-> Fr.c, o |-> Fr.o, e |-> e],
                             [Fr.c EXCEPT !.n = Node(Fr.c.n).a])
RetAlt3 == /\ At("alt3")
           /\ Resume([f |-> "alt4", c |-> Fr.c, o |-> Fr.o, e |-> Fr.e, ra |-> ret],
                     [Fr.c EXCEPT !.n = Node(Fr.c.n).b])
(* a later alternative only contributes repairs that do not start with an    *)
(* automatic insertion, unless recover() sanctioned them                     *)
Sanctioned(rs) == SelectSeq(rs, LAMBDA r : r.q # -1)
JoinRepairs(ra, rb) ==
  LET rs == ra.r \o Sanctioned(rb.r)
  IN  IF ra.d THEN Rec(rs, ra.o, ra.e, TRUE)
      ELSE IF rb.d THEN Rec(rs, rb.o, rb.e, TRUE)
      ELSE Rec(rs, ra.o, ra.e \o rb.e, FALSE)
RetAlt4 == /\ At("alt4")
           /\ LET ra == Fr.ra
              IN Leave(IF ra.k = "rec"
                       THEN IF ret.k = "rec" THEN SetExpected(JoinRepairs(ra, ret), Fr.e)
                            ELSE SetExpected(ra, Fr.e)
                       ELSE IF ret.k = "rec" THEN SetExpected(ret, Fr.e)
                       ELSE Err(Fr.o, Fr.e, FALSE))

CallMaybe == Is("maybe") /\ Enter([f |-> "maybe", p |-> cal.p, x |-> cal.x],
                                  [cal EXCEPT !.n = Node(cal.n).a, !.r = -1])
RetMaybe == At("maybe") /\ Leave(IF ret.d \/ ret.k = "ok" THEN ret
                                 ELSE Ok(NoneV, Fr.p, Fr.x, ret.e, FALSE))

(* --- repetition ---------------------------------------------------------- *)
CallMany == Is("many") /\ Enter([f |-> "many", c |-> cal, vs |-> << >>, e |-> << >>],
                                [cal EXCEPT !.n = Node(cal.n).a, !.r = -1])
RetManyMore ==              \* one more element
  /\ At("many") /\ ret.k = "ok"
  /\ IF ~ret.d THEN Raise("runtime")
     ELSE LET c2 == [Fr.c EXCEPT !.p = ret.p, !.x = ret.x]
          IN  Resume([f |-> "many", c |-> c2, vs |-> Append(Fr.vs, ret.v), e |-> ret.e],
                     [c2 EXCEPT !.n = Node(Fr.c.n).a, !.r = -1])
RetManyEnd ==               \* no further element, or an element that failed after consuming
  /\ At("many") /\ ret.k = "err"
  /\ Leave(IF ret.d THEN ret ELSE Ok(ListV(Fr.vs), Fr.c.p, Fr.c.x, Fr.e \o ret.e, Fr.vs # << >>))
RetManyRec ==               \* an element was repaired: repeat from there
  /\ At("many") /\ ret.k = "rec"
  /\ ContStart(ContFrame(Fr.c.n, ret, Fr.c.i, Fr.vs))

(* --- backtracking -------------------------------------------------------- *)
CallAttempt == /\ Is("attempt")
               /\ LET a == Node(cal.n).a
                  IN IF ~cal.f /\ cal.r # -1 THEN Jump([cal EXCEPT !.n = a])
                     ELSE Enter([f |-> "attempt"], [cal EXCEPT !.n = a, !.f = TRUE])
RetAttempt == At("attempt") /\ Leave(IF ret.k = "err" THEN [ret EXCEPT !.d = FALSE] ELSE ret)

(* --- recovery annotations ------------------------------------------------ *)
CallRecover == Is("recover") /\ Enter([f |-> "recover"], [cal EXCEPT !.n = Node(cal.n).a])
RetRecover == At("recover") /\ Leave([ret EXCEPT !.r = [j \in 1..Len(ret.r) |-> [ret.r[j] EXCEPT !.q = 0]]])

CallRWith == IsIn({"rwith", "rwithfn"}) /\ Enter([f |-> "rwith", c |-> cal], [cal EXCEPT !.n = Node(cal.n).a])
(* a recover_with_fn callback sees the stream and the position *)
At_(s, p) == IF s = "@" THEN "@" \o ToString(p) ELSE s         \* told apart by the position
InsVal(nd, c) == IF nd.v # "" THEN RawVal(nd.v)
                 ELSE IF nd.k = "rwith" THEN T("ins", nd.s, nd.n, << >>)
                 ELSE T("ins", At_(nd.s, c.p), nd.n * 1000 + c.p, <<IF c.p < Len(Inp) THEN ElemVal(Inp[c.p + 1]) ELSE NoneV>>)
RetRWith == /\ At("rwith")
            /\ LET nd == Node(Fr.c.n)
               IN /\ pc' = "ret" /\ stk' = Tail(stk)
                  /\ ret' = OfferInsert(ret, Fr.c, InsVal(nd, Fr.c), At_(nd.l, Fr.c.p))
                  /\ fnlog' = IF nd.k = "rwithfn" /\ Offers(ret, Fr.c) THEN fnlog \cup {nd.n * 1000 + Fr.c.p} ELSE fnlog
                  /\ UNCHANGED <<env, cal>>

(* --- layout -------------------------------------------------------------- *)
Indent == <<"indentation">>
CallBlock == /\ Is("block")
             /\ LET x == UpdLoc(cal.x, cal.p)
                IN Enter([f |-> "ctx", x |-> x],
                         [cal EXCEPT !.n = Node(cal.n).a, !.x = [x EXCEPT !.mark = x.loc.c]])
CallAligned == /\ Is("aligned")
               /\ LET x == UpdLoc(cal.x, cal.p)
                  IN IF x.mark = x.loc.c THEN Jump([cal EXCEPT !.n = Node(cal.n).a, !.x = x])
                     ELSE /\ pc' = "ret" /\ ret' = Err(x.loc, Indent, FALSE)
                          /\ UNCHANGED <<env, cal, stk, fnlog>>
CallIndented == /\ Is("indented")
                /\ LET x == UpdLoc(cal.x, cal.p)
                   IN IF x.mark + Node(cal.n).n = x.loc.c
                      THEN Enter([f |-> "ctx", x |-> x],
                                 [cal EXCEPT !.n = Node(cal.n).a, !.x = [x EXCEPT !.mark = x.loc.c]])
                      ELSE /\ pc' = "ret" /\ ret' = Err(x.loc, Indent, FALSE)
                           /\ UNCHANGED <<env, cal, stk, fnlog>>
RetCtx == At("ctx") /\ Leave(SetCtx(ret, Fr.x))

------------------------------------------------------------------------------
Step == \/ Leaf \/ LeafRaises
        \/ CallMap \/ RetMap \/ CallBetween \/ CallDelay \/ CallLabel \/ RetLabel
        \/ CallSeq \/ CallBind \/ RetSeq1 \/ RetSeq2 \/ RetCont
        \/ CallAlt \/ RetAlt1 \/ RetAlt2 \/ RetAlt3 \/ RetAlt4 \/ CallMaybe \/ RetMaybe
        \/ CallMany \/ RetManyMore \/ RetManyEnd \/ RetManyRec
        \/ CallAttempt \/ RetAttempt
        \/ CallRecover \/ RetRecover \/ CallRWith \/ RetRWith
        \/ CallBlock \/ CallAligned \/ CallIndented \/ RetCtx

(* how many times the next step calls user code (predicates, mapping         *)
(* functions, chain operators, value factories)                              *)
MapCalls(nd, v) == IF nd.k \in {"fmap", "apply"} THEN 1
                   ELSE IF nd.k \in {"chainl1", "chainr1"} THEN Len(v.c[2].c) ELSE 0
UserCalls ==
  IF pc = "call" THEN LET nd == Node(cal.n)
                      IN IF \/ nd.k \in {"purefn", "purelist"}
                            \/ nd.k = "sat" /\ cal.p < Len(Inp)
                            \/ nd.k = "tok" /\ env.km # "lex" /\ cal.p < Len(Inp) THEN 1 ELSE 0
  ELSE IF At("map") THEN IF ret.k = "ok" THEN MapCalls(Node(Fr.n), ret.v)
                         ELSE IF ret.k = "rec" THEN SumOf([j \in 1..Len(ret.r) |-> MapCalls(Node(Fr.n), ret.r[j].v)]) ELSE 0
  ELSE IF At("rwith") THEN IF Node(Fr.c.n).k = "rwithfn" /\ Offers(ret, Fr.c) THEN 1 ELSE 0
  ELSE IF At("seq1") THEN IF Node(Fr.n).k = "bind" /\ (ret.k = "ok" \/ (ret.k = "rec" /\ ret.r # << >>)) THEN 1 ELSE 0
  ELSE IF At("cont") THEN IF Node(Fr.n).k = "bind" /\ Fr.j < Len(Fr.ra.r) THEN 1 ELSE 0
  ELSE 0

Running == pc = "call" \/ (pc = "ret" /\ stk # << >>)
Finished == pc = "ret" /\ stk = << >>

(* begin a run: plain mode, or recovery mode with env.mi insertions in a row *)
StartRun(root, fast, e) ==
  /\ env' = e
  /\ pc' = "call" /\ stk' = << >> /\ fnlog' = {} /\ ret' = Exc("none")
  /\ cal' = Cal(root, 0, Ctx0, fast, IF fast THEN -1 ELSE e.mi, IF fast THEN -1 ELSE e.mi)

MachineIdle == /\ env = [g |-> 0, i |-> 0, km |-> "plain", mi |-> 0, defd |-> {}]
               /\ pc = "idle" /\ cal = Cal(0, 0, Ctx0, TRUE, -1, -1) /\ ret = Exc("none")
               /\ stk = << >> /\ fnlog = {}

------------------------------------------------------------------------------
(* What the caller sees.  Errors are [o location, s location text,           *)
(* ex expected list, k "none"/"skip"/"ins", n count, b label].               *)
ErrItem(o, e, k, n, b) ==
  [p |-> o.p, l |-> o.l, c |-> o.c, s |-> LocStr(env.km, o), ex |-> e, k |-> k, n |-> n, b |-> b]

PlainErr(res) == <<ErrItem(res.o, res.e, "none", 0, "")>>

(* the repair reported: fewest edits, then furthest, then not started by an  *)
(* automatic insertion, then first found                                     *)
Better(a, b) == \/ a.c < b.c
                \/ a.c = b.c /\ a.p > b.p
                \/ a.c = b.c /\ a.p = b.p /\ a.q # -1 /\ b.q = -1
RECURSIVE BestFrom(_, _, _)
BestFrom(rs, j, b) == IF j > Len(rs) THEN b ELSE BestFrom(rs, j + 1, IF Better(rs[j], b) THEN rs[j] ELSE b)
Best(rs) == BestFrom(rs, 2, rs[1])

RepairErrs(rp) == [j \in 1..Len(rp.s) |-> LET o == rp.s[j] IN ErrItem(o.o, o.e, o.k, o.n, o.b)]

(* k: "val" / "err", or what was raised *)
Val(v) == [k |-> "val", v |-> v, e |-> << >>]
Fail(e) == [k |-> "err", v |-> NoneV, e |-> e]
Thrown(why) == [k |-> why, v |-> NoneV, e |-> << >>]
Unwrap(res, recover) ==
  CASE res.k = "exc" -> Thrown(res.e[1])
    [] res.k = "ok"  -> Val(res.v)
    [] res.k = "err" -> Fail(PlainErr(res))
    [] res.k = "rec" -> IF res.r = << >> THEN Fail(PlainErr(res))
                        ELSE IF recover THEN Val(Best(res.r).v)
                        ELSE Fail(RepairErrs(Best(res.r)))

(* message of one error, and of the whole exception *)
RECURSIVE CommaJoin(_, _)
CommaJoin(ss, j) == IF j = Len(ss) THEN ss[j] ELSE ss[j] \o ", " \o CommaJoin(ss, j + 1)
ItemMsg(it) ==
  "at " \o it.s \o ": "
  \o (IF it.ex = << >> THEN "unexpected input"
      ELSE IF Len(it.ex) = 1 THEN "expected " \o it.ex[1]
      ELSE "expected " \o CommaJoin(SubSeq(it.ex, 1, Len(it.ex) - 1), 1) \o " or " \o it.ex[Len(it.ex)])
  \o (CASE it.k = "none" -> ""
        [] it.k = "skip" -> " (skipped " \o ToString(it.n) \o (IF it.n = 1 THEN " token)" ELSE " tokens)")
        [] it.k = "ins"  -> " (inserted " \o it.b \o ")")
ErrMsg(es) == CommaJoin([j \in 1..Len(es) |-> ItemMsg(es[j])], 1)
=============================================================================
