------------------------------- MODULE Repairs --------------------------------
(* The meaning of recovery, independent of how the machine runs it: for a    *)
(* parser at a position, either the value it accepts or the set of all its   *)
(* candidate repairs, each with the path of decisions that leads to it.      *)
(* No expected lists, no locations, no order of evaluation: a repair is one  *)
(* way to go on at every failed token, and the one reported is the minimum   *)
(* of the set (C07 C08 C16).                                                 *)
EXTENDS Abstract

(* t the places decided at: 1/2 the alternative of a choice, insertions      *)
(* before skips; compared like words of a dictionary                         *)
Cand(c, q, i, s, v, p, t) == [c |-> c, q |-> q, i |-> i, s |-> s, v |-> v, p |-> p, t |-> t]
Edit(k, n, b, p) == [k |-> k, n |-> n, b |-> b, p |-> p]
(* ok with v up to p, or not; d: input was consumed (when not ok: before the *)
(* failure);  z: it is recoverable (has candidates of its own, or would have *)
(* had them);  w: the candidates                                             *)
Meant(v, p, d) == [ok |-> TRUE, v |-> v, p |-> p, d |-> d, z |-> FALSE, w |-> {}, x |-> ""]
Fails(d, z, w) == [ok |-> FALSE, v |-> NoneV, p |-> 0, d |-> d, z |-> z, w |-> w, x |-> ""]
Stops == [Fails(TRUE, FALSE, {}) EXCEPT !.x = "runtime"]

Ins(r, q, v, p, b) == Cand(1, q, r - 1, <<Edit("ins", 0, b, p)>>, v, p, <<1>>)
Skip(full, v, from, to, p) == Cand(to - from, 0, full, <<Edit("skip", to - from, "", from)>>, v, p, <<2>>)

(* where the next element lies that nd accepts, after p; -1: nowhere         *)
NextMatch(nd, p) == LET at == {q \in p + 1..Len(Inp) - 1 : Match(nd, q).ok}
                    IN IF at = {} THEN -1 ELSE CHOOSE q \in at : \A y \in at : q <= y

(* on: repairs may be made here (r insertions in a row are left), later: not *)
(* here but after input is consumed, never: not at all                       *)
RECURSIVE Meaning(_, _, _, _, _, _), ManyMeaning(_, _, _, _, _, _, _)
Meaning(n, p, mk, mode, full, r) ==
  LET nd == Node(n)
      Sub(m) == Meaning(m, p, mk, mode, full, r)
      Quiet(m) == Meaning(m, p, mk, IF mode = "on" THEN "later" ELSE mode, full, r)
      Values(R, F(_)) == IF R.ok THEN [R EXCEPT !.v = F(R.v)] ELSE [R EXCEPT !.w = {[k EXCEPT !.v = F(k.v)] : k \in R.w}]
      Going(k, b) == [b EXCEPT !.w = {[y EXCEPT !.c = k.c + y.c, !.q = k.q, !.s = k.s \o y.s, !.t = k.t \o y.t] : y \in b.w}]
      Layout(ok, m2) == IF ok THEN Meaning(nd.a, p, m2, mode, full, r) ELSE Fails(FALSE, FALSE, {})
      Named(lab, val) == IF nd.k \in {"sym", "lit"} /\ r > 0 THEN {Ins(r, -1, val, p, lab)} ELSE {}
      Leaf_ == LET m == Match(nd, p)
                   q == NextMatch(nd, p)
                   mq == Match(nd, q)
                   skips == IF q = -1 THEN {} ELSE {Skip(full, mq.v, p, q, mq.p)}
               IN IF m.ok THEN Meant(m.v, m.p, m.p > p)
                  ELSE IF mode # "on" THEN Fails(FALSE, FALSE, {})
                  ELSE IF nd.k \in {"sym", "lit"}
                       THEN Fails(FALSE, TRUE, skips \cup Named(nd.l, IF nd.k = "lit" THEN T("tok", CatStr(nd.ts), 0, << >>)
                                                                      ELSE SymVal(nd)))
                       ELSE Fails(FALSE, skips # {}, skips)
      Offered(R, v, b) == IF mode # "on" \/ r <= 0 \/ R.ok \/ R.d \/ R.x # "" THEN R
                          ELSE Fails(FALSE, TRUE, {[Ins(r, 0, v, p, b) EXCEPT !.t = <<0>>]}
                                                  \cup {[k EXCEPT !.t = <<1>> \o k.t] : k \in R.w})
  IN
  CASE nd.k = "tokins" -> Offered(Leaf_, TokInsVal(nd, [p |-> p]), nd.l)
    [] nd.k \in MatchLeaves \ {"tokins"} -> Leaf_
    [] nd.k = "eof" -> IF p = Len(Inp) THEN Meant(NoneV, p, FALSE)
                       ELSE IF mode # "on" THEN Fails(FALSE, FALSE, {})
                       ELSE Fails(FALSE, TRUE, {Skip(full, NoneV, p, Len(Inp), Len(Inp))})
    [] nd.k \in {"pure", "purefn", "purelist"} -> Meant(PureVal(nd), p, FALSE)
    [] nd.k = "unexp" -> Fails(FALSE, FALSE, {})
    [] nd.k \in Mapping -> Values(Sub(MapTarget(nd, n)), LAMBDA v : MapVal(nd, v))
    [] nd.k = "between" -> Sub(8 * VBase + n)
    [] nd.k = "delay" -> IF Definitions(n) = {} THEN Stops ELSE Sub((CHOOSE d \in Definitions(n) : TRUE)[2])
    [] nd.k = "label" -> Sub(nd.a)
    [] nd.k \in Seqs \cup {"bind"} ->
         LET ra == Sub(nd.a)
         IN IF ra.x # "" THEN ra
            ELSE IF ra.ok
            THEN LET rb == Meaning(SecondOf(nd, ra.v), ra.p, mk, IF mode = "later" /\ ra.d THEN "on" ELSE mode, full,
                                   IF ra.d THEN full ELSE r)
                 IN [Values(rb, LAMBDA v : Merge(nd.k, ra.v, v)) EXCEPT !.d = ra.d \/ rb.d]
            ELSE LET Rest(k) == LET rb == Meaning(SecondOf(nd, k.v), k.p, mk, "on", full, k.i)
                                IN Values(Going(k, rb), LAMBDA v : Merge(nd.k, k.v, v))
                     all == {<<k, Rest(k)>> : k \in ra.w}
                 IN IF \E kr \in all : kr[2].x # "" THEN Stops
                    ELSE Fails(ra.d, ra.z,
                               {[kr[1] EXCEPT !.v = kr[2].v, !.p = kr[2].p, !.i = IF kr[1].p = kr[2].p THEN kr[1].i ELSE full]
                                  : kr \in {kr \in all : kr[2].ok}}
                               \cup UNION {kr[2].w : kr \in {kr \in all : ~kr[2].ok}})
    [] nd.k = "alt" ->
         LET qa == Quiet(nd.a)
             qb == Quiet(nd.b)
         IN IF qa.x # "" \/ qa.ok \/ qa.d THEN qa
            ELSE IF qb.x # "" \/ qb.ok \/ qb.d THEN qb
            ELSE IF mode # "on" THEN Fails(FALSE, FALSE, {})
            ELSE LET ra == Sub(nd.a)
                     rb == Sub(nd.b)
                     wb == IF ra.z THEN {k \in rb.w : k.q # -1} ELSE rb.w
                 IN IF ra.x # "" THEN ra ELSE IF rb.x # "" THEN rb
                    ELSE Fails((ra.z /\ ra.d) \/ (rb.z /\ rb.d), ra.z \/ rb.z, {[k EXCEPT !.t = <<1>> \o k.t] : k \in ra.w}
                                                    \cup {[k EXCEPT !.t = <<2>> \o k.t] : k \in wb})
    [] nd.k = "maybe" -> LET qa == Quiet(nd.a) IN IF qa.x # "" \/ qa.ok \/ qa.d THEN qa ELSE Meant(NoneV, p, FALSE)
    [] nd.k = "many" -> ManyMeaning(n, p, mk, mode, full, << >>, FALSE)
    [] nd.k = "attempt" ->
         IF mode = "on" THEN Sub(nd.a)
         ELSE LET R == Meaning(nd.a, p, mk, "never", full, r) IN IF R.ok \/ R.x # "" THEN R ELSE [R EXCEPT !.d = FALSE]
    [] nd.k = "recover" -> LET R == Sub(nd.a) IN [R EXCEPT !.w = {[k EXCEPT !.q = 0] : k \in R.w}]
    [] nd.k \in {"rwith", "rwithfn"} -> Offered(Sub(nd.a), InsVal(nd, [p |-> p]), At_(nd.l, p))
    [] nd.k = "block" -> Meaning(nd.a, p, Col(p), mode, full, r)
    [] nd.k = "aligned" -> Layout(mk = Col(p), mk)
    [] nd.k = "indented" -> Layout(mk + nd.n = Col(p), Col(p))

ManyMeaning(n, p, mk, mode, full, vs, d) ==
  LET R == Meaning(Node(n).a, p, mk, IF mode = "on" THEN "later" ELSE mode, full, 0)
  IN IF R.x # "" THEN R
     ELSE IF R.ok THEN IF R.d THEN ManyMeaning(n, R.p, mk, mode, full, Append(vs, R.v), TRUE) ELSE Stops
     ELSE IF ~R.d THEN Meant(ListV(vs), p, d)
     ELSE LET all == {<<k, ManyMeaning(n, k.p, mk, "on", full, Append(vs, k.v), TRUE)>> : k \in R.w}
          IN IF \E kr \in all : kr[2].x # "" THEN Stops
             ELSE Fails(TRUE, R.z,
                        {[kr[1] EXCEPT !.v = kr[2].v, !.p = kr[2].p, !.i = IF kr[1].p = kr[2].p THEN kr[1].i ELSE full]
                           : kr \in {kr \in all : kr[2].ok}}
                        \cup UNION {{[y EXCEPT !.c = kr[1].c + y.c, !.q = kr[1].q, !.s = kr[1].s \o y.s, !.t = kr[1].t \o y.t]
                                       : y \in kr[2].w} : kr \in {kr \in all : ~kr[2].ok}})

(* the meaning of a parse with this allowance                                *)
Recovering(n, mi) == Meaning(n, 0, 0, "on", mi, mi)

RECURSIVE Before(_, _)
Before(s, t) == IF s = << >> \/ t = << >> THEN FALSE
                ELSE Head(s) < Head(t) \/ (Head(s) = Head(t) /\ Before(Tail(s), Tail(t)))
Preferred(a, b) == \/ a.c < b.c
                   \/ a.c = b.c /\ a.p > b.p
                   \/ a.c = b.c /\ a.p = b.p /\ a.q > b.q
                   \/ a.c = b.c /\ a.p = b.p /\ a.q = b.q /\ Before(a.t, b.t)
Reported(w) == CHOOSE a \in w : \A b \in w \ {a} : Preferred(a, b)

(* a finished run res of the machine shows what is meant                     *)
Seen(rp) == [c |-> rp.c, q |-> rp.q, s |-> Edits(RepairErrs(rp)), v |-> rp.v, p |-> rp.p]
AsSeen(k) == [c |-> k.c, q |-> k.q, s |-> k.s, v |-> k.v, p |-> k.p]
AsMeant(n, mi, res) ==
  LET R == Recovering(n, mi)
  IN IF R.x # "" THEN res.k = "exc"
     ELSE IF R.ok THEN res.k = "ok" /\ res.v = R.v /\ res.p = R.p
     ELSE /\ res.k \in {"err", "rec"}
          /\ {Seen(res.r[j]) : j \in 1..Len(res.r)} = {AsSeen(k) : k \in R.w}
          /\ R.w # {} => Seen(Best(res.r)) = AsSeen(Reported(R.w))
=============================================================================
